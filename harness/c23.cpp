// C23: change stamps against a shadow log of events
#include "anycalc.hpp"
#include <diffpy/EventTicker.hpp>
#include <diffpy/serialization.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <sys/wait.h>
#include "proc.hpp"
using namespace dpv;
using diffpy::eventticker::EventTicker;

// order of a stamp: events of one group are mutually ordered by rank, and events
// recorded in this process are also later than all stamps restored before them
struct Stamp
{
    int group;          // 0 for events of this process
    long rank;
    long since;         // value of the event counter when it was restored
};

static bool known(const Stamp& a, const Stamp& b, int* cmp)
{
    if (a.group == b.group)
    {
        *cmp = a.rank < b.rank ? -1 : a.rank > b.rank;
        return true;
    }
    if (a.group == 0 && a.rank > b.since)  { *cmp = 1; return true; }
    if (b.group == 0 && b.rank > a.since)  { *cmp = -1; return true; }
    return false;
}

struct World
{
    vector<EventTicker> t;
    vector<Stamp> s;
    long events;
    int groups;
    string hist;
    World() : events(0), groups(0)  { }
    void add(const EventTicker& x, const Stamp& y)  { t.push_back(x); s.push_back(y); }
};

static bool compareTickers(const World& w, int i, int j)
{
    int c;
    if (!known(w.s[i], w.s[j], &c))  return true;
    const EventTicker &a = w.t[i], &b = w.t[j];
    bool ok = (a < b) == (c < 0) && (a > b) == (c > 0) && (a == b) == (c == 0) &&
        (a != b) == (c != 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0) &&
        (a.value() < b.value()) == (c < 0) && (a.value() == b.value()) == (c == 0);
    ctx().count("comparisons");
    if (!ok)
    {
        string how = w.s[i].group || w.s[j].group ? "C23:order of restored stamps" : "C23:order of stamps";
        ctx().fail(how, fmt("stamps (%ld,%ld) and (%ld,%ld) expected order %d groups %d,%d ranks %ld,%ld ", a.value().first, a.value().second,
                    b.value().first, b.value().second, c, w.s[i].group, w.s[j].group, w.s[i].rank, w.s[j].rank) + w.hist);
    }
    return ok;
}
static bool compareAll(Rng& g, const World& w)
{
    bool ok = true;
    int n = w.t.size();
    if (n < 13)
    {
        for (int i = 0; i < n && ok; ++i) for (int j = 0; j < n && ok; ++j)  ok = compareTickers(w, i, j);
    }
    else  for (int k = 0; k < 100 && ok; ++k)  ok = compareTickers(w, g.i(0, n - 1), g.i(0, n - 1));
    evaluated("order of stamps");
    return ok;
}

static string saveOne(const EventTicker& t, bool text)
{
    std::ostringstream o;
    if (text)  { boost::archive::text_oarchive a(o); a << t; }
    else  { boost::archive::binary_oarchive a(o); a << t; }
    return o.str();
}
static string saveMany(const vector<EventTicker>& t, bool text)
{
    std::ostringstream o;
    if (text)  { boost::archive::text_oarchive a(o); a << t; }
    else  { boost::archive::binary_oarchive a(o); a << t; }
    return o.str();
}
template <class T> static void load(const string& s, bool text, T& t)
{
    std::istringstream i(s);
    if (text)  { boost::archive::text_iarchive a(i); a >> t; }
    else  { boost::archive::binary_iarchive a(i); a >> t; }
}

// basic operations within one process
static void oneOp(Rng& g, World& w)
{
    int n = w.t.size();
    int i = g.i(0, n - 1), j = g.i(0, n - 1);
    switch (g.i(0, 9))
    {
        case 0: case 1: case 2:
            w.t[i].click();
            w.s[i].group = 0;
            w.s[i].rank = ++w.events;
            w.hist += fmt("click %d; ", i);
            break;
        case 3: case 4:
        {
            int c;
            if (!known(w.s[i], w.s[j], &c))  break;
            EventTicker was = w.t[i];
            w.t[i].updateFrom(w.t[j]);
            if (c < 0)  w.s[i] = w.s[j];
            checkTrue("C23:combining moves backwards", w.t[i] >= was && w.t[i] >= w.t[j] && (w.t[i] == was || w.t[i] == w.t[j]), w.hist);
            w.hist += fmt("update %d from %d; ", i, j);
            break;
        }
        case 5:
            w.t[i] = w.t[j];
            w.s[i] = w.s[j];
            w.hist += fmt("assign %d = %d; ", i, j);
            break;
        case 6:
            if (n > 16)  break;
            w.add(EventTicker(w.t[i]), w.s[i]);
            w.hist += fmt("copy %d; ", i);
            break;
        case 7:
        {
            if (n > 16)  break;
            Stamp z = {0, 0, 0};
            w.add(EventTicker(), z);
            w.hist += "new; ";
            break;
        }
        case 8:
        {
            // save and restore in the same process keeps the position
            bool text = g.chance(0.5);
            string s = saveOne(w.t[i], text);
            for (int k = g.i(0, 2); k > 0; --k)  { w.t[j].click(); w.s[j].group = 0; w.s[j].rank = ++w.events; }
            EventTicker x;
            if (g.chance(0.3))  x.click(), ++w.events;
            Stamp si = w.s[i];
            if (i == j)  break;
            load(s, text, x);
            w.add(x, si);
            if (w.t.size() > 16)  { w.t.erase(w.t.begin()); w.s.erase(w.s.begin()); }
            w.hist += fmt("restore %d; ", i);
            ctx().count("restored in the same process");
            break;
        }
        default:
            if (n > 3)  { w.t.erase(w.t.begin() + i); w.s.erase(w.s.begin() + i); w.hist += fmt("drop %d; ", i); }
    }
}

// stamps saved in another process whose clock is ahead
static void remote(Rng& g, World& w)
{
    int p[2];
    if (pipe(p))  return;
    pid_t pid = fork();
    if (pid == 0)
    {
        close(p[0]);
        string out;
        EventTicker idle;
        for (int k = g.chance(0.3) ? 0 : g.i(0, 300); k > 0; --k)  { idle.click(); ++w.events; }
        int narch = g.i(1, 4);
        for (int a = 0; a < narch; ++a)
        {
            for (int k = g.i(0, 8); k > 0; --k)  oneOp(g, w);
            // only stamps of one group are sent
            vector<EventTicker> v;
            string ranks;
            for (size_t i = 0; i < w.t.size(); ++i)
            {
                if (w.s[i].group || !g.chance(0.5))  continue;
                v.push_back(w.t[i]);
                ranks += fmt("%ld ", w.s[i].rank);
            }
            bool text = g.chance(0.5);
            if (g.chance(0.5) || v.empty())
            {
                put(out, fmt("m%d ", int(text)) + ranks);
                put(out, saveMany(v, text));
            }
            else
            {
                put(out, fmt("o%d ", int(text)) + ranks.substr(0, ranks.find(' ')));
                put(out, saveOne(v[0], text));
            }
        }
        writeAll(p[1], out);
        _exit(0);
    }
    close(p[1]);
    string s = readAll(p[0]);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (st)  { ctx().fail("C23:saving process failed", w.hist); return; }
    vector<std::pair<string, string> > ar;
    size_t pos = 0;
    string a, b;
    while (get(s, pos, a) && get(s, pos, b))  ar.push_back(std::make_pair(a, b));
    g.shuffle(ar);
    int grp = ++w.groups;
    w.hist += fmt("restore %zu archives of another process:", ar.size());
    for (auto& x : ar)
    {
        bool text = x.first[1] == '1';
        vector<EventTicker> v;
        if (x.first[0] == 'm')  load(x.second, text, v);
        else  { EventTicker t; load(x.second, text, t); v.push_back(t); }
        std::istringstream rk(x.first.substr(2));
        for (auto& t : v)
        {
            Stamp z = {grp, 0, w.events};
            rk >> z.rank;
            w.add(t, z);
            w.hist += fmt(" %ld", z.rank);
            ctx().count("stamps restored from another process");
        }
        w.hist += ",";
        if (g.chance(0.6))
        {
            int i = g.i(0, w.t.size() - 1);
            for (int k = g.i(1, 4); k > 0; --k)
            {
                w.t[i].click();
                w.s[i].group = 0;
                w.s[i].rank = ++w.events;
            }
            w.hist += fmt(" clicked %d,", i);
        }
    }
    // the stamps of the group were all restored by now
    w.hist += "; ";
    evaluated("stamps restored in another process");
}

static void tickers(Rng& g)
{
    World w;
    Stamp z = {0, 0, 0};
    for (int k = g.i(2, 5); k > 0; --k)  w.add(EventTicker(), z);
    int nst = ctx().thorough() ? 60 : 30;
    for (int k = 0; k < nst; ++k)
    {
        if (g.chance(0.04))  remote(g, w);
        else  oneOp(g, w);
        while (w.t.size() > 24)
        {
            int i = g.i(0, w.t.size() - 1);
            w.t.erase(w.t.begin() + i);
            w.s.erase(w.s.begin() + i);
        }
        if (!compareAll(g, w))  return;
    }
    ctx().sample(w.hist);
    ctx().distinct(hstr(w.hist));
}

// any clock state: archive of a clock close to its rollover, in a process of its own
static void extremes(Rng& g)
{
    int p[2];
    if (pipe(p))  return;
    pid_t pid = fork();
    if (pid == 0)
    {
        close(p[0]);
        string msg;
        EventTicker probe;
        string s = saveOne(probe, true);
        // replace the trailing four numbers
        size_t k = s.find_last_not_of(" \n\r");
        for (int c = 0; c < 4; ++c)  k = s.find_last_of(' ', k - (c ? 1 : 0));
        const long LM = std::numeric_limits<long>::max();
        long first = g.chance(0.5) ? 0 : g.i(1, 5);
        long second = g.chance(0.6) ? LM - g.i(0, 6) : long(g.next() >> 2);
        vector<EventTicker> v;
        vector<std::pair<long, long> > m;
        for (int c = g.i(2, 4); c > 0; --c)
        {
            std::pair<long, long> x(first, second - g.i(0, 20));
            if (x.second > second)  x.second = second;
            if (g.chance(0.2) && first)  x = std::make_pair(first - 1, LM - g.i(0, 10));
            if (g.chance(0.1))  x = std::make_pair(0, 0);
            m.push_back(x);
            string a = s.substr(0, k) + fmt(" %ld %ld %ld %ld\n", x.first, x.second, first, second);
            EventTicker t;
            load(a, true, t);
            v.push_back(t);
            if (g.chance(0.3))
            {
                EventTicker q;
                q.click();
                for (auto& y : v)  if (!(q > y))  msg = fmt("click in a process with clock (%ld,%ld) is not later than a restored stamp", first, second);
            }
        }
        for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m.size(); ++j)
            if ((m[i] < m[j]) != (v[i] < v[j]) || (m[i] == m[j]) != (v[i] == v[j]))
                msg = fmt("restored (%ld,%ld) and (%ld,%ld) at clock (%ld,%ld) have order of (%ld,%ld) and (%ld,%ld)", m[i].first, m[i].second,
                        m[j].first, m[j].second, first, second, v[i].value().first, v[i].value().second, v[j].value().first, v[j].value().second);
        EventTicker last;
        for (int c = 0; c < 15; ++c)
        {
            EventTicker q;
            q.click();
            if (c && !(q > last))  msg = fmt("click is not later than the previous one after restoring clock (%ld,%ld)", first, second);
            for (auto& y : v)  if (!(q > y))  msg = fmt("click is not later than stamps restored with clock (%ld,%ld)", first, second);
            last = q;
            v.push_back(q);
        }
        // the combined stamp is the later of both
        for (auto& x : v) for (auto& y : v)
        {
            EventTicker c = x;
            c.updateFrom(y);
            const EventTicker& late = (x < y) ? y : x;
            if (c.value() != late.value() || c < x || c < y || c > late)
                msg = fmt("combination of (%ld,%ld) and (%ld,%ld) is (%ld,%ld)", x.value().first, x.value().second,
                        y.value().first, y.value().second, c.value().first, c.value().second);
        }
        writeAll(p[1], msg);
        _exit(0);
    }
    close(p[1]);
    string msg = readAll(p[0]);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    checkTrue("C23:process with any clock state failed", st == 0, "");
    checkTrue("C23:any clock state", msg.empty(), msg);
    evaluated("clock close to rollover");
}

// stamps of real objects
struct Obj
{
    string name;
    std::function<const EventTicker&()> tick;
    std::function<void()> change;      // always a change
    std::function<void()> read;
};

static void objects(Rng& g)
{
    vector<Obj> objs;
    vector<PQPtr> calcs;
    auto different = [&g](double x)  { double y; do { y = g.u(0.1, 3); } while (y == x); return y; };
    auto addAttr = [&](const string& nm, boost::shared_ptr<diffpy::Attributes> a, std::function<const EventTicker&()> t)
    {
        Obj o;
        o.name = nm;
        o.tick = t;
        vector<string> ns;
        for (auto& x : a->namesOfWritableDoubleAttributes())  ns.push_back(x);
        o.change = [a, ns, &g, different]()
        {
            string n = g.pick(ns);
            double x = a->getDoubleAttr(n);
            double y = n == "peakprecision" ? (x > 0.01 ? 1e-4 : 0.02) * g.u(1, 2) : different(x);
            a->setDoubleAttr(n, y);
        };
        // writing the same value is no change, except for converted widths
        o.read = [a, ns]()
        {
            for (auto& n : ns)
            {
                double x = a->getDoubleAttr(n);
                if (n != "uisowidth" && n != "bisowidth")  a->setDoubleAttr(n, x);
            }
        };
        objs.push_back(o);
    };
    sr::PeakWidthModelPtr jw = sr::PeakWidthModel::createByType("jeong"), cw = sr::PeakWidthModel::createByType("constant");
    sr::PeakProfilePtr pp = sr::PeakProfile::createByType(g.chance(0.5) ? "gaussian" : "croppedgaussian");
    sr::ScatteringFactorTablePtr tb = sr::ScatteringFactorTable::createByType(g.chance(0.5) ? "neutron" : "xray");
    addAttr("jeong", jw, [jw]() -> const EventTicker& { return jw->ticker(); });
    addAttr("constant", cw, [cw]() -> const EventTicker& { return cw->ticker(); });
    addAttr("profile", pp, [pp]() -> const EventTicker& { return pp->ticker(); });
    {
        Obj o;
        o.name = "sftable";
        o.tick = [tb]() -> const EventTicker& { return tb->ticker(); };
        o.change = [tb, &g]()
        {
            switch (g.i(0, 3))
            {
                case 0:  if (!tb->getCustomSymbols().empty())  { tb->resetCustom(*tb->getCustomSymbols().begin()); break; }
                case 1:  if (!tb->getCustomSymbols().empty())  { tb->resetAll(); break; }
                case 2:
                    tb->setCustomAs("C", tb->getCustomSymbols().count("C") && tb->lookup("C") == tb->lookup("O") ? "Na" : "O");
                    break;
                default:  tb->setCustomAs("X", "Na", g.u(1, 5));
            }
        };
        o.read = [tb]()  { tb->lookup("C"); tb->resetCustom("Zz"); tb->getCustomSymbols(); };
        objs.push_back(o);
    }
    for (int kind = 0; kind < NCALC; ++kind)
    {
        PQPtr c = makeCalc(kind);
        calcs.push_back(c);
        Obj o;
        o.name = calcName(kind);
        o.tick = [c]() -> const EventTicker& { return c->ticker(); };
        o.change = [c, kind, &g, different, jw, cw, pp, tb]()
        {
            sr::PDFCalculator* pc = dynamic_cast<sr::PDFCalculator*>(c.get());
            sr::DebyePDFCalculator* dc = dynamic_cast<sr::DebyePDFCalculator*>(c.get());
            switch (g.i(0, 5))
            {
                case 0:  c->invertMask(); return;
                case 1:  c->setPairMask(0, 1, !c->getPairMask(0, 1)); return;
                case 2:
                    if (pc)  { pc->setRstep(different(pc->getRstep())); return; }
                    if (dc)  { dc->setDebyePrecision(different(dc->getDebyePrecision())); return; }
                    c->setRmax(different(c->getRmax()));
                    return;
                case 3:
                    if (pc)
                    {
                        if (pc->getPeakProfile() != pp)  pc->setPeakProfile(pp);
                        else  pc->setPeakProfileByType("gaussian");
                        return;
                    }
                    if (dc)  { dc->setPeakWidthModelByType("jeong"); return; }
                    c->setRmin(different(c->getRmin()));
                    return;
                case 4:
                    if (pc)  { pc->setPeakWidthModel(pc->getPeakWidthModel() == jw ? cw : jw); return; }
                    if (dc)  { dc->setPeakWidthModel(dc->getPeakWidthModel() == jw ? cw : jw); return; }
                    c->maskAllPairs(false);
                    c->maskAllPairs(true);
                    return;
                default:
                    if (pc)
                    {
                        if (pc->getScatteringFactorTable() != tb)  pc->setScatteringFactorTable(tb);
                        else  pc->setScatteringFactorTableByType("xray");
                        return;
                    }
                    if (dc)
                    {
                        if (dc->getScatteringFactorTable() != tb)  dc->setScatteringFactorTable(tb);
                        else  dc->setScatteringFactorTableByType("xray");
                        return;
                    }
                    c->setTypeMask("C", "O", !c->getTypeMask("C", "O"));
                    return;
            }
        };
        o.read = [c]()
        {
            for (auto& n : c->namesOfDoubleAttributes())  c->getDoubleAttr(n);
            c->getPairMask(0, 1);
            c->getEvaluatorType();
        };
        objs.push_back(o);
    }
    int n = objs.size();
    for (int k = 0; k < 12; ++k)
    {
        EventTicker top;
        vector<EventTicker> was;
        for (auto& o : objs)  { was.push_back(o.tick()); top.updateFrom(was.back()); }
        int i = g.i(0, n - 1);
        bool chg = g.chance(0.7);
        if (chg)
        {
            objs[i].change();
            EventTicker now = objs[i].tick();
            checkTrue("C23:change of object is not later", now > top, objs[i].name);
            ctx().count("changes of " + objs[i].name);
        }
        else
        {
            objs[i].read();
            checkTrue("C23:stamp moved without a change", objs[i].tick() == was[i], objs[i].name);
        }
        for (int j = 0; j < n; ++j)
            checkTrue("C23:stamp of object moved backwards", objs[j].tick() >= was[j], objs[j].name);
        // owners are never behind their components
        for (auto& c : calcs)
        {
            sr::PeakWidthModelOwner* o = dynamic_cast<sr::PeakWidthModelOwner*>(c.get());
            if (o)  checkTrue("C23:owner behind its peak width", c->ticker() >= o->getPeakWidthModel()->ticker(), objs[i].name);
            sr::ScatteringFactorTableOwner* s = dynamic_cast<sr::ScatteringFactorTableOwner*>(c.get());
            if (s)  checkTrue("C23:owner behind its scattering factors", c->ticker() >= s->getScatteringFactorTable()->ticker(), objs[i].name);
            sr::PDFCalculator* pc = dynamic_cast<sr::PDFCalculator*>(c.get());
            if (pc)  checkTrue("C23:owner behind its profile", c->ticker() >= pc->getPeakProfile()->ticker(), objs[i].name);
        }
        evaluated("stamps of objects");
    }
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, [](long, Rng& g)
    {
        int k = g.i(0, 9);
        if (k < 6)  tickers(g);
        else if (k < 7)  extremes(g);
        else  objects(g);
    });
}
