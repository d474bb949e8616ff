// C12: objects saved and restored at any point, in the same or another process, continue alike
#include "states.hpp"
#include "proc.hpp"
#include <diffpy/EventTicker.hpp>
#include <diffpy/serialization.ipp>
using namespace dpv;
typedef diffpy::eventticker::EventTicker Ticker;

// --- reports as strings ------------------------------------------------------------------
struct Report
{
    string what, config, error;
    bool hasres;
    Results res;
    Report() : hasres(false)  { }
};
static void putArr(string& s, const VD& v)
{
    string b(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(double));
    put(s, b);
}
static VD getArr(const string& s, size_t& pos)
{
    string b;
    if (!get(s, pos, b))  throw std::runtime_error("bad report");
    VD v(b.size() / sizeof(double));
    if (!v.empty())  memcpy(v.data(), b.data(), v.size() * sizeof(double));
    return v;
}
static string encode(const vector<Report>& rs)
{
    string s;
    for (auto& r : rs)
    {
        put(s, r.what); put(s, r.config); put(s, r.error); put(s, r.hasres ? "1" : "0");
        for (auto* m : {&r.res.global, &r.res.persite, &r.res.exact})
        {
            put(s, fmt("%zu", m->size()));
            for (auto& x : *m)  { put(s, x.first); putArr(s, x.second); }
        }
        put(s, fmt("%zu", r.res.lists.size()));
        for (auto& x : r.res.lists)
        {
            put(s, x.first);
            put(s, fmt("%zu", x.second.size()));
            for (auto& t : x.second)
            {
                VD v = t.v;
                v.push_back(t.i);
                v.push_back(t.j);
                putArr(s, v);
            }
        }
    }
    return s;
}
static vector<Report> decode(const string& s)
{
    vector<Report> rs;
    size_t pos = 0;
    string x;
    auto num = [&]()  { string c; if (!get(s, pos, c))  throw std::runtime_error("bad report"); return atoi(c.c_str()); };
    while (get(s, pos, x))
    {
        Report r;
        r.what = x;
        get(s, pos, r.config); get(s, pos, r.error); r.hasres = num();
        for (auto* m : {&r.res.global, &r.res.persite, &r.res.exact})
            for (int k = num(); k > 0; --k)  { get(s, pos, x); (*m)[x] = getArr(s, pos); }
        for (int k = num(); k > 0; --k)
        {
            string nm;
            get(s, pos, nm);
            vector<Tup>& l = r.res.lists[nm];
            for (int q = num(); q > 0; --q)
            {
                VD v = getArr(s, pos);
                Tup t;
                t.j = int(v.back()); v.pop_back();
                t.i = int(v.back()); v.pop_back();
                t.v = v;
                l.push_back(t);
            }
        }
        rs.push_back(r);
    }
    return rs;
}

// --- calculators ------------------------------------------------------------------------
struct World
{
    int kind;
    PQPtr pq;
    APtr live;                      // source of the structure
    SPtr st;
    int wrap;
    AnyCfg cfg;
    Model m;
    GenOpt o;
    double rhi;
    bool clean;
    sr::ScatteringFactorTablePtr sft;
    sr::PeakWidthModelPtr pwm;
    string log;
};

static void setComponents(World& w)
{
    if (auto c = boost::dynamic_pointer_cast<sr::PDFCalculator>(w.pq))  { w.sft = c->getScatteringFactorTable(); w.pwm = c->getPeakWidthModel(); }
    if (auto c = boost::dynamic_pointer_cast<sr::DebyePDFCalculator>(w.pq))  { w.sft = c->getScatteringFactorTable(); w.pwm = c->getPeakWidthModel(); }
}
static string sharing(const World& w)
{
    string r = fmt("structure %d ", w.pq->getStructure() == w.st);
    if (auto c = boost::dynamic_pointer_cast<sr::PDFCalculator>(w.pq))
        r += fmt("components %d %d ", w.sft == c->getScatteringFactorTable(), w.pwm == c->getPeakWidthModel());
    if (auto c = boost::dynamic_pointer_cast<sr::DebyePDFCalculator>(w.pq))
        r += fmt("components %d %d ", w.sft == c->getScatteringFactorTable(), w.pwm == c->getPeakWidthModel());
    return r;
}
static Report report(const World& w, const string& what)
{
    Report r;
    r.what = what;
    r.config = sharing(w) + configOf(*w.pq, w.pq->getStructure() == w.st);
    r.config += stateOf(*w.st);
    if (w.sft)  r.config += tableStr(w.sft);
    if (w.pwm)  r.config += w.pwm->type() + attrsOf(*w.pwm);
    if (w.clean)
    {
        try  { r.res = resultsOf(w.kind, *w.pq); r.hasres = true; }
        catch (std::exception& e)  { r.error = e.what(); }
    }
    return r;
}
static void trimCfg(World& w)
{
    PdfCfg& p = w.cfg.pdf;
    if (p.rmax > w.rhi)  p.rmax = w.rhi;
    p.rmin = std::min(p.rmin, p.rmax);
    p.maxext = std::min(p.maxext, 2.5);
    p.rstep = std::max(p.rstep, 0.03);
    if (w.kind == DEBYE)  p.qmax = std::min(std::max(p.qmax, 3.0), 10.0);
}

// one step of use, driven by g only
static Report step(World& w, Rng& g)
{
    string d;
    int nops = g.i(1, 2);
    bool eval = g.chance(0.7);
    for (int q = 0; q < nops; ++q)
    {
        int what = g.i(0, 17);
        if (what < 4)
        {
            d += "new{" + mutateModel(g, w.m, w.o, g.chance(0.2)) + "} ";
            w.live = toAdapter(w.m);
            if (g.chance(0.1))  w.wrap = g.i(0, 4);
            w.st = wrapIn(w.live, w.wrap);
        }
        else if (what < 9)
        {
            Model was = w.m;
            d += "inplace{" + mutateModel(g, w.m, w.o, false) + "} ";
            editInPlace(g, *w.live, was, w.m);
            w.clean = false;
        }
        else if (what < 12)
        {
            mutateCfg(g, w.cfg, 2, w.rhi);
            trimCfg(w);
            d += "cfg ";
            w.cfg.apply(*w.pq);
        }
        else if (what == 12)  d += randomMaskOp(g, *w.pq, w.m, g.chance(0.5));
        else if (what == 13)
        {
            w.pq->setStructure(w.st);
            w.clean = false;
            d += "setStructure ";
        }
        else if (what == 14)
        {
            sr::PQEvaluatorType t = canOptimize(w.kind) ? g.chance(0.4) ? sr::OPTIMIZED : g.chance(0.5) ? sr::BASIC : sr::CHECK : sr::BASIC;
            w.pq->setEvaluatorType(t);
            d += fmt("evaluator %d ", int(t));
        }
        else if (what == 15 && w.sft)
        {
            d += "sft ";
            if (g.chance(0.7))  w.sft->setCustomAs(g.chance(0.5) ? "O" : "Na", "C", g.u(2, 9), g.u(0.2, 2));
            else if (g.chance(0.5))  w.sft->resetCustom("O");
            else  w.sft->resetAll();
        }
        else if (what == 16 && w.pwm)
        {
            d += "pwm ";
            auto ns = w.pwm->namesOfWritableDoubleAttributes();
            double v = g.u(0.01, 0.2);
            if (!ns.empty())
            {
                vector<string> n(ns.begin(), ns.end());
                string x = g.pick(n);
                w.pwm->setDoubleAttr(x, v);
            }
        }
        else if (what == 17 && w.kind == PDF)
        {
            d += "components ";
            sr::PDFCalculator& c = dynamic_cast<sr::PDFCalculator&>(*w.pq);
            if (g.chance(0.5))  c.setPeakWidthModel(w.pwm);
            else  c.setScatteringFactorTable(w.sft);
        }
    }
    if (eval)
    {
        try
        {
            if (w.pq->getStructure() == w.st && g.chance(0.3))  w.pq->eval();
            else  w.pq->eval(w.st);
            w.clean = true;
            d += "eval ";
        }
        catch (std::exception& e)  { d += string("eval failed ") + e.what(); w.clean = false; }
    }
    return report(w, d);
}

static string save(const World& w, bool byvalue)
{
    std::ostringstream os(std::ios::binary);
    diffpy::serialization::oarchive oa(os);
    const PQPtr pq = w.pq;
    const SPtr st = w.st;
    const sr::ScatteringFactorTablePtr sft = w.sft;
    const sr::PeakWidthModelPtr pwm = w.pwm;
    const sr::PairQuantity& p = *pq;
    if (w.kind == PAIRCOUNT)  oa << p;
    else if (!byvalue)  oa << pq;
    else switch (w.kind)
    {
        case BONDS:  oa << dynamic_cast<const sr::BondCalculator&>(p); break;
        case BVS:  oa << dynamic_cast<const sr::BVSCalculator&>(p); break;
        case OVERLAP:  oa << dynamic_cast<const sr::OverlapCalculator&>(p); break;
        case PDF:  oa << dynamic_cast<const sr::PDFCalculator&>(p); break;
        default:  oa << dynamic_cast<const sr::DebyePDFCalculator&>(p);
    }
    oa << st << sft << pwm;
    return os.str();
}
static World restore(const World& meta, const string& data, bool byvalue)
{
    World w = meta;
    std::istringstream is(data, std::ios::binary);
    diffpy::serialization::iarchive ia(is);
    w.pq.reset();
    w.st.reset();
    w.live.reset();
    w.sft.reset();
    w.pwm.reset();
    if (byvalue || w.kind == PAIRCOUNT)  w.pq = makeCalc(w.kind);
    sr::PairQuantity* p = w.pq.get();
    if (w.kind == PAIRCOUNT)  ia >> *p;
    else if (!byvalue)  ia >> w.pq;
    else switch (w.kind)
    {
        case BONDS:  ia >> dynamic_cast<sr::BondCalculator&>(*p); break;
        case BVS:  ia >> dynamic_cast<sr::BVSCalculator&>(*p); break;
        case OVERLAP:  ia >> dynamic_cast<sr::OverlapCalculator&>(*p); break;
        case PDF:  ia >> dynamic_cast<sr::PDFCalculator&>(*p); break;
        default:  ia >> dynamic_cast<sr::DebyePDFCalculator&>(*p);
    }
    ia >> w.st >> w.sft >> w.pwm;
    w.live = sourceOf(w.st);
    return w;
}

static bool compareReports(const string& key, const vector<Report>& got, const vector<Report>& want, double rtol, const string& where)
{
    if (!checkTrue(key + " length", got.size() == want.size(), where))  return false;
    for (size_t k = 0; k < want.size(); ++k)
    {
        const Report &a = got[k], &b = want[k];
        string at = fmt("at report %zu {", k) + b.what + "} of " + where;
        string d = diffStr(a.what, b.what);
        if (!checkTrue(key + " outcome", d.empty(), d + at))  return false;
        d = diffNum(a.config, b.config, 1e-12);
        if (!checkTrue(key + " configuration", d.empty(), d + at))  return false;
        d = diffStr(a.error, b.error);
        if (!checkTrue(key + " error", d.empty() && a.hasres == b.hasres, d + at))  return false;
        if (a.hasres && !compareResults(key, a.res, b.res, rtol, 1e-10, at))  return false;
        if (a.hasres && b.res.magnitude() > 0)  ctx().count("nonzero results compared");
        ctx().distinct(hcomb(b.res.hash(), hstr(b.config)));
    }
    return true;
}

static World makeWorld(Rng& g)
{
    World w;
    static const int kinds[] = {PDF, PDF, PDF, DEBYE, DEBYE, BONDS, BONDS, PAIRCOUNT, BVS, OVERLAP, OVERLAP};
    w.kind = kinds[g.i(0, 10)];
    w.o.types = typesFor(w.kind);
    w.o.nmin = g.chance(0.7) ? 3 : 0;
    w.o.nmax = 8;
    w.o.maximages = w.kind == DEBYE ? 14 : 24;
    w.o.latlo = 3.5;
    w.o.minsep = w.kind == OVERLAP ? 0.3 : 0.8;
    w.rhi = w.kind == DEBYE ? 4 : 4.8;
    w.wrap = g.chance(0.75) ? 0 : g.i(1, 4);
    w.clean = true;
    w.m = genModel(g, genKind(g), w.o);
    if (w.m.kind == CRYSTAL && g.chance(0.5))  w.m.symeps = g.pick({1e-6, 1e-4, 1e-3, 0.3});
    w.cfg = genAnyCfg(g, w.kind, 2, w.rhi);
    trimCfg(w);
    w.pq = makeCalc(w.kind);
    if (g.chance(0.3))  w.pq->setEvaluatorType(sr::BASIC);
    w.cfg.apply(*w.pq);
    w.live = toAdapter(w.m);
    w.st = wrapIn(w.live, w.wrap);
    setComponents(w);
    w.log = fmt("wrap%d ", w.wrap) + w.cfg.str() + " | " + w.m.str() + " : ";
    return w;
}

// history until the save
static void history(World& w, uint64_t seed, int nsteps)
{
    Rng g(seed);
    for (int k = 0; k < nsteps; ++k)  w.log += step(w, g).what + "; ";
}
static vector<Report> proceed(World& w, uint64_t seed, int nsteps)
{
    Rng g(seed);
    vector<Report> r;
    r.push_back(report(w, "restored"));
    for (int k = 0; k < nsteps; ++k)
    {
        r.push_back(step(w, g));
        // chained saving
        if (g.chance(0.1))
        {
            bool bv = g.chance(0.5);
            w = restore(w, save(w, bv), bv);
            r.push_back(report(w, "restored again"));
        }
    }
    return r;
}
static void advanceClock(int n)
{
    Ticker t;
    for (int k = 0; k < n; ++k)  t.click();
}

static void calculators(Rng& g)
{
    uint64_t wseed = g.next(), hseed = g.next(), cseed = g.next();
    int nh = g.i(0, 6), nc = g.i(1, ctx().thorough() ? 8 : 5);
    int mode = g.i(0, 3);
    bool byvalue = g.chance(0.5);
    bool look = g.chance(0.5);
    int clicks = g.pick({0, 1, 50, 3000});
    static const char* names[] = {"same process", "same process", "restored in another process", "saved in another process"};
    Rng wg(wseed);
    string childout;
    int status = 0;
    if (mode == 3)
    {
        // the clock of the saving process is ahead of the clock of this one
        childout = forked([&]() -> string {
            World w = makeWorld(wg);
            advanceClock(clicks);
            history(w, hseed, nh);
            string out;
            put(out, save(w, byvalue));
            put(out, encode(proceed(w, cseed, nc)));
            return out;
        }, &status);
        wg = Rng(wseed);
    }
    World w = makeWorld(wg);
    history(w, hseed, nh);
    string where = fmt("[%s%s, %d clicks] ", names[mode], byvalue ? ", by value" : "", clicks) + w.log;
    double rtol = 1e-9;
    if (w.kind == PDF)  rtol += 20 * std::max(w.cfg.pdf.prec, 1e-3);
    vector<Report> before;
    if (look)  before.push_back(report(w, "saved"));
    string data = save(w, byvalue);
    if (look)
    {
        vector<Report> after(1, report(w, "saved"));
        compareReports("C12:saving changes the original", after, before, 0, where);
        evaluated("original after saving");
    }
    ctx().count(string("saved ") + calcName(w.kind));
    ctx().count(fmt("wrapped structures %d", w.wrap > 0));
    string key = string("C12:") + calcName(w.kind) + " " + (mode < 2 ? "same process" : "other process");
    if (mode < 2)
    {
        World b = restore(w, data, byvalue);
        checkTrue(key + " separate objects", b.pq != w.pq && b.st != w.st && (!w.live || (b.live && b.live != w.live)), where);
        // interleaved or one after another
        vector<Report> want, got;
        if (mode == 0)  { want = proceed(w, cseed, nc); got = proceed(b, cseed, nc); }
        else  { got = proceed(b, cseed, nc); want = proceed(w, cseed, nc); }
        compareReports(key, got, want, rtol, where);
        evaluated("restored in the same process");
    }
    else if (mode == 2)
    {
        childout = forked([&]() -> string {
            advanceClock(clicks);
            World b = restore(w, data, byvalue);
            return encode(proceed(b, cseed, nc));
        }, &status);
        if (!checkTrue(key + " child failed", status == 0 && (childout.empty() || childout[0] != '!'), fmt("status %d ", status) + childout.substr(0, 200) + where))  return;
        compareReports(key, decode(childout), proceed(w, cseed, nc), rtol, where);
        evaluated("restored in another process");
    }
    else
    {
        if (!checkTrue(key + " child failed", status == 0 && (childout.empty() || childout[0] != '!'), fmt("status %d ", status) + childout.substr(0, 200) + where))  return;
        size_t pos = 0;
        string cdata, creps;
        get(childout, pos, cdata);
        get(childout, pos, creps);
        World b = restore(w, cdata, byvalue);
        vector<Report> got = proceed(b, cseed, nc);
        compareReports(key, got, decode(creps), rtol, where);
        compareReports(key + " twin", got, proceed(w, cseed, nc), rtol, where);
        evaluated("saved in another process");
    }
    ctx().sample(where);
}

// --- merging interrupted by a save ----------------------------------------------------------
static void merging(Rng& g)
{
    World w = makeWorld(g);
    int ncpu = g.i(2, 5), upto = g.i(0, ncpu - 1);
    w.pq->setEvaluatorType(sr::BASIC);
    vector<string> parts;
    for (int k = 0; k < ncpu; ++k)
    {
        PQPtr p = makeCalc(w.kind);
        p->setEvaluatorType(sr::BASIC);
        w.cfg.apply(*p);
        p->setupParallelRun(k, ncpu);
        p->eval(w.st);
        parts.push_back(p->getParallelData());
    }
    w.pq->setStructure(w.st);
    for (int k = 0; k < upto; ++k)  w.pq->mergeParallelData(parts[k], ncpu);
    bool bv = g.chance(0.5);
    string data = save(w, bv);
    World b = restore(w, data, bv);
    string where = fmt("%d of %d merged ", upto, ncpu) + w.log;
    for (int k = upto; k < ncpu; ++k)
    {
        w.pq->mergeParallelData(parts[k], ncpu);
        b.pq->mergeParallelData(parts[k], ncpu);
    }
    string key = string("C12:merging ") + calcName(w.kind);
    vector<Report> r0(1, report(w, "merged")), r1(1, report(b, "merged"));
    compareReports(key, r1, r0, 1e-12, where);
    checkTrue(key + " count of merges", raises([&]{ w.pq->mergeParallelData(parts[0], ncpu); }) && raises([&]{ b.pq->mergeParallelData(parts[0], ncpu); }), where);
    // a worker restored before its evaluation
    int k = g.i(0, ncpu - 1);
    World v = w;
    v.pq = makeCalc(w.kind);
    v.pq->setEvaluatorType(sr::BASIC);
    v.cfg.apply(*v.pq);
    v.pq->setupParallelRun(k, ncpu);
    if (g.chance(0.3))  v.pq->eval(v.st);
    World u = restore(v, save(v, bv), bv);
    v.pq->eval(v.st);
    u.pq->eval(u.st);
    vector<Report> s0(1, report(v, "worker")), s1(1, report(u, "worker"));
    compareReports(key + " worker", s1, s0, 1e-12, where);
    // a worker with a history of evaluations
    v.pq = makeCalc(w.kind);
    bool fast = canOptimize(w.kind) && g.chance(0.7);
    v.pq->setEvaluatorType(fast ? sr::OPTIMIZED : sr::BASIC);
    v.cfg.apply(*v.pq);
    v.pq->setupParallelRun(k, ncpu);
    int nev = g.i(1, 3);
    for (int q = 0; q < nev; ++q)
    {
        if (q)  { mutateModel(g, v.m, v.o, false); v.live = toAdapter(v.m); v.st = v.live; }
        v.pq->eval(v.st);
    }
    string pd = v.pq->getParallelData();
    u = restore(v, save(v, bv), bv);
    checkTrue(key + " saving changes worker", v.pq->getParallelData() == pd, where);
    checkTrue(key + " worker contribution", u.pq->getParallelData() == pd, fmt("after %d evaluations ", nev) + where);
    for (int q = 0; q < 2; ++q)
    {
        if (g.chance(0.7))  mutateModel(g, v.m, v.o, false);
        v.st = u.st = toAdapter(v.m);
        v.pq->eval(v.st);
        u.pq->eval(u.st);
        if (!checkTrue(key + " worker continued", u.pq->getParallelData() == v.pq->getParallelData(), fmt("after %d evaluations ", nev) + where))  break;
    }
    ctx().count(fast ? "optimized workers restored" : "basic workers restored");
    evaluated("merging continued after restoring");
}

static void editAttrs(diffpy::Attributes& a, Rng& g)
{
    auto ns = a.namesOfWritableDoubleAttributes();
    if (ns.empty())  return;
    vector<string> n(ns.begin(), ns.end());
    string x = g.pick(n);
    double v = g.chance(0.1) ? 0 : g.u(0.001, 0.5);
    raises([&]{ a.setDoubleAttr(x, v); });
}

// --- Debye sum of unit scatterers ------------------------------------------------------------
typedef boost::shared_ptr<sr::BaseDebyeSum> SumPtr;
static string sumState(const sr::BaseDebyeSum& s)
{
    string r = fmt("rmin %.17g rmax %.17g qmin %.17g qmax %.17g qstep %.17g prec %.17g evaluator %d ", s.getRmin(), s.getRmax(),
            s.getQmin(), s.getQmax(), s.getQstep(), s.getDebyePrecision(), int(s.getEvaluatorType()));
    r += s.getPeakWidthModel()->type() + attrsOf(*s.getPeakWidthModel()) + attrsOf(s);
    for (double x : s.value())  r += fmt(" %.17g", x);
    for (double x : s.getF())  r += fmt(" %.17g", x);
    for (double x : s.getQgrid())  r += fmt(" %.17g", x);
    return r;
}
static void editSum(sr::BaseDebyeSum& s, Rng& g, Model& m, const GenOpt& o)
{
    double x = g.u();
    switch (g.i(0, 8))
    {
        case 0:  s.setQmin(2 * x); break;
        case 1:  s.setQmax(3 + 5 * x); break;
        case 2:  s.setQstep(0.05 + 0.1 * x); break;
        case 3:  s.setDebyePrecision(1e-6 * (0.5 + x)); break;
        case 4:  s.setRmin(x); break;
        case 5:  s.setRmax(3 + x); break;
        case 6:  editAttrs(*s.getPeakWidthModel(), g); break;
        case 7:  s.setEvaluatorType(x < 0.5 ? sr::BASIC : sr::OPTIMIZED); break;
        default:  s.setPeakWidthModelByType(g.pick(vector<string>{"jeong", "constant", "debye-waller"}));
    }
    if (!g.chance(0.6))  return;
    mutateModel(g, m, o, g.chance(0.2));
    s.eval(SPtr(toAdapter(m)));
}
static void plainSums(Rng& g)
{
    GenOpt o;
    o.types = {"C", "O", "Na"};
    o.nmin = 1;
    o.nmax = 5;
    o.maximages = 14;
    o.minsep = 0.8;
    Model m = genModel(g, genKind(g), o);
    SumPtr s = boost::make_shared<sr::BaseDebyeSum>();
    s->setRmax(3.5);
    s->setQmax(6);
    s->setQstep(0.1);
    int n = g.i(0, 5);
    for (int k = 0; k < n; ++k)  editSum(*s, g, m, o);
    string s0 = sumState(*s);
    bool byvalue = g.chance(0.5);
    auto copyOf = [&](const SumPtr x) {
        std::ostringstream os(std::ios::binary);
        diffpy::serialization::oarchive oa(os);
        const PQPtr px = x;
        if (byvalue)  oa << *boost::dynamic_pointer_cast<const sr::BaseDebyeSum>(x);
        else  oa << px;
        std::istringstream is(os.str(), std::ios::binary);
        diffpy::serialization::iarchive ia(is);
        SumPtr y = boost::make_shared<sr::BaseDebyeSum>();
        PQPtr py;
        if (byvalue)  ia >> *y;
        else  { ia >> py; y = boost::dynamic_pointer_cast<sr::BaseDebyeSum>(py); }
        return y;
    };
    SumPtr t = copyOf(s);
    string d = diffStr(sumState(*s), s0);
    checkTrue("C12:saving changes BaseDebyeSum", d.empty(), d);
    if (!checkTrue("C12:restored BaseDebyeSum kind", bool(t), m.str()))  return;
    d = diffStr(sumState(*t), s0);
    checkTrue("C12:restored BaseDebyeSum", d.empty(), d);
    n = g.i(1, 4);
    for (int k = 0; k < n; ++k)
    {
        Rng g0(g.next()), g1 = g0;
        Model m0 = m, m1 = m;
        editSum(*s, g0, m0, o);
        editSum(*t, g1, m1, o);
        m = m0;
        d = diffNum(sumState(*t), sumState(*s), 1e-11);
        if (!checkTrue("C12:continued BaseDebyeSum", d.empty(), d))  break;
        if (g.chance(0.2))  t = copyOf(t);
    }
    ctx().count("plain Debye sums");
    ctx().distinct(hstr(s0));
    evaluated("restored Debye sums");
}

// --- components and structures ----------------------------------------------------------------
template <class T> T again(const T& x)
{
    T y;
    diffpy::serialization_fromstring(y, diffpy::serialization_tostring(x));
    return y;
}
template <class P> void component(Rng& g, const string& name, P x, std::function<void(P, Rng&)> edit, std::function<string(P)> state)
{
    string hist = name + " ";
    int n = g.i(0, 5);
    for (int k = 0; k < n; ++k)  edit(x, g);
    bool look = g.chance(0.5);
    string s0;
    if (look)  s0 = state(x);
    P y = again(x);
    if (!look)  s0 = state(x);
    string d = diffStr(state(x), s0);
    checkTrue("C12:saving changes " + name, d.empty(), d);
    d = diffStr(state(y), s0);
    checkTrue("C12:restored " + name, d.empty(), d);
    n = g.i(1, 5);
    for (int k = 0; k < n; ++k)
    {
        uint64_t es = g.next();
        // edits of one do not affect the other
        string was = state(y);
        Rng g0(es), g1(es);
        edit(x, g0);
        d = diffStr(state(y), was);
        checkTrue("C12:restored object shares data " + name, d.empty(), d);
        edit(y, g1);
        d = diffStr(state(y), state(x));
        if (!checkTrue("C12:continued " + name, d.empty(), d))  break;
        if (g.chance(0.3))  y = again(y);
    }
    ctx().count("components " + name);
    ctx().distinct(hstr(s0));
    evaluated("restored components");
}
static void components(Rng& g)
{
    typedef sr::ScatteringFactorTablePtr T;
    typedef sr::AtomRadiiTablePtr R;
    typedef sr::BVParametersTablePtr B;
    switch (g.i(0, 7))
    {
        case 0:
        {
            string tp = g.pick(vector<string>{"xray", "neutron", "electron", "electronnumber"});
            component<T>(g, tp + " table", sr::ScatteringFactorTable::createByType(tp), [](T t, Rng& h) {
                string a = h.pick(vector<string>{"C", "O", "Na1+", "Xx", "D"}), b = h.pick(vector<string>{"C", "O", "Fe", "Pb2+"});
                double v = h.u(0.5, 9), q = h.u(0.3, 3);
                switch (h.i(0, 4))
                {
                    case 0:  t->setCustomAs(a, b); break;
                    case 1: case 2:  t->setCustomAs(a, b, v, q); break;
                    case 3:  t->resetCustom(a); break;
                    default:  if (h.chance(0.3))  t->resetAll();
                }
            }, [](T t) { return tableStr(t); });
            break;
        }
        case 1:
            component<R>(g, "radii table", sr::AtomRadiiTable::createByType("constant"), [](R t, Rng& h) {
                string a = h.pick(vector<string>{"C", "O", "Na1+", "Xx"});
                double v = h.u(0, 2);
                switch (h.i(0, 4))
                {
                    case 0: case 1:  t->setCustom(a, v); break;
                    case 2:  boost::dynamic_pointer_cast<sr::ConstantRadiiTable>(t)->setDefault(v); break;
                    case 3:  raises([&]{ t->resetCustom(a); }); break;
                    default:  raises([&]{ t->fromString("Na:1.25,O:0.5"); });
                }
            }, [](R t) { return tableStr(t); });
            break;
        case 2:
            component<B>(g, "bond valence table", boost::make_shared<sr::BVParametersTable>(), [](B t, Rng& h) {
                string a = h.pick(vector<string>{"Na", "Fe", "Si", "Cl"}), b = h.pick(vector<string>{"O", "Cl", "Na"});
                int va = h.i(-1, 4), vb = h.i(-2, 1);
                double r = h.u(1, 3), bb = h.u(0.3, 0.5);
                switch (h.i(0, 5))
                {
                    case 0: case 1:  t->setCustom(a, va, b, vb, r, bb, h.chance(0.5) ? "ref" : ""); break;
                    case 2:  t->resetCustom(a, va, b, vb); break;
                    case 3:  t->setAtomValence(a, va); break;
                    case 4:  if (h.chance(0.3))  t->resetAtomValences(); break;
                    default:  if (h.chance(0.3))  t->resetAll();
                }
            }, [](B t) { return tableStr(t); });
            break;
        case 3:
        {
            typedef sr::PeakWidthModelPtr P;
            string tp = g.pick(vector<string>{"jeong", "constant", "debye-waller"});
            component<P>(g, tp + " width", sr::PeakWidthModel::createByType(tp), [](P p, Rng& h) { editAttrs(*p, h); },
                    [](P p) { return p->type() + attrsOf(*p); });
            break;
        }
        case 4:
        {
            typedef sr::PeakProfilePtr P;
            string tp = g.pick(vector<string>{"gaussian", "croppedgaussian"});
            component<P>(g, tp + " profile", sr::PeakProfile::createByType(tp), [](P p, Rng& h) { editAttrs(*p, h); },
                    [](P p) { return p->type() + attrsOf(*p) + fmt("%.17g %.17g %.17g %.17g", (*p)(0.05, 0.1), (*p)(0.14, 0.2), p->xboundlo(0.1), p->xboundhi(0.3)); });
            break;
        }
        case 5:
        {
            typedef sr::PDFEnvelopePtr P;
            string tp = g.pick(vector<string>{"scale", "qresolution", "sphericalshape", "stepcut"});
            component<P>(g, tp + " envelope", sr::PDFEnvelope::createByType(tp), [](P p, Rng& h) { editAttrs(*p, h); },
                    [](P p) { return p->type() + attrsOf(*p) + fmt("%.17g %.17g %.17g", (*p)(0.05), (*p)(0.4), (*p)(7)); });
            break;
        }
        case 6:
        {
            typedef sr::PDFBaselinePtr P;
            string tp = g.pick(vector<string>{"linear", "zero"});
            component<P>(g, tp + " baseline", sr::PDFBaseline::createByType(tp), [](P p, Rng& h) { editAttrs(*p, h); },
                    [](P p) { return p->type() + attrsOf(*p) + fmt("%.17g %.17g", (*p)(0.05), (*p)(7)); });
            break;
        }
        default:
        {
            typedef boost::shared_ptr<sr::Lattice> P;
            component<P>(g, "lattice", boost::make_shared<sr::Lattice>(), [](P p, Rng& h) {
                Lat l = genLat(h, 2, 9);
                if (h.chance(0.5))  p->setLatPar(l.a, l.b, l.c, l.al, l.be, l.ga);
                else
                {
                    sr::Lattice L(l.a, l.b, l.c, l.al, l.be, l.ga);
                    sr::R3::Matrix b = sr::R3::prod(L.base(), toR3(randomRotation(h)));
                    p->setLatBase(sr::R3::Vector(b(0, 0), b(0, 1), b(0, 2)), sr::R3::Vector(b(1, 0), b(1, 1), b(1, 2)), sr::R3::Vector(b(2, 0), b(2, 1), b(2, 2)));
                }
            }, [](P p) {
                string r;
                for (double x : {p->a(), p->b(), p->c(), p->alpha(), p->beta(), p->gamma(), p->cosalpha(), p->cosbeta(), p->cosgamma(),
                        p->sinalpha(), p->sinbeta(), p->singamma(), p->volumeNormal(), p->volume(), p->ar(), p->br(), p->cr(), p->alphar(),
                        p->betar(), p->gammar(), p->cosalphar(), p->cosbetar(), p->cosgammar(), p->sinalphar(), p->sinbetar(), p->singammar(),
                        p->ucMaxDiagonalLength()})  r += fmt("%.17g ", x);
                for (auto* u : {&p->va(), &p->vb(), &p->vc(), &p->var(), &p->vbr(), &p->vcr()})  r += fmt("%.17g %.17g %.17g ", (*u)[0], (*u)[1], (*u)[2]);
                for (auto* u : {&p->base(), &p->recbase(), &p->metrics(), &p->stdbase(), &p->baserot()})
                    for (int i = 0; i < 3; ++i)  for (int j = 0; j < 3; ++j)  r += fmt("%.17g ", (*u)(i, j));
                sr::R3::Vector v(0.3, -1.4, 2.7);
                for (int i = 0; i < 3; ++i)  r += fmt("%.17g %.17g %.17g ", p->cartesian(v)[i], p->fractional(v)[i], p->ucvCartesian(v)[i]);
                return r + fmt("%.17g %.17g", p->norm(v), p->distance(v, v));
            });
        }
    }
}

static void structures(Rng& g)
{
    GenOpt o;
    o.types = {"C", "O", "Na"};
    o.nmin = 0;
    o.nmax = 5;
    o.maximages = 24;
    Model m = genModel(g, genKind(g), o);
    if (m.kind == CRYSTAL && g.chance(0.5))  m.symeps = g.pick({1e-6, 1e-4, 1e-3, 0.3});
    APtr src = toAdapter(m);
    int wrap = g.i(0, 4);
    SPtr s = wrapIn(src, wrap);
    string w = fmt("wrap%d ", wrap) + m.str() + " ";
    int n = g.i(0, 3);
    for (int k = 0; k < n; ++k)
    {
        Model was = m;
        w += mutateModel(g, m, o) + "; ";
        editInPlace(g, *src, was, m);
        if (g.chance(0.4))  stateOf(*s);
    }
    // an archive with several references to the same source
    std::ostringstream os(std::ios::binary);
    {
        diffpy::serialization::oarchive oa(os);
        const SPtr cs = s, csrc = src, other = sr::nosymmetry(SPtr(src)), none = sr::emptyStructureAdapter();
        oa << cs << csrc << other << none;
    }
    SPtr s1, src1, other1, none1;
    {
        std::istringstream is(os.str(), std::ios::binary);
        diffpy::serialization::iarchive ia(is);
        ia >> s1 >> src1 >> other1 >> none1;
    }
    auto text = [](SPtr x)  { return wrappersOf(x) + stateOf(*x) + bondsOf(x, 3.5); };
    string d = diffStr(text(s1), text(s));
    checkTrue("C12:restored structure", d.empty(), d + w);
    checkTrue("C12:kind of restored structure", typeid(*s1) == typeid(*s) && typeid(*src1) == typeid(*src), w);
    checkTrue("C12:references to the same structure", sourceOf(s1) == src1 && sourceOf(other1) == src1 && none1->countSites() == 0, w);
    sr::StructureDifference sd = s->diff(s1);
    checkTrue("C12:restored structure differs", sd.pop0.empty() && sd.add1.empty(), w);
    APtr live1 = sourceOf(s1);
    if (!live1)  return;
    n = g.i(1, 4);
    for (int k = 0; k < n; ++k)
    {
        Model was = m;
        w += mutateModel(g, m, o) + "; ";
        uint64_t es = g.next();
        string before = text(s1);
        Rng g0(es), g1(es);
        editInPlace(g0, *src, was, m);
        d = diffStr(text(s1), before);
        checkTrue("C12:restored structure shares data", d.empty(), d + w);
        editInPlace(g1, *live1, was, m);
        d = diffStr(text(s1), text(s));
        if (!checkTrue("C12:continued structure", d.empty(), d + w))  break;
        d = diffStr(text(other1), text(sr::nosymmetry(SPtr(src))));
        if (!checkTrue("C12:continued structure", d.empty(), d + w))  break;
    }
    ctx().count("structures restored");
    ctx().distinct(hstr(w));
    evaluated("restored structures");
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, [](long, Rng& g)
    {
        double x = g.u();
        if (x < 0.55)  calculators(g);
        else if (x < 0.67)  merging(g);
        else if (x < 0.70)  plainSums(g);
        else if (x < 0.86)  components(g);
        else  structures(g);
    });
}
