// C14: scattering, radii and bond valence tables against their data files, formulas and shadow maps
#include "anycalc.hpp"
#include "bvtable.hpp"
#include "proc.hpp"
#include <diffpy/serialization.hpp>
#include <diffpy/srreal/scatteringfactordata.hpp>
#include <diffpy/srreal/AtomUtils.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <sys/stat.h>
using namespace dpv;
typedef sr::ScatteringFactorTable SFT;
typedef sr::ScatteringFactorTablePtr SFTPtr;

// --- reference tables ----------------------------------------------------------------
static string pristine(const string& f)
{
    const char* d = getenv("DPV_PRISTINE");
    return d ? string(d) + "/" + f : runtimeFile(f);
}
static vector<string> linesOf(const string& f)
{
    vector<string> r;
    std::ifstream fp(f.c_str());
    for (string l; std::getline(fp, l);)
    {
        if (!l.empty() && l[l.size() - 1] == '\r')  l.erase(l.size() - 1);
        r.push_back(l);
    }
    if (r.empty())  throw std::runtime_error("cannot read " + f);
    return r;
}
static vector<string> splitOn(const string& l, char sep)
{
    vector<string> r(1);
    for (char c : l)
    {
        if (c == sep)  r.push_back("");
        else  r.back() += c;
    }
    return r;
}

struct WK { double a[5], b[5], c; };
typedef std::map<string, WK> WKMap;
static const WKMap& refWK()
{
    static WKMap t;
    if (!t.empty())  return t;
    vector<string> ls = linesOf(pristine("f0_WaasKirf.dat"));
    string smbl;
    for (size_t i = 0; i < ls.size(); ++i)
    {
        if (ls[i].compare(0, 3, "#S ") == 0)
        {
            std::istringstream is(ls[i].substr(3));
            int z;
            is >> z >> smbl;
        }
        if (ls[i].empty() || ls[i][0] == '#')  continue;
        std::istringstream is(ls[i]);
        WK w;
        for (int k = 0; k < 5; ++k)  is >> w.a[k];
        is >> w.c;
        for (int k = 0; k < 5; ++k)  is >> w.b[k];
        if (is && !t.count(smbl))  t[smbl] = w;
    }
    if (t.size() < 200)  throw std::runtime_error("bad reference table of x-ray factors");
    return t;
}

typedef std::map<string, double> DMap;
// element and ion symbols like Na1+
static const DMap& refElectrons()
{
    static DMap t;
    if (!t.empty())  return t;
    for (auto& l : linesOf(pristine("ionlist.dat")))
    {
        if (l.empty() || l[0] == '#')  continue;
        std::istringstream is(l);
        string el, z, v;
        if (!(is >> el >> z))  continue;
        t[el] = atoi(z.c_str());
        while (is >> v)  t[el + v.substr(1) + v[0]] = atoi(z.c_str()) - atoi(v.c_str());
    }
    if (t.size() < 400)  throw std::runtime_error("bad reference table of electron numbers");
    return t;
}

static const DMap& refNeutron()
{
    static DMap t;
    if (!t.empty())  return t;
    DMap single, unstable;
    std::map<string, int> has;
    for (auto& l : linesOf(pristine("nsftable.dat")))
    {
        if (l.empty() || l[0] == '#')  continue;
        vector<string> w = splitOn(l, ',');
        if (w.size() < 4 || w[3].empty())  continue;
        vector<string> id = splitOn(w[0], '-');     // Z-Symbol-A
        double bc = strtod(w[3].c_str(), 0);
        if (id.size() == 2)  t[id[1]] = bc;
        else
        {
            t[id[2] + "-" + id[1]] = bc;
            if (w[1] == "100")  single[id[1]] = bc;
            else if (!w[1].empty() && w[1][w[1].size() - 1] == 'Y' && !unstable.count(id[1]))  unstable[id[1]] = bc;
        }
    }
    for (auto& x : unstable)  if (!t.count(x.first) && !single.count(x.first))  t[x.first] = x.second;
    for (auto& x : single)  t[x.first] = x.second;
    t["n"] = t.at("1-n");
    t["D"] = t.at("2-H");
    t["T"] = t.at("3-H");
    if (t.size() < 300)  throw std::runtime_error("bad reference table of neutron scattering lengths");
    return t;
}

// parsed symbol [A-]El[n][+-]
struct Sym
{
    string iso, el;
    int v;
    bool plainsign;     // charge written without a number
    Sym() : v(0), plainsign(false) { }
    string str() const
    {
        string s = iso.empty() ? el : iso + "-" + el;
        if (v)  s += (plainsign ? string() : fmt("%d", abs(v))) + (v > 0 ? "+" : "-");
        return s;
    }
    string ion() const  { return v ? el + fmt("%d", abs(v)) + (v > 0 ? "+" : "-") : el; }
};

enum Kind { XR, EL, EN, NE, NKIND };
static const char* kindName[] = {"xray", "electron", "electronnumber", "neutron"};
static const char* kindAlias[] = {"X", "E", "EN", "N"};

static bool reference(int k, const Sym& s, double q, double* rv)
{
    double x = q / (4 * M_PI);
    switch (k)
    {
        case XR: case EL:
        {
            auto i = refWK().find(s.ion());
            if (i == refWK().end())  return false;
            ld f = i->second.c, z = i->second.c;
            for (int n = 0; n < 5; ++n)
            {
                z += i->second.a[n];
                f += i->second.a[n] * expl(-ld(i->second.b[n]) * x * x);
            }
            if (k == XR)  *rv = f;
            else if (x == 0)  *rv = std::numeric_limits<double>::max();
            else  *rv = 0.023934L * (roundl(z) - f) / (ld(x) * x);
            return true;
        }
        case EN:
        {
            auto i = refElectrons().find(s.ion());
            if (i == refElectrons().end())  return false;
            *rv = i->second;
            return true;
        }
        default:
        {
            auto i = refNeutron().find(s.iso.empty() ? s.el : s.iso + "-" + s.el);
            if (i == refNeutron().end())  return false;
            *rv = i->second;
            return true;
        }
    }
}
static double direct(int k, const string& s, double q)
{
    switch (k)
    {
        case XR:  return sr::fxrayatq(s, q);
        case EL:  return sr::felectronatq(s, q);
        case EN:  return sr::electronnumber(s);
        default:  return sr::bcneutron(s);
    }
}
// error of Z - f(stol) is amplified at low Q
static double reltol(int k, double q, double v)
{
    if (k != EL || q == 0)  return 1e-12;
    double x = q / (4 * M_PI);
    return 1e-12 + 1e-13 * 0.023934 * 100 / (x * x) / std::max(fabs(v), 1e-300);
}

static const vector<string>& elements()
{
    static vector<string> r;
    if (r.empty())
    {
        std::set<string> s;
        for (auto& x : refWK())
        {
            string e;
            for (char c : x.first)  { if (!isalpha(c)) break; e += c; }
            if (e != "Siva" && e != "Cval")  s.insert(e);
        }
        for (auto& x : refElectrons())  if (x.first.find_first_of("+-") == string::npos)  s.insert(x.first);
        for (auto& x : refNeutron())  if (x.first.find('-') == string::npos)  s.insert(x.first);
        r.assign(s.begin(), s.end());
    }
    return r;
}
static const vector<Sym>& isotopes()
{
    static vector<Sym> r;
    if (r.empty())  for (auto& x : refNeutron())
    {
        size_t p = x.first.find('-');
        if (p == string::npos)  continue;
        Sym s;
        s.iso = x.first.substr(0, p);
        s.el = x.first.substr(p + 1);
        r.push_back(s);
    }
    return r;
}
static const vector<Sym>& ions()
{
    static vector<Sym> r;
    if (r.empty())
    {
        std::set<string> all;
        for (auto& x : refElectrons())  all.insert(x.first);
        for (auto& x : refWK())  all.insert(x.first);
        for (auto& x : all)
        {
            size_t p = x.find_first_of("0123456789");
            if (p == string::npos)  continue;
            Sym s;
            s.el = x.substr(0, p);
            s.v = atoi(x.c_str() + p) * (x[x.size() - 1] == '+' ? 1 : -1);
            r.push_back(s);
        }
    }
    return r;
}
static Sym genSym1(Rng& g)
{
    Sym s;
    double x = g.u();
    if (x < 0.35)  s.el = g.pick(elements());
    else if (x < 0.6)  s = g.pick(ions());
    else if (x < 0.8)  s = g.pick(isotopes());
    else if (x < 0.9)
    {
        // isotopic ions
        s = g.pick(isotopes());
        s.v = g.i(1, 4) * (g.chance(0.5) ? 1 : -1);
    }
    else
    {
        s.el = g.pick(elements());
        s.v = g.i(1, 8) * (g.chance(0.5) ? 1 : -1);
    }
    if (abs(s.v) == 1)  s.plainsign = g.chance(0.5);
    return s;
}
// symbols that are either known or rejected
static Sym genSym(Rng& g)
{
    Sym s;
    do  { s = genSym1(g); } while (!s.iso.empty() && abs(s.v) > 1);
    return s;
}
static double genQ(Rng& g)
{
    double x = g.u();
    if (x < 0.15)  return 0;
    if (x < 0.25)  return std::pow(10, g.u(-5, 0));
    if (x < 0.35)  return g.u(20, 75);
    return g.u(0, 25);
}

// --- standard data ------------------------------------------------------------------------
static void standard(Rng& g)
{
    SFTPtr t[NKIND];
    for (int k = 0; k < NKIND; ++k)
    {
        t[k] = SFT::createByType(g.chance(0.5) ? kindName[k] : kindAlias[k]);
        checkTrue("C14:radiation type", t[k]->radiationType() == kindAlias[k], kindName[k]);
    }
    for (int n = 0; n < 12; ++n)
    {
        Sym s = genSym1(g);
        string w = s.str();
        double q = genQ(g);
        for (int k = 0; k < NKIND; ++k)
        {
            string where = fmt("%s of '%s' at Q=%.9g", kindName[k], w.c_str(), q);
            double want;
            if ((k == XR || k == EL) && !s.iso.empty() && abs(s.v) > 1)
            {
                // ions of isotopes may be rejected
                double v = 0;
                if (raises([&]{ v = t[k]->lookup(w, q); }))  continue;
                checkTrue("C14:unknown symbol accepted", reference(k, s, q, &want), where);
                checkNear("C14:value of table", v, want, reltol(k, q, want), 0, where);
                continue;
            }
            if (!reference(k, s, q, &want))
            {
                try  { double v = t[k]->lookup(w, q); checkTrue("C14:unknown symbol accepted", false, where + fmt(" = %g", v)); }
                catch (std::invalid_argument&)  { }
                checkTrue("C14:unknown symbol accepted", raises([&]{ direct(k, w, q); }) && raises([&]{ t[k]->standardLookup(w, q); }), where);
                evaluated("unknown symbol rejected");
                continue;
            }
            double rt = reltol(k, q, want);
            checkNear("C14:value of table", t[k]->lookup(w, q), want, rt, 0, where);
            checkNear("C14:value of standard lookup", t[k]->standardLookup(w, q), want, rt, 0, where);
            checkNear("C14:value of function", direct(k, w, q), want, rt, 0, where);
            if (k == XR)
            {
                checkNear("C14:x-ray factor at stol", sr::fxrayatstol(w, q / (4 * M_PI)), want, 1e-12, 0, where);
                double e;
                reference(EL, s, q, &e);
            }
            if (q == 0)  checkNear("C14:default Q", t[k]->lookup(w), want, rt, 0, where);
            evaluated("value against data file");
            ctx().count(string("values of ") + kindName[k]);
            if (s.v)  ctx().count("ions");
            if (!s.iso.empty())  ctx().count("isotopes");
            ctx().distinct(hcomb(hstr(w), hcomb(k, hdbl(q))));
        }
        // parts of the symbol
        checkTrue("C14:bare symbol", sr::atomBareSymbol(w) == s.el, w);
        checkTrue("C14:valence of symbol", sr::atomValence(w) == s.v, w);
        string pad = " " + w + " ";
        checkTrue("C14:bare symbol", sr::atomBareSymbol(pad) == s.el, pad);
    }
    // special symbols
    for (const char* sp : {"Siva", "Cval"})
    {
        double q = genQ(g), want;
        Sym s;
        s.el = sp;
        reference(XR, s, q, &want);
        checkNear("C14:value of table", t[XR]->lookup(sp, q), want, 1e-12, 0, sp);
    }
    static const vector<string> bad = {"", " ", "Xx", "na", "NA", "cL", "H9", "9", "12-", "-", "+", "2+", "Naa", "N a", "Q", "Nax2+", "unknown", "-9+", "Cl--x", "?"};
    for (int n = 0; n < 4; ++n)
    {
        string w = g.pick(bad);
        for (int k = 0; k < NKIND; ++k)
        {
            checkTrue("C14:unknown symbol accepted", raises([&]{ t[k]->lookup(w, 1.0); }) && raises([&]{ direct(k, w, 1.0); }), string(kindName[k]) + " of '" + w + "'");
            evaluated("unknown symbol rejected");
        }
    }
}

// --- overrides ----------------------------------------------------------------------------
struct TabShadow
{
    SFTPtr t;
    int k;
    std::map<string, std::pair<Sym, double> > custom;
};

static void checkTab(Rng& g, TabShadow& x, const vector<string>& names, const std::map<string, Sym>& real, const string& hist)
{
    auto cs = x.t->getCustomSymbols();
    std::set<string> got(cs.begin(), cs.end()), want;
    for (auto& c : x.custom)  want.insert(c.first);
    checkTrue("C14:listed custom symbols", got == want, hist);
    for (auto& n : names)
    {
        double q = genQ(g);
        if (x.k == EL && q == 0)  q = 1;
        double w = 0;
        bool known;
        auto c = x.custom.find(n);
        auto r = real.find(n);
        if (c != x.custom.end())
        {
            known = reference(x.k, c->second.first, q, &w);
            w *= c->second.second;
        }
        else  known = r != real.end() && reference(x.k, r->second, q, &w);
        string where = fmt("%s of '%s' at %g after ", kindName[x.k], n.c_str(), q) + hist;
        if (!known)
        {
            checkTrue("C14:unknown symbol accepted", raises([&]{ x.t->lookup(n, q); }), where);
            continue;
        }
        checkNear("C14:value with overrides", x.t->lookup(n, q), w, 10 * reltol(x.k, q, w), 0, where);
        double s;
        if (r != real.end() && reference(x.k, r->second, q, &s))
            checkNear("C14:standard value with overrides", x.t->standardLookup(n, q), s, reltol(x.k, q, s), 0, where);
    }
    evaluated("overrides against shadow map");
}

static void overrides(Rng& g)
{
    std::map<string, Sym> real;
    vector<string> names = {"Qx", "X1+", "mytype", "C9"};
    for (int i = 0; i < 5; ++i)
    {
        Sym s = genSym(g);
        real[s.str()] = s;
        names.push_back(s.str());
    }
    vector<TabShadow> tabs;
    int k0 = g.i(0, NKIND - 1);
    for (int i = 0; i < 2; ++i)
    {
        TabShadow x;
        x.k = i ? g.i(0, NKIND - 1) : k0;
        x.t = SFT::createByType(kindName[x.k]);
        tabs.push_back(x);
    }
    string hist;
    int n = g.i(2, 12);
    for (int st = 0; st < n; ++st)
    {
        int i = g.i(0, tabs.size() - 1);
        TabShadow& x = tabs[i];
        string nm = g.pick(names);
        hist += fmt("%d:", i);
        int op = g.i(0, 9);
        if (op < 3)
        {
            // scaled to a given value
            string src = g.pick(names);
            double q = genQ(g), v = g.chance(0.1) ? 0 : g.u(-20, 90), s = 0;
            if (x.k == EL && q < 0.3)  q = 0.5;
            bool known = real.count(src) && reference(x.k, real[src], q, &s);
            if (known && s == 0)
            {
                // no scale makes other values of zero
                checkTrue("C14:scaling of zero factor", raises([&]{ x.t->setCustomAs(nm, src, 3.0, q); }), src + " " + hist);
                known = false;
            }
            bool r = raises([&]{ if (q == 0 && g.chance(0.5)) x.t->setCustomAs(nm, src, v); else x.t->setCustomAs(nm, src, v, q); });
            hist += fmt("setCustomAs(%s,%s,%g,%g)%s; ", nm.c_str(), src.c_str(), v, q, r ? " rejected" : "");
            checkTrue("C14:override by unknown symbol", r == !known, hist);
            if (known)
            {
                x.custom[nm] = std::make_pair(real[src], v / s);
                checkNear("C14:value of override", x.t->lookup(nm, q), v, 1e-13, 0, hist);
            }
            else  ctx().count("rejected overrides");
        }
        else if (op < 5)
        {
            string src;
            do  { src = g.pick(names); } while (!real.count(src));
            x.t->setCustomAs(nm, src);
            hist += fmt("setCustomAs(%s,%s); ", nm.c_str(), src.c_str());
            x.custom[nm] = std::make_pair(real[src], 1.0);
        }
        else if (op < 7)
        {
            if (!x.custom.empty() && g.chance(0.7))
            {
                auto c = x.custom.begin();
                std::advance(c, g.i(0, x.custom.size() - 1));
                nm = c->first;
            }
            x.t->resetCustom(nm);
            hist += "reset " + nm + "; ";
            if (x.custom.erase(nm))  ctx().count("overrides removed");
        }
        else if (op < 8)
        {
            if (g.chance(0.4))
            {
                x.t->resetAll();
                x.custom.clear();
                hist += "resetAll; ";
            }
        }
        else if (op < 9 && tabs.size() < 5)
        {
            TabShadow y = x;
            double c = g.u();
            if (c < 0.4)  { y.t = x.t->clone(); hist += fmt("clone %zu; ", tabs.size()); }
            else if (c < 0.7)
            {
                y.t.reset();
                diffpy::serialization_fromstring(y.t, diffpy::serialization_tostring(x.t));
                hist += fmt("restore %zu; ", tabs.size());
            }
            else
            {
                y.t = x.t->create();
                y.custom.clear();
                hist += fmt("create %zu; ", tabs.size());
            }
            tabs.push_back(y);
            ctx().count("copied tables");
        }
        for (auto& y : tabs)  checkTab(g, y, names, real, hist);
    }
    ctx().sample(hist);
    ctx().distinct(hstr(hist));
}

// --- radii --------------------------------------------------------------------------------
struct RadShadow
{
    boost::shared_ptr<sr::ConstantRadiiTable> t;
    std::map<string, double> custom;
    double def;
};
static void checkRad(const RadShadow& x, const vector<string>& names, const string& hist)
{
    for (auto& n : names)
    {
        auto c = x.custom.find(n);
        checkTrue("C14:radius", x.t->lookup(n) == (c != x.custom.end() ? c->second : x.def), n + " after " + hist);
        checkTrue("C14:standard radius", x.t->standardLookup(n) == x.def, n + " after " + hist);
    }
    checkTrue("C14:default radius", x.t->getDefault() == x.def, hist);
    auto& all = x.t->getAllCustom();
    checkTrue("C14:custom radii", std::map<string, double>(all.begin(), all.end()) == x.custom, hist);
    string s;
    for (auto& c : x.custom)
    {
        std::ostringstream os;
        os << c.second;
        s += (s.empty() ? "" : ";;") + c.first + ":" + os.str();
    }
    checkTrue("C14:radii as string", x.t->toString(";;") == s, x.t->toString(";;") + " expected " + s + " after " + hist);
    evaluated("radii against shadow map");
}
static void radii(Rng& g)
{
    vector<string> names = {"C", "Na", "Na1+", "12-C", "Qx", "O2-"};
    vector<RadShadow> tabs(1);
    tabs[0].t = boost::dynamic_pointer_cast<sr::ConstantRadiiTable>(sr::AtomRadiiTable::createByType("constant"));
    tabs[0].def = 0;
    string hist;
    int n = g.i(2, 14);
    for (int st = 0; st < n; ++st)
    {
        int i = g.i(0, tabs.size() - 1);
        RadShadow& x = tabs[i];
        string nm = g.pick(names);
        double v = g.chance(0.2) ? g.i(0, 3) : g.i(1, 4000) / 1000.0;
        hist += fmt("%d:", i);
        switch (g.i(0, 9))
        {
            case 0: case 1:
                x.t->setCustom(nm, v);
                x.custom[nm] = v;
                hist += fmt("set %s %g; ", nm.c_str(), v);
                break;
            case 2: case 3:
            {
                string s;
                std::map<string, double> add;
                int m = g.i(0, 4);
                auto sp = [&]() -> string { static const vector<string> w = {"", "", "", " ", "\t", "\n", "  "}; return g.pick(w); };
                for (int k = 0; k < m; ++k)
                {
                    string a = g.pick(names);
                    double r = g.i(1, 4000) / 1000.0;
                    if (k)  s += ",";
                    s += sp() + a + sp() + ":" + sp() + fmt(g.chance(0.3) ? "%.6e" : "%g", r) + sp();
                    add[a] = r;
                }
                if (g.chance(0.2))  s += ",";
                x.t->fromString(s);
                for (auto& a : add)  x.custom[a.first] = a.second;
                hist += "fromString '" + s + "'; ";
                break;
            }
            case 4:
            {
                static const vector<string> bad = {"C:1.5,Na", "C:1.5,Na:x", "C", "C:", "C:1,:", "Na:1.2,O2-:2,C:abc", "Na:2.5,,Qx", "C=1.5", ",C"};
                string s = g.pick(bad);
                checkTrue("C14:invalid radii accepted", raises([&]{ x.t->fromString(s); }), s + " " + hist);
                hist += "rejected '" + s + "'; ";
                ctx().count("rejected radii");
                break;
            }
            case 5: case 6:
                if (!x.custom.empty() && g.chance(0.7))  nm = x.custom.begin()->first;
                x.t->resetCustom(nm);
                x.custom.erase(nm);
                hist += "reset " + nm + "; ";
                break;
            case 7:
                if (g.chance(0.5))  { x.t->resetAll(); x.custom.clear(); hist += "resetAll; "; }
                else
                {
                    // string representation sets the same radii
                    string s = x.t->toString();
                    RadShadow y;
                    y.t = boost::dynamic_pointer_cast<sr::ConstantRadiiTable>(x.t->create());
                    y.t->fromString(s);
                    y.custom = x.custom;
                    y.def = 0;
                    checkRad(y, names, "fromString " + s);
                }
                break;
            case 8:
                x.t->setDefault(v);
                x.def = v;
                hist += fmt("default %g; ", v);
                break;
            default:
                if (tabs.size() < 5)
                {
                    RadShadow y = x;
                    double c = g.u();
                    sr::AtomRadiiTablePtr p;
                    if (c < 0.4)  { p = x.t->clone(); hist += "clone; "; }
                    else if (c < 0.7)
                    {
                        sr::AtomRadiiTablePtr o = x.t;
                        diffpy::serialization_fromstring(p, diffpy::serialization_tostring(o));
                        hist += "restore; ";
                    }
                    else  { p = x.t->create(); y.custom.clear(); y.def = 0; hist += "create; "; }
                    y.t = boost::dynamic_pointer_cast<sr::ConstantRadiiTable>(p);
                    tabs.push_back(y);
                }
        }
        for (auto& y : tabs)  checkRad(y, names, hist);
    }
    ctx().distinct(hstr(hist));
}

// --- bond valence parameters ----------------------------------------------------------------
static void checkParam(const string& key, const sr::BVParam& p, const BVVal* w, const string& where)
{
    if (!w)
    {
        checkTrue(key, p == sr::BVParametersTable::none() && p.mB == 0 && p.mRo == 0 && p.bondvalence(2) == 0, "expected none " + where);
        return;
    }
    checkTrue(key, p.mRo == w->Ro && p.mB == w->B && p.mref_id == w->ref, fmt("got %g %g %s expected %g %g %s ", p.mRo, p.mB, p.mref_id.c_str(), w->Ro, w->B, w->ref.c_str()) + where);
}
static const vector<BVKey>& bvKeys()
{
    static vector<BVKey> r;
    if (r.empty())  for (auto& x : standardBV())  r.push_back(x.first);
    return r;
}
static string ionName(const string& a, int v)  { return v ? a + fmt("%d", abs(v)) + (v > 0 ? "+" : "-") : a; }

static void valences(Rng& g)
{
    struct Sh { sr::BVParametersTablePtr t; RefBV r; };
    vector<Sh> tabs(1);
    tabs[0].t.reset(new sr::BVParametersTable);
    string hist;
    vector<BVKey> keys;
    for (int i = 0; i < 5; ++i)
    {
        BVKey k = g.pick(bvKeys());
        if (g.chance(0.3))  k = BVKey(k.a0, g.i(1, 6), k.a1, k.v1);
        if (g.chance(0.15))  k = BVKey(k.a0, 9, k.a1, k.v1);
        if (g.chance(0.2))  k = BVKey("Qx", g.i(-3, 3), k.a1, k.v1);
        keys.push_back(k);
    }
    int n = g.i(1, 10);
    for (int st = 0; st < n; ++st)
    {
        int i = g.i(0, tabs.size() - 1);
        Sh& x = tabs[i];
        BVKey k = g.pick(keys);
        bool sw = g.chance(0.5);
        hist += fmt("%d:", i);
        switch (g.i(0, 7))
        {
            case 0: case 1:
            {
                BVVal v(g.u(1, 3), g.chance(0.2) ? g.u(0.03, 0.2) : g.u(0.2, 0.5), g.chance(0.5) ? "" : "ref");
                if (g.chance(0.5))
                {
                    if (sw)  x.t->setCustom(k.a1, k.v1, k.a0, k.v0, v.Ro, v.B, v.ref);
                    else  x.t->setCustom(k.a0, k.v0, k.a1, k.v1, v.Ro, v.B, v.ref);
                }
                else
                {
                    sr::BVParam p(sw ? k.a1 : k.a0, sw ? k.v1 : k.v0, sw ? k.a0 : k.a1, sw ? k.v0 : k.v1, v.Ro, v.B, v.ref);
                    x.t->setCustom(p);
                }
                x.r.custom[k] = v;
                hist += "set " + k.str() + "; ";
                break;
            }
            case 2:
            {
                // parameters that were looked up
                const BVVal* w = x.r.lookup(k.a0, k.v0, k.a1, k.v1);
                if (!w)  break;
                const sr::BVParam& p = x.t->lookup(k.a0, k.v0, k.a1, k.v1);
                BVKey pk(p.matom0, p.mvalence0, p.matom1, p.mvalence1);
                BVVal v = *w;
                x.t->setCustom(p);
                x.r.custom[pk] = v;
                hist += "set found " + k.str() + "; ";
                break;
            }
            case 3: case 4:
                if (!x.r.custom.empty() && g.chance(0.7))  k = x.r.custom.begin()->first;
                if (g.chance(0.5))
                {
                    if (sw)  x.t->resetCustom(k.a1, k.v1, k.a0, k.v0);
                    else  x.t->resetCustom(k.a0, k.v0, k.a1, k.v1);
                }
                else  x.t->resetCustom(sr::BVParam(sw ? k.a1 : k.a0, sw ? k.v1 : k.v0, sw ? k.a0 : k.a1, sw ? k.v0 : k.v1));
                x.r.custom.erase(k);
                hist += "reset " + k.str() + "; ";
                break;
            case 5:
                if (g.chance(0.3))  { x.t->resetAll(); x.r.custom.clear(); hist += "resetAll; "; }
                else if (g.chance(0.3))  { x.t->resetAtomValences(); x.r.valence.clear(); hist += "resetAtomValences; "; }
                break;
            case 6:
            {
                string s = g.chance(0.5) ? k.a0 : ionName(k.a0, k.v0);
                int v = g.i(-3, 4);
                x.t->setAtomValence(s, v);
                x.r.valence[s] = v;
                hist += fmt("valence %s %d; ", s.c_str(), v);
                break;
            }
            default:
                if (tabs.size() < 4)
                {
                    Sh y = x;
                    if (g.chance(0.5))  y.t.reset(new sr::BVParametersTable(*x.t));
                    else
                    {
                        y.t.reset();
                        diffpy::serialization_fromstring(y.t, diffpy::serialization_tostring(x.t));
                    }
                    tabs.push_back(y);
                    hist += "copy; ";
                    ctx().count("copied tables");
                }
        }
        for (auto& y : tabs)
        {
            for (auto& c : keys)
            {
                string where = c.str() + " after " + hist;
                const BVVal* w = y.r.lookup(c.a0, c.v0, c.a1, c.v1);
                checkParam("C14:bond valence parameters", y.t->lookup(c.a0, c.v0, c.a1, c.v1), w, where);
                checkParam("C14:bond valence parameters", y.t->lookup(c.a1, c.v1, c.a0, c.v0), w, where);
                checkParam("C14:bond valence parameters", y.t->lookup(sr::BVParam(c.a0, c.v0, c.a1, c.v1)), w, where);
                if (w)
                {
                    double d = g.u(1, 4);
                    const sr::BVParam& p = y.t->lookup(c.a0, c.v0, c.a1, c.v1);
                    double s = std::exp((w->Ro - d) / w->B);
                    checkNear("C14:bond valence", p.bondvalence(d), s, 1e-12, 0, where);
                    checkNear("C14:distance of bond valence", p.bondvalenceToDistance(s), d, 1e-12, 1e-12, where);
                    ctx().count("parameters found");
                }
                // by symbols of ions
                if (c.v0 == 9)  continue;
                string s0 = ionName(c.a0, c.v0), s1 = ionName(c.a1, c.v1);
                if (g.chance(0.3))  s0 = c.a0;
                if (c.v1 == -1 && g.chance(0.5))  s1 = c.a1 + "-";
                auto val = [&](const string& s, int v) { auto i = y.r.valence.find(s); return i != y.r.valence.end() ? i->second : v; };
                int v0 = val(s0, s0 == c.a0 ? 0 : c.v0), v1 = val(s1, c.v1);
                checkTrue("C14:valence of ion", y.t->getAtomValence(s0) == v0 && y.t->getAtomValence(s1) == v1, s0 + " " + s1 + " " + where);
                checkParam("C14:parameters of ions", y.t->lookup(s0, s1), y.r.lookup(c.a0, v0, c.a1, v1), s0 + " " + s1 + " " + where);
                checkParam("C14:parameters of ions", y.t->lookup(s1, s0), y.r.lookup(c.a0, v0, c.a1, v1), s0 + " " + s1 + " " + where);
            }
            // whole tables
            bool ok = y.t->getAllCustom().size() == y.r.custom.size();
            for (auto& p : y.t->getAllCustom())
            {
                auto i = y.r.custom.find(BVKey(p.matom0, p.mvalence0, p.matom1, p.mvalence1));
                ok = ok && i != y.r.custom.end() && i->second.Ro == p.mRo && i->second.B == p.mB && i->second.ref == p.mref_id;
            }
            checkTrue("C14:custom bond valence parameters", ok, hist);
            if (g.chance(0.02))
            {
                BVMap all = y.r.custom;
                for (auto& e : standardBV())  all.insert(e);
                auto got = y.t->getAll();
                bool same = got.size() == all.size();
                for (auto& p : got)
                {
                    auto i = all.find(BVKey(p.matom0, p.mvalence0, p.matom1, p.mvalence1));
                    same = same && i != all.end() && i->second.Ro == p.mRo && i->second.B == p.mB && i->second.ref == p.mref_id;
                }
                checkTrue("C14:all bond valence parameters", same, fmt("%zu of %zu ", got.size(), all.size()) + hist);
                ctx().count("whole tables compared");
            }
            evaluated("bond valence parameters against shadow map");
        }
    }
    ctx().distinct(hstr(hist));
    // every line of the file
    static sr::BVParametersTable std0;
    for (int i = 0; i < 20; ++i)
    {
        const BVKey& k = g.pick(bvKeys());
        const BVVal& w = standardBV().at(k);
        checkParam("C14:standard bond valence parameters", std0.lookup(k.a1, k.v1, k.a0, k.v0), &w, k.str());
        sr::BVParam p;
        p.setFromCifLine(fmt("%s %d %s %d %.17g %.17g %s", k.a1.c_str(), k.v1, k.a0.c_str(), k.v0, w.Ro, w.B, w.ref.empty() ? "x" : w.ref.c_str()));
        checkTrue("C14:parsed parameters", p.matom0 == k.a0 && p.mvalence0 == k.v0 && p.matom1 == k.a1 && p.mvalence1 == k.v1 && p.mRo == w.Ro && p.mB == w.B, k.str());
        sr::BVParam q = p;
        static const vector<string> badl = {"", "Na 1 Cl", "Na x Cl -1 1 1 a", "Na 1 Cl -1 1.5 .37"};
        string bl = g.pick(badl);
        checkTrue("C14:invalid parameters accepted", raises([&]{ p.setFromCifLine(bl); }) && p == q, bl);
    }
}

// --- data files that cannot be read -----------------------------------------------------------
static const char* fileOf[] = {"f0_WaasKirf.dat", "f0_WaasKirf.dat", "ionlist.dat", "nsftable.dat", "bvparm2011sel.cif"};

static void spoil(Rng& g, const string& dir, const string& f, int how)
{
    string p = dir + "/" + f, bak = dir + ".orig/" + f;
    rmdir(p.c_str());
    unlink(p.c_str());
    if (how == 1)  mkdir(p.c_str(), 0755);          // opens but cannot be read
    if (how >= 2)
    {
        vector<string> ls = linesOf(pristine(f));
        vector<size_t> data;
        for (size_t i = ls.size() * 2 / 3; i < ls.size(); ++i)  if (!ls[i].empty() && ls[i][0] != '#')  data.push_back(i);
        string& l = ls[g.pick(data)];
        l = how == 2 ? "garbage" : l.substr(0, l.find_first_of(" ,", 1));
        std::ofstream o(p.c_str());
        for (auto& x : ls)  o << x << "\n";
    }
}
static void repair(const string& dir, const string& f)
{
    string p = dir + "/" + f;
    rmdir(p.c_str());
    unlink(p.c_str());
    std::ifstream i(pristine(f).c_str(), std::ios::binary);
    std::ofstream o(p.c_str(), std::ios::binary);
    o << i.rdbuf();
}

// runs in a fresh process, reports failed expectations on standard output
static int child(long seed, const string& dir)
{
    Rng g(seed);
    string fails;
    int nrep = 0, nok = 0;
    static const vector<string> fs = {"f0_WaasKirf.dat", "ionlist.dat", "nsftable.dat", "bvparm2011sel.cif"};
    string hist;
    std::map<string, int> state;        // 0 good, 1.. broken; -1 for files already loaded
    bool nodir = g.chance(0.15);
    for (auto& f : fs)
    {
        if (g.chance(0.75))
        {
            int how = g.i(0, 3);
            spoil(g, dir, f, how);
            state[f] = how + 1;
            hist += f + fmt(" broken %d; ", how);
        }
        else  { repair(dir, f); state[f] = 0; }
    }
    string moved = dir + ".moved";
    if (nodir)  { rename(dir.c_str(), moved.c_str()); hist += "no directory; "; }
    sr::BVParametersTable bt;
    sr::PDFCalculator pc;
    sr::DebyePDFCalculator dc;
    SFTPtr tabs[NKIND];
    for (int k = 0; k < NKIND; ++k)  tabs[k] = SFT::createByType(kindName[k]);
    int nst = g.i(3, 10);
    for (int st = 0; st <= nst; ++st)
    {
        if (st == nst)
        {
            if (nodir)  { rename(moved.c_str(), dir.c_str()); nodir = false; }
            for (auto& f : fs)  if (state[f] > 0)  { repair(dir, f); state[f] = 0; }
            hist += "all repaired; ";
        }
        else if (st && g.chance(0.3))
        {
            if (nodir)  { rename(moved.c_str(), dir.c_str()); nodir = false; hist += "directory back; "; }
            string f = g.pick(fs);
            if (state[f] > 0)  { repair(dir, f); state[f] = 0; hist += f + " repaired; "; }
        }
        for (int t = 0; t < (st == nst ? 12 : 3); ++t)
        {
            int k = st == nst ? t % 6 : g.i(0, 5);
            string f = k < 5 ? fileOf[k] : fileOf[0];
            int stt = state[f];
            bool bad = stt >= 0 && (nodir || stt > 0);
            Sym s;
            double q = genQ(g), want = 0, got = 0;
            do  { s = genSym(g); } while (k < NKIND && !reference(k, s, q, &want));
            hist += (k < NKIND ? kindName[k] : k == 4 ? "bvparam" : "eval") + string(" ");
            string err, type;
            try
            {
                if (k < NKIND)
                {
                    string w = s.str();
                    got = g.chance(0.5) ? direct(k, w, q) : tabs[k]->lookup(w, q);
                    if (!bad && !close(got, want, reltol(k, q, want), 0))
                        fails += fmt("value %.17g of %s expected %.17g after ", got, w.c_str(), want) + hist + "\n";
                }
                else if (k == 4)
                {
                    const BVKey& b = g.pick(bvKeys());
                    const BVVal& w = standardBV().at(b);
                    const sr::BVParam& p = bt.lookup(b.a0, b.v0, b.a1, b.v1);
                    if (!bad && !(p.mRo == w.Ro && p.mB == w.B))  fails += "parameters of " + b.str() + " after " + hist + "\n";
                }
                else
                {
                    // calculator that needs the x-ray factors
                    sr::AtomicStructureAdapterPtr a(new sr::AtomicStructureAdapter);
                    sr::Atom x;
                    x.atomtype = "Na1+";
                    a->append(x);
                    x.atomtype = "Cl";
                    x.xyz_cartn = sr::R3::Vector(0, 0, 2.5);
                    a->append(x);
                    for (int i = 0; i < 3; ++i)  for (int j = 0; j < 2; ++j)  (*a)[j].uij_cartn(i, i) = 0.004;
                    pc.eval(a);
                    dc.eval(a);
                    sr::PDFCalculator p2;
                    sr::DebyePDFCalculator d2;
                    p2.eval(a);
                    d2.eval(a);
                    if (!bad && (pc.getPDF() != p2.getPDF() || dc.getPDF() != d2.getPDF() || pc.getRDF() != p2.getRDF()))
                        fails += "calculated PDF after " + hist + "\n";
                }
                type = "";
            }
            catch (std::logic_error& e)  { type = "logic"; err = e.what(); }
            catch (std::runtime_error& e)  { type = "runtime"; err = e.what(); }
            catch (std::exception& e)  { type = "other"; err = e.what(); }
            if (bad)
            {
                ++nrep;
                bool unread = nodir || stt == 1 || stt == 2;
                if (type.empty() || (unread && type != "runtime"))
                    fails += fmt("failure of %s was not reported (%s %s) after ", f.c_str(), type.c_str(), err.c_str()) + hist + "\n";
                if (type.empty() && !nodir)  state[f] = -1;
                hist += "failed; ";
            }
            else
            {
                ++nok;
                if (!type.empty())  fails += "unexpected " + err + " after " + hist + "\n";
                state[f] = -1;
                hist += "ok; ";
            }
        }
    }
    printf("%d %d %s\n%s", nrep, nok, hist.c_str(), fails.c_str());
    return 0;
}

static void datafiles(Rng& g)
{
    string dir = ctx().scratch + fmt("/rt%d", int(getpid()));
    mkdir(dir.c_str(), 0755);
    long seed = g.next() >> 3;
    const char* rt = getenv("DIFFPYRUNTIME");
    std::map<string, string> env;
    env["DIFFPYRUNTIME"] = dir;
    env["DPV_PRISTINE"] = rt ? rt : "/repo/src/runtime";
    int status = 0;
    string out = executed({"--child", fmt("%ld", seed), dir}, env, &status);
    for (auto& f : {"f0_WaasKirf.dat", "ionlist.dat", "nsftable.dat", "bvparm2011sel.cif"})
    {
        unlink((dir + "/" + f).c_str());
        rmdir((dir + "/" + f).c_str());
    }
    rmdir(dir.c_str());
    size_t e = out.find('\n');
    int nrep = 0, nok = 0;
    checkTrue("C14:lookups with unreadable files crash", status == 0 && e != string::npos && sscanf(out.c_str(), "%d %d", &nrep, &nok) == 2, fmt("status %d ", status) + out);
    ctx().count("reported failures of data files", nrep);
    ctx().count("lookups after repair", nok);
    ctx().distinct(hstr(out.substr(0, e)));
    ctx().sample(out.substr(0, e));
    if (e != string::npos)
    {
        std::istringstream is(out.substr(e + 1));
        for (string l; std::getline(is, l);)  ctx().fail("C14:unreadable data file: " + l.substr(0, 24), l);
    }
    evaluated("unreadable data files");
}

int main(int argc, char* argv[])
{
    if (argc == 4 && string(argv[1]) == "--child")  return child(atol(argv[2]), argv[3]);
    return runCases(argc, argv, [](long, Rng& g)
    {
        double x = g.u();
        if (x < 0.35)  standard(g);
        else if (x < 0.6)  overrides(g);
        else if (x < 0.75)  radii(g);
        else if (x < 0.9)  valences(g);
        else  datafiles(g);
    });
}
