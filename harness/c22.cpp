// C22: named attributes against dedicated accessors, registries against a shadow map
#include "anycalc.hpp"
#include <diffpy/srreal/QResolutionEnvelope.hpp>
#include <diffpy/srreal/ScaleEnvelope.hpp>
#include <diffpy/srreal/SphericalShapeEnvelope.hpp>
#include <diffpy/srreal/StepCutEnvelope.hpp>
#include <diffpy/srreal/LinearBaseline.hpp>
#include <diffpy/srreal/ZeroBaseline.hpp>
#include <diffpy/srreal/GaussianProfile.hpp>
#include <diffpy/srreal/CroppedGaussianProfile.hpp>
#include <diffpy/srreal/DebyeWallerPeakWidth.hpp>
#include <diffpy/srreal/BaseDebyeSum.hpp>
using namespace dpv;
typedef diffpy::Attributes Attrs;

struct Acc
{
    std::function<double()> get;
    std::function<void(double)> set;        // empty for read-only ones
};
typedef std::map<string, Acc> AccMap;

#define ACC(m, name, obj, G, S)  { Acc a_; a_.get = [obj]() -> double { return obj->G(); }; a_.set = [obj](double x) { obj->S(x); }; m[name] = a_; }
#define ACCRO(m, name, obj, G)  { Acc a_; a_.get = [obj]() -> double { return obj->G(); }; m[name] = a_; }

static const double GS = 2 * std::sqrt(2 * std::log(2.0));
static void accOf(const sr::PeakWidthModelPtr& p, AccMap& m)
{
    if (p->type() == "jeong")
    {
        sr::JeongPeakWidth* j = dynamic_cast<sr::JeongPeakWidth*>(p.get());
        ACC(m, "delta1", j, getDelta1, setDelta1)
        ACC(m, "delta2", j, getDelta2, setDelta2)
        ACC(m, "qbroad", j, getQbroad, setQbroad)
        ACC(m, "qbroad_seperable", j, getQbroad_seperable, setQbroad_seperable)
    }
    if (p->type() == "constant")
    {
        sr::ConstantPeakWidth* c = dynamic_cast<sr::ConstantPeakWidth*>(p.get());
        ACC(m, "width", c, getWidth, setWidth)
        Acc a;
        a.get = [c]()  { double w = c->getWidth() / GS; return 0.5 * w * fabs(w); };
        a.set = [c](double u)  { c->setWidth((u < 0 ? -1 : 1) * GS * std::sqrt(2 * fabs(u))); };
        m["uisowidth"] = a;
        const double b8 = 8 * M_PI * M_PI;
        a.get = [c, b8]()  { double w = c->getWidth() / GS; return b8 * 0.5 * w * fabs(w); };
        a.set = [c, b8](double u)  { c->setWidth((u < 0 ? -1 : 1) * GS * std::sqrt(2 * fabs(u / b8))); };
        m["bisowidth"] = a;
    }
}
static void accOf(const sr::PeakProfilePtr& p, AccMap& m)
{
    sr::PeakProfile* o = p.get();
    ACC(m, "peakprecision", o, getPrecision, setPrecision)
}
static void accOf(const sr::PDFBaselinePtr& p, AccMap& m)
{
    if (p->type() != "linear")  return;
    sr::LinearBaseline* o = dynamic_cast<sr::LinearBaseline*>(p.get());
    ACC(m, "slope", o, getSlope, setSlope)
}
static void accOf(const sr::PDFEnvelopePtr& p, AccMap& m)
{
    if (sr::ScaleEnvelope* o = dynamic_cast<sr::ScaleEnvelope*>(p.get()))  ACC(m, "scale", o, getScale, setScale)
    if (sr::QResolutionEnvelope* o = dynamic_cast<sr::QResolutionEnvelope*>(p.get()))  ACC(m, "qdamp", o, getQdamp, setQdamp)
    if (sr::StepCutEnvelope* o = dynamic_cast<sr::StepCutEnvelope*>(p.get()))  ACC(m, "stepcut", o, getStepCut, setStepCut)
    if (sr::SphericalShapeEnvelope* o = dynamic_cast<sr::SphericalShapeEnvelope*>(p.get()))  ACC(m, "spdiameter", o, getSPDiameter, setSPDiameter)
}
static AccMap accOf(sr::PairQuantity& q)
{
    AccMap m;
    sr::PairQuantity* pq = &q;
    ACC(m, "rmin", pq, getRmin, setRmin)
    ACC(m, "rmax", pq, getRmax, setRmax)
    if (sr::BVSCalculator* c = dynamic_cast<sr::BVSCalculator*>(pq))
    {
        ACC(m, "valenceprecision", c, getValencePrecision, setValencePrecision)
        ACCRO(m, "rmaxused", c, getRmaxUsed)
    }
    if (sr::OverlapCalculator* c = dynamic_cast<sr::OverlapCalculator*>(pq))  ACCRO(m, "rmaxused", c, getRmaxUsed)
    if (sr::BaseDebyeSum* c = dynamic_cast<sr::BaseDebyeSum*>(pq))  ACC(m, "debyeprecision", c, getDebyePrecision, setDebyePrecision)
    if (sr::PDFCalculator* c = dynamic_cast<sr::PDFCalculator*>(pq))
    {
        ACC(m, "qmin", c, getQmin, setQmin)
        ACC(m, "qmax", c, getQmax, setQmax)
        ACCRO(m, "qstep", c, getQstep)
        ACC(m, "rstep", c, getRstep, setRstep)
        ACC(m, "maxextension", c, getMaxExtension, setMaxExtension)
        ACCRO(m, "extendedrmin", c, getExtendedRmin)
        ACCRO(m, "extendedrmax", c, getExtendedRmax)
        accOf(c->getPeakWidthModel(), m);
        accOf(c->getPeakProfile(), m);
        accOf(c->getBaseline(), m);
        for (auto& t : c->usedEnvelopeTypes())  accOf(c->getEnvelopeByType(t), m);
    }
    if (sr::DebyePDFCalculator* c = dynamic_cast<sr::DebyePDFCalculator*>(pq))
    {
        ACC(m, "qmin", c, getQmin, setQmin)
        ACC(m, "qmax", c, getQmax, setQmax)
        ACC(m, "qstep", c, getQstep, setQstep)
        ACC(m, "rstep", c, getRstep, setRstep)
        ACC(m, "maxextension", c, getMaxExtension, setMaxExtension)
        m["extendedrmin"] = Acc();
        m["extendedrmax"] = Acc();
        accOf(c->getPeakWidthModel(), m);
        for (auto& t : c->usedEnvelopeTypes())  accOf(c->getEnvelopeByType(t), m);
    }
    return m;
}

static void checkAttrs(const Attrs& a, const AccMap& m, const string& where)
{
    std::set<string> names, writable;
    for (auto& x : m)
    {
        names.insert(x.first);
        if (x.second.set)  writable.insert(x.first);
    }
    auto join = [](const std::set<string>& s)  { string r; for (auto& x : s)  r += x + ","; return r; };
    checkTrue("C22:attribute names", a.namesOfDoubleAttributes() == names, join(a.namesOfDoubleAttributes()) + " expected " + join(names) + where);
    checkTrue("C22:writable attribute names", a.namesOfWritableDoubleAttributes() == writable,
            join(a.namesOfWritableDoubleAttributes()) + " expected " + join(writable) + where);
    for (auto& x : m)
    {
        checkTrue("C22:hasDoubleAttr", a.hasDoubleAttr(x.first), x.first + " " + where);
        double v = a.getDoubleAttr(x.first);
        if (x.second.get)  checkNear("C22:attribute value " + x.first, v, x.second.get(), x.first == "uisowidth" || x.first == "bisowidth" ? 1e-12 : 0, 0, where);
    }
    evaluated("attributes against accessors");
}
static std::map<string, double> values(const Attrs& a)
{
    std::map<string, double> r;
    for (auto& n : a.namesOfDoubleAttributes())  r[n] = a.getDoubleAttr(n);
    return r;
}
static string diffOf(const std::map<string, double>& a, const std::map<string, double>& b, double tol=0)
{
    for (auto& x : a)
    {
        auto it = b.find(x.first);
        if (it == b.end())  return x.first + " missing";
        if (!close(x.second, it->second, tol, 0))  return x.first + fmt(" %.17g and %.17g", x.second, it->second);
    }
    return a.size() == b.size() ? "" : "different size";
}

static double valueFor(Rng& g, const string& n)
{
    if (g.chance(0.12))  return g.pick({-1, -0.5, 0, -1e-9});
    if (n == "rmin")  return g.u(0, 3);
    if (n == "rmax")  return g.u(2, 6);
    if (n == "qmax")  return g.chance(0.2) ? 0 : g.u(5, 25);
    if (n == "qmin")  return g.u(0, 3);
    if (n == "qstep")  return g.u(0.03, 0.3);
    if (n == "rstep")  return g.u(0.02, 0.2);
    if (n == "maxextension")  return g.u(0, 5);
    if (n == "debyeprecision" || n == "valenceprecision" || n == "peakprecision")  return std::pow(10, g.u(-8, -1));
    if (n == "delta1" || n == "qdamp" || n == "qbroad" || n == "qbroad_seperable")  return g.u(0, 0.3);
    if (n == "width")  return g.u(0.05, 0.4);
    if (n == "uisowidth" || n == "bisowidth")  return g.u(0.002, 0.02);
    return g.u(0.2, 8);
}

// write through the attribute on one object and through the setter on the other
static bool writeBoth(Rng& g, Attrs& a, Attrs& b, const AccMap& ma, const AccMap& mb, string& hist)
{
    vector<string> ns;
    for (auto& x : ma)  ns.push_back(x.first);
    if (ns.empty())  ns.push_back("nothing");
    string n = g.pick(ns);
    if (!ma.count(n))  return true;
    double v = valueFor(g, n);
    auto was = values(a);
    const Acc& sb = mb.at(n);
    if (!sb.set)
    {
        bool r = raises([&]{ a.setDoubleAttr(n, v); });
        checkTrue("C22:read-only attribute accepts writing", r, n + " " + hist);
        string d = diffOf(was, values(a));
        checkTrue("C22:rejected write changes the object", d.empty(), d + " " + hist);
        evaluated("read-only attribute rejected");
        return true;
    }
    bool ra = raises([&]{ a.setDoubleAttr(n, v); }), rb = raises([&]{ sb.set(v); });
    hist += n + fmt("=%.10g%s ", v, rb ? "(rejected)" : "");
    checkTrue("C22:attribute and setter accept different values", ra == rb, fmt("attribute %d setter %d ", ra, rb) + hist);
    if (ra)
    {
        string d = diffOf(was, values(a));
        checkTrue("C22:rejected write changes the object", d.empty(), d + " " + hist);
        ctx().count("rejected values");
    }
    string d = diffOf(values(a), values(b), 1e-13);
    evaluated("attribute write against setter");
    return checkTrue("C22:attribute write differs from setter", d.empty(), d + " after " + hist);
}
static void unknownName(Rng& g, Attrs& a, const AccMap& m, const string& where)
{
    static const vector<string> odd = {"", "foo", "Rmin", "rmin ", " rmax", "qma", "qmaxx", "delta", "scal", "delta1\n", "spdiameter", "slope",
        "width", "stepcut", "valenceprecision", "rmaxused", "delta1", "peakprecision"};
    string n = g.pick(odd);
    if (m.count(n))  return;
    auto was = values(a);
    string w1, w2;
    bool r1 = raises([&]{ a.getDoubleAttr(n); }, &w1), r2 = raises([&]{ a.setDoubleAttr(n, 1); }, &w2);
    checkTrue("C22:unknown attribute", r1 && r2 && !a.hasDoubleAttr(n), "'" + n + "' " + where);
    checkTrue("C22:unknown attribute changes the object", diffOf(was, values(a)).empty(), n + where);
    evaluated("unknown attribute rejected");
}

struct Two { AccMap ma, mb; boost::shared_ptr<Attrs> a, b; string nm; };
template <class P> static void setTwo(Two& w, P p, P q)
{
    accOf(p, w.ma);
    accOf(q, w.mb);
    w.a = p;
    w.b = q;
    w.nm = p->type();
}

static void components(Rng& g)
{
    Two w;
    AccMap &ma = w.ma, &mb = w.mb;
    boost::shared_ptr<Attrs> &a = w.a, &b = w.b;
    string& nm = w.nm;
    switch (g.i(0, 3))
    {
        case 0:
        {
            string t = g.pick(vector<string>{"jeong", "constant", "debye-waller"});
            setTwo(w, sr::PeakWidthModel::createByType(t), sr::PeakWidthModel::createByType(t));
            break;
        }
        case 1:
        {
            string t = g.pick(vector<string>{"gaussian", "croppedgaussian"});
            setTwo(w, sr::PeakProfile::createByType(t), sr::PeakProfile::createByType(t));
            break;
        }
        case 2:
        {
            string t = g.pick(vector<string>{"linear", "zero"});
            setTwo(w, sr::PDFBaseline::createByType(t), sr::PDFBaseline::createByType(t));
            break;
        }
        default:
        {
            string t = g.pick(vector<string>{"scale", "qresolution", "stepcut", "sphericalshape"});
            setTwo(w, sr::PDFEnvelope::createByType(t), sr::PDFEnvelope::createByType(t));
        }
    }
    string hist = nm + " ";
    for (int k = 0; k < 6; ++k)
    {
        checkAttrs(*a, ma, hist);
        unknownName(g, *a, ma, hist);
        if (!writeBoth(g, *a, *b, ma, mb, hist))  return;
    }
    ctx().distinct(hstr(hist));
}

// user component with an attribute of an existing name
class DupEnvelope : public sr::PDFEnvelope
{
public:
    double x;
    DupEnvelope() : x(1)
    {
        this->registerDoubleAttribute("scale", this, &DupEnvelope::getx, &DupEnvelope::setx);
        this->registerDoubleAttribute("dupextra", this, &DupEnvelope::getx);
    }
    double getx() const  { return x; }
    void setx(double y)  { x = y; }
    sr::PDFEnvelopePtr create() const  { return sr::PDFEnvelopePtr(new DupEnvelope); }
    sr::PDFEnvelopePtr clone() const  { return sr::PDFEnvelopePtr(new DupEnvelope(*this)); }
    const string& type() const  { static string s = "dpvdup"; return s; }
    double operator()(const double&) const  { return x; }
};

static void calculators(Rng& g)
{
    int kind = g.i(0, 9);
    if (kind >= NCALC)  kind = g.chance(0.6) ? PDF : DEBYE;
    AnyCfg c = genAnyCfg(g, kind, 2, 4);
    PQPtr a = makeCalc(kind), b = makeCalc(kind);
    c.apply(*a);
    c.apply(*b);
    GenOpt o;
    o.types = typesFor(kind);
    o.nmin = 1;
    o.nmax = 3;
    o.maximages = 16;
    Model m = genModel(g, genKind(g), o);
    sr::StructureAdapterPtr st = toAdapter(m);
    string hist = string(calcName(kind)) + ": ";
    bool evald = false;
    int nst = g.i(2, 10);
    for (int k = 0; k < nst; ++k)
    {
        AccMap ma = accOf(*a), mb = accOf(*b);
        checkAttrs(*a, ma, hist);
        if (kind == DEBYE)
        {
            // limits of the pair distances are those of the last evaluation
            double lo = a->getDoubleAttr("extendedrmin"), hi = a->getDoubleAttr("extendedrmax");
            checkTrue("C22:Debye pair distance limits", lo == b->getDoubleAttr("extendedrmin") && hi == b->getDoubleAttr("extendedrmax"), hist);
        }
        unknownName(g, *a, ma, hist);
        int what = g.i(0, 11);
        if (what < 6)
        {
            if (!writeBoth(g, *a, *b, ma, mb, hist))  return;
            continue;
        }
        sr::PDFCalculator *pa = dynamic_cast<sr::PDFCalculator*>(a.get()), *pb = dynamic_cast<sr::PDFCalculator*>(b.get());
        sr::DebyePDFCalculator *da = dynamic_cast<sr::DebyePDFCalculator*>(a.get()), *db = dynamic_cast<sr::DebyePDFCalculator*>(b.get());
        if (what < 8 && (pa || da))
        {
            // replace a component, attributes follow it
            string t;
            auto pw = [&](sr::PeakWidthModelOwner* x)
            {
                x->setPeakWidthModelByType(t);
                if (t == "constant")  x->getPeakWidthModel()->setDoubleAttr("width", 0.2);
            };
            auto en = [&](sr::PDFEnvelopeOwner* x)
            {
                if (x->usedEnvelopeTypes().count(t))  x->popEnvelopeByType(t);
                else  x->addEnvelopeByType(t);
            };
            switch (g.i(0, pa ? 3 : 1))
            {
                case 0:
                    t = g.pick(vector<string>{"jeong", "constant", "debye-waller"});
                    if (pa)  { pw(pa); pw(pb); }
                    else  { pw(da); pw(db); }
                    break;
                case 1:
                    t = g.pick(vector<string>{"scale", "qresolution", "stepcut", "sphericalshape"});
                    if (pa)  { en(pa); en(pb); }
                    else  { en(da); en(db); }
                    break;
                case 2:
                    t = g.pick(vector<string>{"gaussian", "croppedgaussian"});
                    pa->setPeakProfileByType(t);
                    pb->setPeakProfileByType(t);
                    break;
                default:
                    t = g.pick(vector<string>{"linear", "zero"});
                    pa->setBaselineByType(t);
                    pb->setBaselineByType(t);
            }
            hist += "component " + t + " ";
            ctx().count("components replaced");
        }
        else if (what == 8 && (pa || da))
        {
            sr::PDFEnvelopeOwner* x = pa ? static_cast<sr::PDFEnvelopeOwner*>(pa) : da;
            bool had = x->usedEnvelopeTypes().count("scale");
            boost::shared_ptr<DupEnvelope> d(new DupEnvelope);
            double v0 = had ? x->getEnvelopeByType("scale")->getDoubleAttr("scale") : 0;
            x->addEnvelope(d);
            if (had)
            {
                checkTrue("C22:ambiguous attribute", raises([&]{ a->getDoubleAttr("scale"); }) && raises([&]{ a->setDoubleAttr("scale", 3); }), hist);
                checkTrue("C22:ambiguous attribute written", d->x == 1 && x->getEnvelopeByType("scale")->getDoubleAttr("scale") == v0, hist);
            }
            else
            {
                a->setDoubleAttr("scale", 3);
                checkTrue("C22:attribute of a user component", d->x == 3 && a->getDoubleAttr("scale") == 3, hist);
            }
            checkTrue("C22:attribute of a user component", a->getDoubleAttr("dupextra") == d->x && raises([&]{ a->setDoubleAttr("dupextra", 2); }) &&
                    a->namesOfDoubleAttributes().count("dupextra") && !a->namesOfWritableDoubleAttributes().count("dupextra"), hist);
            x->popEnvelope(d);
            checkTrue("C22:attribute of a removed component", !a->hasDoubleAttr("dupextra") && raises([&]{ a->getDoubleAttr("dupextra"); }), hist);
            evaluated("user component attributes");
        }
        else
        {
            a->eval(st);
            b->eval(st);
            evald = true;
            hist += "eval ";
            Results ra = resultsOf(kind, *a), rb = resultsOf(kind, *b);
            if (!compareResults("C22:results after attribute writes", ra, rb, 1e-12, 1e-12, hist + m.str()))  return;
            evaluated("results after attribute writes");
            string d = diffOf(values(*a), values(*b), 1e-13);
            checkTrue("C22:attributes after evaluation", d.empty(), d + hist);
        }
    }
    ctx().sample(hist);
    ctx().distinct(hstr(hist));
    (void) evald;
}

// --- registries -------------------------------------------------------------------------
struct MyWidth : public sr::PeakWidthModel
{
    string nm;
    MyWidth(const string& s="") : nm(s)  { }
    sr::PeakWidthModelPtr create() const  { return sr::PeakWidthModelPtr(new MyWidth(nm)); }
    sr::PeakWidthModelPtr clone() const  { return sr::PeakWidthModelPtr(new MyWidth(*this)); }
    const string& type() const  { return nm; }
    double calculate(const sr::BaseBondGenerator&) const  { return 1; }
    double maxWidth(sr::StructureAdapterPtr, double, double) const  { return 1; }
};
struct MyProfile : public sr::GaussianProfile
{
    string nm;
    MyProfile(const string& s="") : nm(s)  { }
    sr::PeakProfilePtr create() const  { return sr::PeakProfilePtr(new MyProfile(nm)); }
    sr::PeakProfilePtr clone() const  { return sr::PeakProfilePtr(new MyProfile(*this)); }
    const string& type() const  { return nm; }
};
struct MyEnvelope : public sr::ScaleEnvelope
{
    string nm;
    MyEnvelope(const string& s="") : nm(s)  { }
    sr::PDFEnvelopePtr create() const  { return sr::PDFEnvelopePtr(new MyEnvelope(nm)); }
    sr::PDFEnvelopePtr clone() const  { return sr::PDFEnvelopePtr(new MyEnvelope(*this)); }
    const string& type() const  { return nm; }
};
struct MyBaseline : public sr::LinearBaseline
{
    string nm;
    MyBaseline(const string& s="") : nm(s)  { }
    sr::PDFBaselinePtr create() const  { return sr::PDFBaselinePtr(new MyBaseline(nm)); }
    sr::PDFBaselinePtr clone() const  { return sr::PDFBaselinePtr(new MyBaseline(*this)); }
    const string& type() const  { return nm; }
};
struct MyTable : public sr::ScatteringFactorTable
{
    string nm, rad;
    MyTable(const string& s="") : nm(s), rad("R" + s)  { }
    sr::ScatteringFactorTablePtr create() const  { return sr::ScatteringFactorTablePtr(new MyTable(nm)); }
    sr::ScatteringFactorTablePtr clone() const  { return sr::ScatteringFactorTablePtr(new MyTable(*this)); }
    const string& type() const  { return nm; }
    const string& radiationType() const  { return rad; }
    double standardLookup(const string&, double) const  { return 7; }
};
struct MyRadii : public sr::ConstantRadiiTable
{
    string nm;
    MyRadii(const string& s="") : nm(s)  { }
    sr::AtomRadiiTablePtr create() const  { return sr::AtomRadiiTablePtr(new MyRadii(nm)); }
    sr::AtomRadiiTablePtr clone() const  { return sr::AtomRadiiTablePtr(new MyRadii(*this)); }
    const string& type() const  { return nm; }
};

// user-visible state of an object, used to show that created ones are independent
static void poke(sr::PeakWidthModel& x)  { for (auto& n : x.namesOfWritableDoubleAttributes())  x.setDoubleAttr(n, 0.123); }
static void poke(sr::PeakProfile& x)  { x.setPrecision(0.0123); }
static void poke(sr::PDFEnvelope& x)  { for (auto& n : x.namesOfWritableDoubleAttributes())  x.setDoubleAttr(n, 2.123); }
static void poke(sr::PDFBaseline& x)  { for (auto& n : x.namesOfWritableDoubleAttributes())  x.setDoubleAttr(n, 2.123); }
static void poke(sr::ScatteringFactorTable& x)  { x.setCustomAs("Xx", "C"); }
static void poke(sr::AtomRadiiTable& x)  { x.setCustom("Xx", 3); }
static string stateOf(const Attrs& x)
{
    string s;
    for (auto& v : values(x))  s += v.first + fmt("=%.17g ", v.second);
    return s;
}
static string stateOf(const sr::ScatteringFactorTable& x)  { return fmt("%zu", x.getCustomSymbols().size()); }
static string stateOf(const sr::AtomRadiiTable& x)  { return x.toString(); }

template <class Base, class Mine> struct RegTest
{
    typedef std::map<string, string> Map;       // name or alias -> type
    static void run(Rng& g, const string& label, const Map& builtin, bool radalias)
    {
        Map reg = builtin;
        static const vector<string> names = {"dpva", "dpvb", "dpvc", "dpvd", "al1", "al2", "al3"};
        vector<string> pool = names;
        for (auto& x : builtin)  pool.push_back(x.first);
        if (radalias)  for (auto& x : names)  pool.push_back("R" + x);
        pool.push_back("");
        pool.push_back("unknown");
        string hist = label + ": ";
        auto check = [&]()
        {
            std::set<string> types;
            Map al;
            for (auto& x : reg)
            {
                types.insert(x.second);
                if (x.first != x.second)  al[x.first] = x.second;
            }
            checkTrue("C22:registered types", Base::getRegisteredTypes() == types, hist);
            checkTrue("C22:aliased types", Base::getAliasedTypes() == al, hist);
            for (auto& n : pool)
            {
                checkTrue("C22:isRegisteredType", Base::isRegisteredType(n) == bool(reg.count(n)), n + " " + hist);
                if (!g.chance(0.4))  continue;
                if (!reg.count(n))
                {
                    checkTrue("C22:unknown type created", raises([&]{ Base::createByType(n); }), n + " " + hist);
                    continue;
                }
                auto p = Base::createByType(n), q = Base::createByType(n);
                checkTrue("C22:created type", p && p->type() == reg[n] && p != q, n + " " + hist);
                bool mine = bool(dynamic_cast<Mine*>(p.get()));
                checkTrue("C22:class of created object", mine == !builtin.count(reg[n]), n + " " + hist);
                string s0 = stateOf(*q);
                poke(*p);
                checkTrue("C22:created objects are independent", stateOf(*q) == s0 && stateOf(*Base::createByType(n)) == s0, n + " " + hist);
                string s1 = stateOf(*p);
                auto cl = p->clone();
                checkTrue("C22:clone of a created object", cl != p && cl->type() == p->type() && stateOf(*cl) == s1, n + " " + hist);
                checkTrue("C22:create from an object", stateOf(*p->create()) == s0, n + " " + hist);
            }
            evaluated("registry against shadow map");
        };
        check();
        int n = g.i(1, 9);
        for (int k = 0; k < n; ++k)
        {
            string a = g.pick(pool), b = g.pick(pool);
            switch (g.i(0, 6))
            {
                case 0: case 1:
                {
                    // register a user type
                    a = g.pick(names);
                    bool dup = reg.count(a) || (radalias && reg.count("R" + a));
                    bool r = raises([&]{ Mine(a).registerThisType(); });
                    hist += "register " + a + (dup ? " (dup) " : " ");
                    checkTrue("C22:duplicate registration", r == dup, hist);
                    if (!dup)
                    {
                        reg[a] = a;
                        if (radalias)  reg["R" + a] = a;
                    }
                    else  ctx().count("duplicate registrations");
                    break;
                }
                case 2:
                {
                    // builtin types cannot be registered twice
                    auto it = builtin.begin();
                    std::advance(it, g.i(0, builtin.size() - 1));
                    if (!reg.count(it->second))  break;
                    auto p = Base::createByType(it->second);
                    checkTrue("C22:duplicate registration", raises([&]{ p->registerThisType(); }), it->second + " " + hist);
                    break;
                }
                case 3: case 4:
                {
                    if (b.empty())  break;
                    bool unknown = !reg.count(a), taken = reg.count(b) && !unknown && reg[b] != reg[a];
                    // user aliases of builtin types stay out of the way of the next cases
                    bool r = raises([&]{ Base::aliasType(a, b); });
                    hist += "alias " + a + " " + b + (r ? " (rejected) " : " ");
                    checkTrue("C22:invalid alias", r == (unknown || taken), hist);
                    if (!r)  reg[b] = reg[a];
                    else  ctx().count("rejected aliases");
                    break;
                }
                default:
                {
                    // remove user types only, builtin ones are restored at the end
                    int want = 0;
                    string t = reg.count(a) ? reg[a] : "";
                    if (!t.empty() && builtin.count(t))  break;
                    for (auto it = reg.begin(); !t.empty() && it != reg.end();)
                    {
                        if (it->second == t)  { it = reg.erase(it); ++want; }
                        else  ++it;
                    }
                    int got = Base::deregisterType(a);
                    hist += "deregister " + a + " ";
                    checkTrue("C22:deregistered names", got == want, fmt("%d expected %d ", got, want) + hist);
                    if (want)  ctx().count("deregistrations");
                }
            }
            check();
        }
        ctx().sample(hist);
        ctx().distinct(hstr(hist));
        // deregister everything, including built-in types with their extra aliases, and set them up again
        vector<string> ns;
        for (auto& x : reg)  ns.push_back(x.first);
        bool all = g.chance(0.5);
        for (auto& x : ns)
        {
            bool bi = reg.count(x) && builtin.count(reg[x]);
            if (!reg.count(x))  continue;
            bool extra = false;
            for (auto& y : reg)  if (y.second == reg[x] && !builtin.count(y.first))  extra = true;
            if (bi && !extra && !all)  continue;
            string t = reg[x];
            typename Base::SharedPtr proto;
            if (bi)  proto = Base::createByType(x);
            int cnt = 0;
            for (auto it = reg.begin(); it != reg.end();)
            {
                if (it->second == t)  { it = reg.erase(it); ++cnt; }
                else  ++it;
            }
            checkTrue("C22:deregistered names", Base::deregisterType(x) == cnt, hist + " finally " + x);
            checkTrue("C22:deregistered type", !Base::isRegisteredType(t) && raises([&]{ Base::createByType(t); }) && Base::deregisterType(t) == 0, hist + t);
            if (bi)
            {
                checkTrue("C22:registration after removal", proto->registerThisType(), hist + t);
                for (auto& y : builtin)  if (y.second == t)
                {
                    Base::aliasType(t, y.first);
                    reg[y.first] = t;
                }
            }
        }
        hist += "finally ";
        check();
    }
};

static void registries(Rng& g)
{
    typedef std::map<string, string> Map;
    auto self = [](std::initializer_list<string> l)
    {
        Map m;
        for (auto& x : l)  m[x] = x;
        return m;
    };
    switch (g.i(0, 5))
    {
        case 0:  RegTest<sr::PeakWidthModel, MyWidth>::run(g, "PeakWidthModel", self({"jeong", "constant", "debye-waller"}), false); break;
        case 1:  RegTest<sr::PeakProfile, MyProfile>::run(g, "PeakProfile", self({"gaussian", "croppedgaussian"}), false); break;
        case 2:  RegTest<sr::PDFEnvelope, MyEnvelope>::run(g, "PDFEnvelope", self({"scale", "qresolution", "sphericalshape", "stepcut"}), false); break;
        case 3:  RegTest<sr::PDFBaseline, MyBaseline>::run(g, "PDFBaseline", self({"linear", "zero"}), false); break;
        case 4:
        {
            Map m = self({"xray", "neutron", "electron", "electronnumber"});
            m["X"] = "xray";
            m["N"] = "neutron";
            m["E"] = "electron";
            m["EN"] = "electronnumber";
            RegTest<sr::ScatteringFactorTable, MyTable>::run(g, "ScatteringFactorTable", m, true);
            break;
        }
        default:  RegTest<sr::AtomRadiiTable, MyRadii>::run(g, "AtomRadiiTable", self({"constant"}), false);
    }
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, [](long, Rng& g)
    {
        double x = g.u();
        if (x < 0.25)  components(g);
        else if (x < 0.7)  calculators(g);
        else  registries(g);
    });
}
