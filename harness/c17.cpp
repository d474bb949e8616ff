// C17: a rejected call leaves the object unchanged and later valid calls work normally
#include "states.hpp"
#include <diffpy/serialization.ipp>
#include <diffpy/srreal/JeongPeakWidth.hpp>
#include <diffpy/srreal/Lattice.hpp>
#include <diffpy/srreal/BVParam.hpp>
using namespace dpv;

static const vector<string> envelopes = {"scale", "qresolution", "sphericalshape", "stepcut"};

// --- components that fail on demand ----------------------------------------------------
struct Fuse
{
    long left; bool armed; long hits; bool blown;
    Fuse() : left(0), armed(false), hits(0), blown(false)  { }
    void hit()
    {
        ++hits;
        if (!armed)  return;
        if (--left >= 0)  return;
        blown = true;
        throw std::runtime_error("failure of user component");
    }
};
static Fuse fuse;

struct FuseWidth : public sr::JeongPeakWidth
{
    sr::PeakWidthModelPtr create() const  { return boost::make_shared<FuseWidth>(); }
    sr::PeakWidthModelPtr clone() const  { return boost::make_shared<FuseWidth>(*this); }
    double calculate(const sr::BaseBondGenerator& b) const  { fuse.hit(); return sr::JeongPeakWidth::calculate(b); }
    double maxWidth(sr::StructureAdapterPtr s, double a, double b) const  { fuse.hit(); return sr::JeongPeakWidth::maxWidth(s, a, b); }
};
struct FuseTable : public sr::ScatteringFactorTable
{
    sr::ScatteringFactorTablePtr t;
    FuseTable(const string& tp) : t(sr::ScatteringFactorTable::createByType(tp))  { }
    sr::ScatteringFactorTablePtr create() const  { return boost::make_shared<FuseTable>(t->type()); }
    sr::ScatteringFactorTablePtr clone() const  { return boost::make_shared<FuseTable>(*this); }
    const string& type() const  { return t->type(); }
    const string& radiationType() const  { return t->radiationType(); }
    double standardLookup(const string& s, double q) const  { fuse.hit(); return t->standardLookup(s, q); }
};
struct FuseProfile : public sr::PeakProfile
{
    sr::PeakProfilePtr t;
    FuseProfile(const string& tp) : t(sr::PeakProfile::createByType(tp))  { }
    sr::PeakProfilePtr create() const  { return boost::make_shared<FuseProfile>(t->type()); }
    sr::PeakProfilePtr clone() const  { return boost::make_shared<FuseProfile>(*this); }
    const string& type() const  { return t->type(); }
    double operator()(double x, double w) const  { fuse.hit(); return (*t)(x, w); }
    double xboundlo(double w) const  { fuse.hit(); return t->xboundlo(w); }
    double xboundhi(double w) const  { return t->xboundhi(w); }
    void setPrecision(double e)  { t->setPrecision(e); sr::PeakProfile::setPrecision(e); }
};
struct FuseRadii : public sr::ConstantRadiiTable
{
    sr::AtomRadiiTablePtr create() const  { return boost::make_shared<FuseRadii>(); }
    sr::AtomRadiiTablePtr clone() const  { return boost::make_shared<FuseRadii>(*this); }
    double standardLookup(const string& s) const  { fuse.hit(); return sr::ConstantRadiiTable::standardLookup(s); }
};
template <class B> struct FuseStructure : public B
{
    FuseStructure(const B& b) : B(b)  { }
    SPtr clone() const  { return boost::make_shared<FuseStructure>(*this); }
    const string& siteAtomType(int i) const  { fuse.hit(); return B::siteAtomType(i); }
    double siteOccupancy(int i) const  { fuse.hit(); return B::siteOccupancy(i); }
    const sr::R3::Matrix& siteCartesianUij(int i) const  { fuse.hit(); return B::siteCartesianUij(i); }
    const sr::R3::Vector& siteCartesianPosition(int i) const  { fuse.hit(); return B::siteCartesianPosition(i); }
};
static APtr faulty(const Model& m)
{
    APtr a = toAdapter(m);
    if (auto c = boost::dynamic_pointer_cast<sr::CrystalStructureAdapter>(a))  return boost::make_shared<FuseStructure<sr::CrystalStructureAdapter> >(*c);
    if (auto c = boost::dynamic_pointer_cast<sr::PeriodicStructureAdapter>(a))  return boost::make_shared<FuseStructure<sr::PeriodicStructureAdapter> >(*c);
    return boost::make_shared<FuseStructure<sr::AtomicStructureAdapter> >(*a);
}

// --- calls that must be rejected -------------------------------------------------------
typedef std::pair<string, std::function<void()> > Call;

static string registered()
{
    string r;
#define DPV_REG(C) { for (auto& x : sr::C::getRegisteredTypes()) r += x + " "; for (auto& x : sr::C::getAliasedTypes()) r += x.first + ">" + x.second + " "; }
    DPV_REG(PeakWidthModel) DPV_REG(PeakProfile) DPV_REG(PDFBaseline) DPV_REG(PDFEnvelope) DPV_REG(ScatteringFactorTable) DPV_REG(AtomRadiiTable)
    return r;
}

static string badType(Rng& g)
{
    return g.pick(vector<string>{"", "nosuchtype", "Jeong", "gaussian ", "LINEAR", "scal", "x-ray", "Constant", "all", "jeong,constant"});
}
static double badNonNegative(Rng& g)
{
    return g.pick({-1e-3, -0.5, -7.25, -1e-12, -HUGE_VAL, -1e300});
}
static double badPositive(Rng& g)
{
    return g.pick({0.0, -0.0, -1e-3, -2.5, 1e-17, -HUGE_VAL, -1e-17});
}

static vector<Call> badCalls(Rng& g, int kind, sr::PairQuantity& pq, bool clean)
{
    vector<Call> r;
    auto add = [&](const string& n, std::function<void()> f)  { r.push_back(Call(n, f)); };
    sr::PairQuantity* p = &pq;
    // any calculator
    for (const char* n : {"nosuchattribute", "", "Rmin", "rmax "})
    {
        string s = n;
        add("setDoubleAttr unknown", [=]() { p->setDoubleAttr(s, 1.5); });
        add("getDoubleAttr unknown", [=]() { p->getDoubleAttr(s); });
    }
    auto wr = pq.namesOfWritableDoubleAttributes();
    for (auto& n : pq.namesOfDoubleAttributes())
    {
        string s = n;
        if (!wr.count(n))  add("setDoubleAttr read-only " + n, [=]() { p->setDoubleAttr(s, 2.5); });
        add("setDoubleAttr of a const object " + n, [=]() { diffpy::Attributes& a = *p; string t = s + "_"; a.setDoubleAttr(t, 1); });
    }
    if (!canOptimize(kind) && kind != OVERLAP)
    {
        add("setEvaluatorType OPTIMIZED", [=]() { p->setEvaluatorType(sr::OPTIMIZED); });
        add("setEvaluatorType CHECK", [=]() { p->setEvaluatorType(sr::CHECK); });
    }
    add("setEvaluatorType NONE", [=]() { p->setEvaluatorType(sr::NONE); });
    for (int n : {0, -1, -5})  add("setupParallelRun", [=]() { p->setupParallelRun(n == -1 ? 1 : 0, n); });
    if (clean)  add("mergeParallelData of no data", [=]() { p->mergeParallelData("", 1 << 20); });
    if (clean)  add("mergeParallelData exceeding", [=]() { p->mergeParallelData("", 0); });
    auto num = [&](const string& n, double v, std::function<void(double)> f)
    {
        add(n + fmt(" %g", v), [=]() { f(v); });
        if (wr.count(n))  add(n + fmt(" attribute %g", v), [=]() { p->setDoubleAttr(n, v); });
    };
    double nn = badNonNegative(g), np = badPositive(g);
    string bt = badType(g);
    if (auto c = dynamic_cast<sr::PDFCalculator*>(p))
    {
        num("rmin", nn, [=](double v) { c->setRmin(v); });
        num("rmax", nn, [=](double v) { c->setRmax(v); });
        num("qmin", nn, [=](double v) { c->setQmin(v); });
        num("qmax", nn, [=](double v) { c->setQmax(v); });
        num("maxextension", nn, [=](double v) { c->setMaxExtension(v); });
        num("rstep", np, [=](double v) { c->setRstep(v); });
        add("setPeakProfile", [=]() { c->setPeakProfile(sr::PeakProfilePtr()); });
        add("setPeakProfileByType", [=]() { c->setPeakProfileByType(bt); });
        add("setBaseline", [=]() { c->setBaseline(sr::PDFBaselinePtr()); });
        add("setBaselineByType", [=]() { c->setBaselineByType(bt); });
    }
    if (auto c = dynamic_cast<sr::DebyePDFCalculator*>(p))
    {
        num("rmin", nn, [=](double v) { c->setRmin(v); });
        num("rmax", nn, [=](double v) { c->setRmax(v); });
        num("qmin", nn, [=](double v) { c->setQmin(v); });
        num("maxextension", nn, [=](double v) { c->setMaxExtension(v); });
        num("rstep", np, [=](double v) { c->setRstep(v); });
        if (np != c->getQmax())  num("qmax", np, [=](double v) { c->setQmax(v); });
        num("qstep", np, [=](double v) { c->setQstep(v); });
    }
    if (auto c = dynamic_cast<sr::PeakWidthModelOwner*>(p))
    {
        add("setPeakWidthModel", [=]() { c->setPeakWidthModel(sr::PeakWidthModelPtr()); });
        add("setPeakWidthModelByType", [=]() { c->setPeakWidthModelByType(bt); });
        sr::PeakWidthModelPtr w = c->getPeakWidthModel();
        add("width model attribute", [=]() { w->setDoubleAttr("nosuchattribute", 1); });
    }
    if (auto c = dynamic_cast<sr::ScatteringFactorTableOwner*>(p))
    {
        add("setScatteringFactorTable", [=]() { c->setScatteringFactorTable(sr::ScatteringFactorTablePtr()); });
        add("setScatteringFactorTableByType", [=]() { c->setScatteringFactorTableByType(bt); });
        sr::ScatteringFactorTablePtr t = c->getScatteringFactorTable();
        string smbl = g.pick(vector<string>{"C", "Na", "O", "Xx"});
        add("setCustomAs of unknown", [=]() { t->setCustomAs(smbl, "Qq", 2.0); });
        add("setCustomAs of unknown at q", [=]() { t->setCustomAs(smbl, "Xyz7", 2.0, 1.5); });
        add("lookup of unknown", [=]() { t->lookup("Qq", 0.5); });
        add("standardLookup of unknown", [=]() { t->standardLookup("Xyz", 0.5); });
    }
    if (auto c = dynamic_cast<sr::PDFEnvelopeOwner*>(p))
    {
        add("addEnvelope", [=]() { c->addEnvelope(sr::PDFEnvelopePtr()); });
        add("addEnvelopeByType", [=]() { c->addEnvelopeByType(bt); });
        add("getEnvelopeByType", [=]() { c->getEnvelopeByType(bt); });
        for (auto& e : envelopes)
        {
            string s = e;
            if (!c->usedEnvelopeTypes().count(e))
            {
                add("getEnvelopeByType missing", [=]() { c->getEnvelopeByType(s); });
                string n = s == "qresolution" ? "qdamp" : s == "sphericalshape" ? "spdiameter" : s;
                add("attribute of a missing envelope", [=]() { p->setDoubleAttr(n, 3); });
            }
        }
    }
    if (auto c = dynamic_cast<sr::BondCalculator*>(p))
    {
        add("filterCone", [=]() { c->filterCone(sr::R3::Vector(0.0, 0.0, 0.0), 30); });
        add("filterCone tiny", [=]() { c->filterCone(sr::R3::Vector(1e-18, 0.0, 0.0), 30); });
    }
    if (auto c = dynamic_cast<sr::BVSCalculator*>(p))
    {
        num("valenceprecision", np, [=](double v) { c->setValencePrecision(v); });
        add("setBVParamTable", [=]() { c->setBVParamTable(sr::BVParametersTablePtr()); });
    }
    if (auto c = dynamic_cast<sr::OverlapCalculator*>(p))
    {
        add("setAtomRadiiTable", [=]() { c->setAtomRadiiTable(sr::AtomRadiiTablePtr()); });
        add("setAtomRadiiTableByType", [=]() { c->setAtomRadiiTableByType(bt); });
        sr::AtomRadiiTablePtr t = c->getAtomRadiiTable();
        for (const char* s : {"C:1.1,O", "C:0.77,Na:abc", "O:1.2, Fe:", "C 1.3", "Na:1.5,,:x", "C:1.1;O:x2,Fe", ":"})
        {
            string x = s;
            add("fromString", [=]() { t->fromString(x); });
        }
        if (clean)
        {
            int n = pq.getStructure()->countSites();
            for (auto& ij : vector<std::pair<int, int> >{{-1, 0}, {0, -1}, {n, 0}, {0, n}, {n + 3, -7}})
            {
                int i = ij.first, j = ij.second;
                add("flipDiffTotal", [=]() { c->flipDiffTotal(i, j); });
                add("flipDiffMean", [=]() { c->flipDiffMean(i, j); });
            }
        }
    }
    // factories
    add("createByType", [=]() { sr::PeakWidthModel::createByType(bt); });
    add("createByType", [=]() { sr::PeakProfile::createByType(bt); });
    add("createByType", [=]() { sr::PDFBaseline::createByType(bt); });
    add("createByType", [=]() { sr::PDFEnvelope::createByType(bt); });
    add("createByType", [=]() { sr::ScatteringFactorTable::createByType(bt); });
    add("createByType", [=]() { sr::AtomRadiiTable::createByType(bt); });
    add("alias of unknown type", [=]() { sr::PeakProfile::aliasType("nosuchtype", "other"); });
    add("alias taken", [=]() { sr::PDFEnvelope::aliasType("scale", "stepcut"); });
    add("registered twice", [=]() { sr::PeakWidthModel::createByType("jeong")->registerThisType(); });
    return r;
}
static vector<Call> badStructureCalls(Rng& g, sr::StructureAdapter& s)
{
    vector<Call> r;
    if (auto c = dynamic_cast<sr::CrystalStructureAdapter*>(&s))
    {
        double v = badPositive(g);
        r.push_back(Call("setSymmetryPrecision", [=]() { c->setSymmetryPrecision(v); }));
    }
    return r;
}

struct Twin { PQPtr pq; APtr live; SPtr st; bool clean; };

static string tables(const sr::PairQuantity& pq)
{
    // components reached by other ways than the calculator
    string r = registered() + fmt("type %d parallel ", int(pq.getEvaluatorType()));
    r += fmt("%.17g %.17g ", pq.getRmin(), pq.getRmax());
    return r;
}

static void history(Rng& g)
{
    static const int kinds[] = {PDF, PDF, PDF, DEBYE, DEBYE, BONDS, PAIRCOUNT, BVS, OVERLAP};
    const int kind = kinds[g.i(0, 8)];
    const bool pd = kind == PDF || kind == DEBYE;
    GenOpt o;
    o.types = typesFor(kind);
    o.nmin = g.chance(0.85) ? 2 : 0;
    o.nmax = 6;
    o.maximages = kind == DEBYE ? 12 : 20;
    o.latlo = 3.5;
    o.minsep = kind == OVERLAP ? 0.3 : 0.8;
    const double rhi = kind == DEBYE ? 4 : 5;
    Model m = genModel(g, genKind(g), o);
    const int wrap = g.chance(0.85) ? 0 : g.i(1, 4);
    auto tune = [&](AnyCfg& c)
    {
        PdfCfg& p = c.pdf;
        p.rmax = std::min(p.rmax, rhi); p.rmin = std::min(p.rmin, p.rmax);
        p.maxext = std::min(p.maxext, 2.5);
        p.rstep = std::max(p.rstep, 0.03);
        p.prec = std::min(p.prec, 1e-4);
        if (p.rad == "electron")  p.rad = "xray";
        if (kind == DEBYE)  p.qmax = std::min(std::max(p.qmax, 3.0), 10.0);
    };
    AnyCfg cfg = genAnyCfg(g, kind, 2, rhi);
    tune(cfg);
    Twin T[2];
    for (auto& t : T)
    {
        t.pq = makeCalc(kind);
        t.live = toAdapter(m);
        t.st = wrapIn(t.live, wrap);
        t.clean = true;
        cfg.apply(*t.pq);
    }
    string log = cfg.str() + " | " + m.str() + " : ";
    const double rtol = 1e-8 + (kind == PDF ? 20 * cfg.pdf.prec : 0);
    const string nm = calcName(kind);
    bool diverged = false;
    auto compareTwins = [&](const string& what)
    {
        double rt = diverged ? rtol + (kind == PDF ? 20 * cfg.pdf.prec : 0) : 1e-11;
        string d = diffNum(configOf(*T[0].pq), configOf(*T[1].pq), diverged ? 1e-8 : 1e-12);
        checkTrue("C17:" + nm + " configuration differs from an object without rejected calls", d.empty(), d + what + log);
        if (!T[0].clean)  return;
        Results a = resultsOf(kind, *T[0].pq), b = resultsOf(kind, *T[1].pq);
        if (b.magnitude() > 0)  ctx().count("nonzero " + nm);
        ctx().distinct(b.hash());
        compareResults("C17:" + nm + " after " + what, a, b, rt, 1e-9, log);
        evaluated("twin without rejected calls");
    };
    auto evalBoth = [&]()
    {
        for (auto& t : T)
        {
            try  { t.pq->eval(t.st); }
            catch (std::exception& e)  { ctx().fail("C17:" + nm + " valid evaluation refused", string(e.what()) + " " + log); throw; }
            t.clean = true;
        }
    };
    string last = "start ";
    const int n = g.i(5, ctx().thorough() ? 24 : 12);
    for (int step = 0; step < n; ++step)
    {
        int what = g.i(0, 11);
        if (what == 0)
        {
            mutateCfg(g, cfg, 2, rhi);
            tune(cfg);
            for (auto& t : T)  cfg.apply(*t.pq);
            log += "config ";
        }
        else if (what == 1)
        {
            Rng h = g;
            string d = randomMaskOp(g, *T[0].pq, m);
            randomMaskOp(h, *T[1].pq, m);
            log += d;
        }
        else if (what == 2)
        {
            Model was = m;
            log += mutateModel(g, m, o, false);
            bool inplace = g.chance(0.5);
            uint64_t s = g.next();
            for (auto& t : T)
            {
                Rng h(s);
                if (inplace)  editInPlace(h, *t.live, was, m);
                else  { t.live = toAdapter(m); t.st = wrapIn(t.live, wrap); }
                t.clean = false;
            }
        }
        else if (what == 3)
        {
            if (canOptimize(kind))
            {
                sr::PQEvaluatorType e = g.chance(0.6) ? sr::OPTIMIZED : g.chance(0.6) ? sr::BASIC : sr::CHECK;
                for (auto& t : T)  { if (t.pq->getEvaluatorType() != e)  t.clean = false; t.pq->setEvaluatorType(e); }
                log += fmt("evaluator%d ", int(e));
            }
        }
        else if (what == 4)
        {
            for (auto& t : T)  { t.pq->setStructure(t.st); t.clean = false; }
            log += "setStructure ";
        }
        else if (what < 7)
        {
            log += "eval ";
            evalBoth();
            compareTwins("evaluation");
        }
        else if (what < 10)
        {
            // rejected calls on the first twin
            for (int k = g.i(1, 4); k > 0; --k)
            {
                Twin& t = T[0];
                vector<Call> calls = badCalls(g, kind, *t.pq, t.clean), sc = badStructureCalls(g, *t.live);
                calls.insert(calls.end(), sc.begin(), sc.end());
                Call c = calls[g.i(0, calls.size() - 1)];
                if (!sc.empty() && g.chance(0.1))  c = sc[0];
                string before = configOf(*t.pq) + tables(*t.pq) + stateOf(*t.live);
                Results R;
                bool res = t.clean && g.chance(0.7);
                if (res)  R = resultsOf(kind, *t.pq);
                string msg;
                bool thrown = raises(c.second, &msg);
                log += "!" + c.first + " ";
                last = c.first;
                ctx().distinct(hstr(nm + c.first));
                checkTrue("C17:" + nm + " invalid argument accepted by " + c.first, thrown, log);
                string d = diffStr(before, configOf(*t.pq) + tables(*t.pq) + stateOf(*t.live));
                checkTrue("C17:" + nm + " changed by rejected " + c.first, d.empty(), d + log);
                if (res)  compareResults("C17:" + nm + " results changed by rejected " + c.first, resultsOf(kind, *t.pq), R, 0, 0, log);
                evaluated("state after rejected call");
                ctx().count("rejected on " + nm);
            }
            compareTwins("rejected calls");
        }
        else
        {
            // evaluation that fails in its course
            int how = g.i(0, 3);
            Twin& t = T[0];
            string before;
            bool thrown = false;
            string msg;
            SPtr bad;
            if (how == 0)
            {
                // unknown type, fails only for scattering factors
                if (!pd || m.atoms.empty())  continue;
                Model x = m;
                x.atoms[g.i(0, x.atoms.size() - 1)].type = "Qq";
                bad = wrapIn(toAdapter(x), wrap);
                log += "!eval(unknown type) ";
            }
            else if (how == 1)
            {
                bad = wrapIn(faulty(m), wrap);
                log += "!eval(failing structure) ";
            }
            else
            {
                // the same component in both twins
                for (auto& x : T)
                {
                    if (how == 2 && kind == PDF && cfg.pdf.profile.size() && g.chance(0))  continue;
                    if (pd && (how == 2 || cfg.pdf.pwm != "jeong"))
                    {
                        auto& f = dynamic_cast<sr::ScatteringFactorTableOwner&>(*x.pq);
                        f.setScatteringFactorTable(boost::make_shared<FuseTable>(cfg.pdf.rad));
                    }
                    else if (pd && kind == PDF && (cfg.pdf.rad.size() + step) % 2)
                        dynamic_cast<sr::PDFCalculator&>(*x.pq).setPeakProfile(boost::make_shared<FuseProfile>(cfg.pdf.profile));
                    else if (pd)
                        dynamic_cast<sr::PeakWidthModelOwner&>(*x.pq).setPeakWidthModel(boost::make_shared<FuseWidth>());
                    else if (kind == OVERLAP)
                        dynamic_cast<sr::OverlapCalculator&>(*x.pq).setAtomRadiiTable(boost::make_shared<FuseRadii>());
                    cfg.apply(*x.pq);
                }
                bad = t.st;
                log += "!eval(failing component) ";
            }
            if (g.chance(0.5) && how > 0)
            {
                // fail in the course of a fast update
                evalBoth();
                Model was = m;
                string d = mutateModel(g, m, o, false);
                log += d;
                for (auto& x : T)  { x.live = toAdapter(m); x.st = wrapIn(x.live, wrap); x.clean = false; }
                bad = how == 1 ? wrapIn(faulty(m), wrap) : T[0].st;
            }
            before = configOf(*t.pq, false);
            string mask0 = attrsOf(*t.pq);
            if (how > 0)
            {
                fuse = Fuse();
                fuse.armed = true;
                fuse.left = long(std::pow(10.0, g.u(0, 3.2))) - 1;
            }
            try  { t.pq->eval(bad); }
            catch (std::exception& e)  { thrown = true; msg = e.what(); }
            fuse.armed = false;
            if (how == 0)  checkTrue("C17:" + nm + " unknown atom type accepted", thrown || cfg.pdf.custom.count("Qq") , log);
            if (thrown)  { ctx().count("failed evaluations " + nm); ctx().count(fmt("failed evaluations by fault %d", how)); evaluated("failed evaluation"); diverged = true; }
            else if (how > 0 && fuse.blown)  checkTrue("C17:" + nm + " error of user component concealed", false, log);
            log += thrown ? "failed " : "passed ";
            // evaluation of the other one which is to be compared
            SPtr bad1 = bad;
            if (!thrown && how == 1)
            {
                // passed: same structure for the twin
                T[1].pq->eval(bad);
                compareTwins("evaluation");
            }
            // valid calls work as usual
            if (g.chance(0.4))
            {
                mutateCfg(g, cfg, 2, rhi);
                tune(cfg);
                for (auto& x : T)  cfg.apply(*x.pq);
                log += "config ";
            }
            if (g.chance(0.2))  { for (auto& x : T)  x.pq->setStructure(x.st);  log += "setStructure "; }
            evalBoth();
            log += "eval ";
            Results a = resultsOf(kind, *T[0].pq);
            PairMask pm = readMask(*T[0].pq, T[0].st->countSites());
            PQPtr f = freshCalc(cfg, &pm);
            if (kind == DEBYE)  matchDebyeRange(*f, *T[0].pq, cfg.pdf, T[0].st);
            f->eval(T[0].st);
            double rt = 1e-8 + (kind == PDF ? 20 * cfg.pdf.prec : 0);
            compareResults("C17:" + nm + " after failed evaluation", a, resultsOf(kind, *f), rt, 1e-9, log);
            evaluated("fresh calculator after failed evaluation");
            // the Debye calculator may retain a distance limit
            if (kind == DEBYE && T[0].pq->getDoubleAttr("extendedrmax") != T[1].pq->getDoubleAttr("extendedrmax"))
            {
                ctx().count("retained Debye limit differs");
                break;
            }
            compareTwins("failed evaluation");
        }
    }
    bool lim = kind == DEBYE && T[0].pq->getDoubleAttr("extendedrmax") != T[1].pq->getDoubleAttr("extendedrmax");
    evalBoth();
    if (!lim)  compareTwins("final evaluation");
    ctx().sample(log);
}

// merging of partial values with rejected ones in between
static void merging(Rng& g)
{
    const int kind = g.i(0, NCALC - 1);
    const string nm = calcName(kind);
    GenOpt o;
    o.types = typesFor(kind);
    o.nmin = 1;
    o.nmax = 8;
    o.maximages = 16;
    o.latlo = 3.5;
    Model m = genModel(g, genKind(g), o);
    AnyCfg cfg = genAnyCfg(g, kind, 2, 4);
    cfg.pdf.maxext = std::min(cfg.pdf.maxext, 2.5);
    cfg.pdf.rstep = std::max(cfg.pdf.rstep, 0.03);
    if (cfg.pdf.rad == "electron")  cfg.pdf.rad = "xray";
    if (kind == DEBYE)  cfg.pdf.qmax = std::min(cfg.pdf.qmax, 10.0);
    SPtr st = toAdapter(m);
    const int ncpu = g.i(1, 5);
    auto make = [&]()
    {
        PQPtr p = makeCalc(kind);
        p->setEvaluatorType(sr::BASIC);
        cfg.apply(*p);
        return p;
    };
    string log = cfg.str() + " | " + m.str() + fmt(" ncpu %d : ", ncpu);
    vector<string> data;
    for (int k = 0; k < ncpu; ++k)
    {
        PQPtr w = make();
        w->setupParallelRun(k, ncpu);
        if (g.chance(0.2))
        {
            // refused split must not replace the valid one
            checkTrue("C17:" + nm + " invalid ncpu accepted", raises([&]() { w->setupParallelRun(g.i(0, 2), -g.i(0, 3)); }), log);
            evaluated("refused split");
        }
        w->eval(st);
        data.push_back(w->getParallelData());
    }
    PQPtr serial = make(), master = make();
    serial->eval(st);
    if (g.chance(0.2))
    {
        checkTrue("C17:" + nm + " invalid ncpu accepted", raises([&]() { serial->setupParallelRun(0, 0); }), log);
        serial->eval(st);
    }
    Results want = resultsOf(kind, *serial);
    master->setStructure(st);
    auto sizeddata = [&](int n)
    {
        sr::QuantityType v(n, 0.5);
        std::ostringstream os(std::ios::binary);
        diffpy::serialization::oarchive oa(os, std::ios::binary);
        const sr::QuantityType& cv = v;
        oa << cv;
        return os.str();
    };
    for (int k = 0; k < ncpu; ++k)
    {
        for (int b = g.chance(0.6) ? g.i(1, 3) : 0; b > 0; --b)
        {
            string d = data[k];
            int how = g.i(0, 3);
            if (how == 0)  d = d.substr(0, g.i(0, int(d.size()) - 1));
            else if (how == 1)
            {
                d = string(g.i(0, 40), char(g.i(0, 255)));
                // the archive library asks for the length it reads, which the sanitizer does not refuse with an exception
                if (sanitized())  d = d.substr(0, 7);
            }
            else if (how == 2 && kind != BONDS)
            {
                int n = master->value().size() + g.i(1, 5);
                if (kind == OVERLAP && n % 6 == 0)  n += 1;
                d = sizeddata(n);
            }
            else d = "";
            string before = configOf(*master);
            sr::QuantityType v = master->value();
            checkTrue("C17:" + nm + " invalid partial data accepted", raises([&]() { master->mergeParallelData(d, ncpu); }), fmt("how %d ", how) + log);
            checkTrue("C17:" + nm + " value changed by rejected partial data", v == master->value(), log);
            string df = diffStr(before, configOf(*master));
            checkTrue("C17:" + nm + " changed by rejected partial data", df.empty(), df + log);
            evaluated("rejected partial data");
        }
        string msg;
        bool failed = raises([&]() { master->mergeParallelData(data[k], ncpu); }, &msg);
        checkTrue("C17:" + nm + " valid partial data refused after rejected ones", !failed, msg + log);
    }
    Results got = resultsOf(kind, *master);
    compareResults("C17:" + nm + " merged after rejected data", got, want, 1e-8, 1e-9, log);
    checkTrue("C17:" + nm + " excessive partial data accepted", raises([&]() { master->mergeParallelData(g.pick(data), ncpu); }), log);
    compareResults("C17:" + nm + " merged changed by refused data", resultsOf(kind, *master), got, 0, 0, log);
    evaluated("merging with rejected data");
    master->eval(st);
    compareResults("C17:" + nm + " evaluation after merging", resultsOf(kind, *master), want, 1e-8, 1e-9, log);
    ctx().distinct(want.hash());
}

// stand-alone objects
static void standalone(Rng& g)
{
    // lattices
    sr::Lattice L;
    string log;
    for (int k = g.i(0, 3); k > 0; --k)
    {
        Lat l = genLat(g, 2, 9);
        L.setLatPar(l.a, l.b, l.c, l.al, l.be, l.ga);
        log += fmt("setLatPar(%.9g,%.9g,%.9g,%.9g,%.9g,%.9g) ", l.a, l.b, l.c, l.al, l.be, l.ga);
        if (g.chance(0.5))
        {
            M3 R = randomRotation(g);
            sr::R3::Matrix b = sr::R3::prod(L.base(), toR3(R));
            L.setLatBase(sr::R3::row(b, 0), sr::R3::row(b, 1), sr::R3::row(b, 2));
            log += "setLatBase ";
        }
    }
    auto lstr = [](const sr::Lattice& x)
    {
        string r = fmt("%.17g %.17g %.17g %.17g %.17g %.17g ", x.a(), x.b(), x.c(), x.alpha(), x.beta(), x.gamma());
        r += fmt("%.17g %.17g %.17g %.17g %.17g %.17g ", x.ar(), x.br(), x.cr(), x.alphar(), x.betar(), x.gammar());
        r += fmt("%.17g %.17g %.17g %.17g %.17g %.17g ", x.cosalpha(), x.cosbeta(), x.cosgamma(), x.sinalpha(), x.sinbeta(), x.singamma());
        r += fmt("%.17g %.17g %.17g %.17g %.17g %.17g ", x.cosalphar(), x.cosbetar(), x.cosgammar(), x.sinalphar(), x.sinbetar(), x.singammar());
        auto mat = [&](const sr::R3::Matrix& m)  { for (int i = 0; i < 9; ++i)  r += fmt("%.17g ", m(i / 3, i % 3)); };
        auto vec = [&](const sr::R3::Vector& v)  { for (int i = 0; i < 3; ++i)  r += fmt("%.17g ", v[i]); };
        mat(x.base()); mat(x.recbase()); mat(x.metrics());
        vec(x.va()); vec(x.vb()); vec(x.vc()); vec(x.var()); vec(x.vbr()); vec(x.vcr());
        sr::R3::Vector u(0.3, -1.2, 2.1);
        vec(x.cartesian(u)); vec(x.fractional(u)); r += fmt("%.17g ", x.norm(u));
        sr::R3::Matrix U;
        for (int i = 0; i < 9; ++i)  U(i / 3, i % 3) = 0.01 * (1 + i / 3 + i % 3);
        mat(x.cartesianMatrix(U)); mat(x.fractionalMatrix(U));
        r += fmt("%.17g %.17g ", x.volume(), x.ucMaxDiagonalLength());
        return r;
    };
    auto vec = [&](double s)  { return sr::R3::Vector(s * g.gauss(), s * g.gauss(), s * g.gauss()); };
    for (int k = g.i(1, 4); k > 0; --k)
    {
        sr::R3::Vector a = vec(3), b = vec(3), c = vec(3);
        const char* how = "";
        switch (g.i(0, 4))
        {
            case 0:  c = a * g.u(-2, 2) + b * g.u(-2, 2); how = "coplanar"; break;
            case 1:  b = a * g.u(-2, 2); how = "parallel"; break;
            case 2:  { sr::R3::Vector z(0.0, 0.0, 0.0); (g.chance(0.3) ? a : g.chance(0.5) ? b : c) = z; how = "zero"; break; }
            case 3:  a = b; how = "equal"; break;
            default:
            {
                // left-handed
                sr::R3::Matrix t;
                sr::R3::row(t, 0) = a; sr::R3::row(t, 1) = b; sr::R3::row(t, 2) = c;
                double d = sr::R3::determinant(t);
                if (std::fabs(d) < 1e-3)  continue;
                if (d > 0)  std::swap(a, b);
                how = "left-handed";
            }
        }
        string before = lstr(L);
        checkTrue(string("C17:lattice base accepted ") + how, raises([&]() { L.setLatBase(a, b, c); }), log);
        string d = diffStr(before, lstr(L));
        checkTrue("C17:lattice changed by rejected base", d.empty(), d + log + how);
        evaluated("lattice after rejected base");
        ctx().count(string("rejected lattice base ") + how);
        ctx().distinct(hstr(before + how));
    }
    // valid calls afterwards
    Lat l = genLat(g, 2, 9);
    sr::Lattice F;
    F.setLatBase(L.va(), L.vb(), L.vc());
    sr::Lattice K = L;
    K.setLatPar(l.a, l.b, l.c, l.al, l.be, l.ga);
    F.setLatPar(l.a, l.b, l.c, l.al, l.be, l.ga);
    for (int i = 0; i < 9; ++i)  checkNear("C17:lattice after rejected base", K.base()(i / 3, i % 3), F.base()(i / 3, i % 3), 1e-7, 1e-7, log);

    // radii
    sr::AtomRadiiTablePtr t = sr::AtomRadiiTable::createByType("constant");
    for (int k = g.i(0, 4); k > 0; --k)  t->setCustom(g.pick(vector<string>{"C", "Na", "O", "Fe3+"}), g.u(0, 2));
    {
        string good, bad;
        for (int k = g.i(0, 3); k > 0; --k)  good += g.pick(vector<string>{"C", "Na", "O", "Zn", "Fe3+"}) + fmt(":%.6g,", g.u(0, 2));
        bad = g.pick(vector<string>{"C", "O:", "Na:x", "Fe:-", "Zn 1.5", ":", "K:,", "Cl:e5"});
        string s = g.chance(0.5) ? good + bad : bad + "," + good;
        string before = tableStr(t);
        checkTrue("C17:invalid radii accepted", raises([&]() { t->fromString(s); }), s);
        string d = diffStr(before, tableStr(t));
        checkTrue("C17:radii changed by rejected string", d.empty(), d + s);
        evaluated("radii after rejected string");
        ctx().distinct(hstr(s));
        if (!good.empty())
        {
            t->fromString(good);
            sr::AtomRadiiTablePtr u = sr::AtomRadiiTable::createByType("constant");
            u->fromString(good);
            for (auto& x : u->getAllCustom())  checkTrue("C17:radii after rejected string", t->lookup(x.first) == x.second, good);
        }
    }
    // bond valence parameters
    {
        sr::BVParam p("Na", 1, "Cl", -1, g.u(1, 2), g.u(0.3, 0.5), "x");
        if (g.chance(0.3))  p = sr::BVParam();
        static const vector<string> words = {"Fe", "3", "O", "-2", "1.759", "0.37", "a"};
        string line;
        int cut = g.i(0, 6);
        bool garble = g.chance(0.5) && cut != 0 && cut != 2 && cut != 6;
        for (int k = 0; k < (garble ? 7 : cut); ++k)  line += (garble && k == cut ? g.pick(vector<string>{"x", "?", "--", "."}) : words[k]) + " ";
        string before = bvStr(p);
        checkTrue("C17:invalid parameter line accepted", raises([&]() { p.setFromCifLine(line); }), line);
        checkTrue("C17:parameters changed by rejected line", before == bvStr(p), before + " " + bvStr(p) + line);
        p.setFromCifLine("Fe 3 O -2 1.759 0.37 a -");
        checkTrue("C17:parameters after rejected line", bvStr(p).find("Fe+3 O-2 1.75") == 0, bvStr(p));
        evaluated("parameters after rejected line");
        ctx().distinct(hstr(line));
    }
    // scattering factors
    {
        sr::ScatteringFactorTablePtr s = sr::ScatteringFactorTable::createByType(g.pick(vector<string>{"xray", "neutron", "electron", "electronnumber"}));
        for (int k = g.i(0, 3); k > 0; --k)  s->setCustomAs(g.pick(vector<string>{"C", "Na", "Zz"}), g.pick(vector<string>{"O", "Fe"}), g.u(2, 8), 1.0);
        auto st = [&]()
        {
            auto cs = s->getCustomSymbols();
            string r = fmt("%zu ", cs.size());
            for (const char* x : {"C", "Na", "Zz", "O", "Qq"})
            {
                r += string(x) + (cs.count(x) ? "* " : " ");
                try  { r += fmt("%.17g ", s->lookup(x, 1.5)); }
                catch (std::exception&)  { r += "none "; }
            }
            return r;
        };
        for (int k = g.i(1, 3); k > 0; --k)
        {
            string before = st();
            string x = g.pick(vector<string>{"C", "Na", "Zz", "Qq"});
            uint64_t tk = 0;
            (void) tk;
            int how = g.i(0, 3);
            bool thrown = true;
            if (how == 0)  thrown = raises([&]() { s->setCustomAs(x, "Qq", 3.0, 1.0); });
            else if (how == 1)  thrown = raises([&]() { s->setCustomAs(x, "", 3.0, 1.0); });
            else if (how == 2)  thrown = raises([&]() { s->lookup("Qq", 1.0); });
            else  thrown = raises([&]() { s->standardLookup("Xx9", 1.0); });
            checkTrue(fmt("C17:unknown symbol accepted %d", how), thrown, s->type() + x);
            string d = diffStr(before, st());
            checkTrue("C17:table changed by rejected symbol", d.empty(), d + s->type() + fmt(" %d", how));
            evaluated("table after rejected symbol");
        }
    }
    // empty structure refuses any index
    SPtr e = sr::emptyStructureAdapter();
    for (int i : {0, -1, 5})
    {
        checkTrue("C17:site of the empty structure", raises([&]() { e->siteAtomType(i); }) && raises([&]() { e->siteCartesianPosition(i); }) &&
                raises([&]() { e->siteMultiplicity(i); }) && raises([&]() { e->siteOccupancy(i); }) && raises([&]() { e->siteAnisotropy(i); }) &&
                raises([&]() { e->siteCartesianUij(i); }), "");
        checkTrue("C17:empty structure", e->countSites() == 0 && e->totalOccupancy() == 0, "");
    }
}

// attributes of a component that clash with those of its owner
struct ClashEnvelope : public sr::PDFEnvelope
{
    double x;
    string nm;
    ClashEnvelope(const string& n) : x(1), nm(n)  { this->registerDoubleAttribute(n, this, &ClashEnvelope::get, &ClashEnvelope::set); }
    double get() const  { return x; }
    void set(double v)  { x = v; }
    sr::PDFEnvelopePtr create() const  { return boost::make_shared<ClashEnvelope>(nm); }
    sr::PDFEnvelopePtr clone() const  { return boost::make_shared<ClashEnvelope>(nm); }
    const string& type() const  { static const string t = "clash"; return t; }
    double operator()(const double& r) const  { return 1; }
};
static void clash(Rng& g)
{
    PQPtr pq = makeCalc(g.chance(0.5) ? PDF : DEBYE);
    auto& o = dynamic_cast<sr::PDFEnvelopeOwner&>(*pq);
    string nm = g.pick(vector<string>{"rmin", "rmax", "qmax", "rstep", "scale", "delta1", "qdamp"});
    boost::shared_ptr<ClashEnvelope> e = boost::make_shared<ClashEnvelope>(nm);
    double v0 = pq->getDoubleAttr(nm);
    const double v1 = nm == "qmax" ? 0.25 * v0 + 1 : v0 + 1.5;
    o.addEnvelope(e);
    checkTrue("C17:ambiguous attribute accepted", raises([&]() { pq->setDoubleAttr(nm, v1); }), nm);
    checkTrue("C17:component changed by ambiguous attribute", e->x == 1, nm);
    checkTrue("C17:ambiguous attribute readable", raises([&]() { pq->getDoubleAttr(nm); }), nm);
    o.popEnvelope(e);
    checkNear("C17:owner changed by ambiguous attribute", pq->getDoubleAttr(nm), v0, 0, 0, nm);
    pq->setDoubleAttr(nm, v1);
    checkNear("C17:attribute after rejected write", pq->getDoubleAttr(nm), v1, 1e-15, 0, nm);
    evaluated("ambiguous attribute");
    ctx().distinct(hstr(nm) + (dynamic_cast<sr::PDFCalculator*>(pq.get()) ? 1 : 0));
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, [](long, Rng& g)
    {
        int what = g.i(0, 19);
        if (what < 12)  history(g);
        else if (what < 15)  merging(g);
        else if (what < 19)  standalone(g);
        else  clash(g);
    });
}
