// C13: results depend only on the current configuration, however it was reached
#include "states.hpp"
#include <diffpy/serialization.ipp>
using namespace dpv;

static const vector<string> widths = {"jeong", "constant", "debye-waller"};
static const vector<string> profiles = {"gaussian", "croppedgaussian"};
static const vector<string> baselines = {"linear", "zero"};
static const vector<string> envelopes = {"scale", "qresolution", "sphericalshape", "stepcut"};

struct Side
{
    int kind;
    PQPtr pq;
    AnyCfg cfg;
    sr::PDFCalculator* pdf()  { return dynamic_cast<sr::PDFCalculator*>(pq.get()); }
    sr::DebyePDFCalculator* debye()  { return dynamic_cast<sr::DebyePDFCalculator*>(pq.get()); }
    sr::PeakWidthModelOwner* pwo()  { return dynamic_cast<sr::PeakWidthModelOwner*>(pq.get()); }
    sr::ScatteringFactorTableOwner* sfo()  { return dynamic_cast<sr::ScatteringFactorTableOwner*>(pq.get()); }
    sr::PDFEnvelopeOwner* evo()  { return dynamic_cast<sr::PDFEnvelopeOwner*>(pq.get()); }
};

struct Outcome { string what; Results res; double limit, step; };

struct Hist
{
    Side s[2];
    int nsides;
    Model m;
    GenOpt o;
    APtr live;
    SPtr st;
    int wrap;
    double rhi;
    bool typesok;
    string log;
    vector<Outcome> out;

    // settings of components shared by both sides
    void share(int from)
    {
        if (nsides < 2)  return;
        Side &a = s[from], &b = s[1 - from];
        PdfCfg &p = a.cfg.pdf, &q = b.cfg.pdf;
        if (a.pwo() && b.pwo() && a.pwo()->getPeakWidthModel() == b.pwo()->getPeakWidthModel())
        {
            q.pwm = p.pwm; q.delta1 = p.delta1; q.delta2 = p.delta2; q.qbroad = p.qbroad; q.qbsep = p.qbsep; q.width = p.width;
        }
        if (a.sfo() && b.sfo() && a.sfo()->getScatteringFactorTable() == b.sfo()->getScatteringFactorTable())  { q.rad = p.rad; q.custom = p.custom; }
        if (a.pdf() && b.pdf() && a.pdf()->getPeakProfile() == b.pdf()->getPeakProfile())  { q.profile = p.profile; q.prec = p.prec; }
        if (a.evo() && b.evo())
        {
            auto ta = a.evo()->usedEnvelopeTypes(), tb = b.evo()->usedEnvelopeTypes();
            for (auto& t : ta)  if (tb.count(t) && a.evo()->getEnvelopeByType(t) == b.evo()->getEnvelopeByType(t))  envVal(b.cfg.pdf, t) = envVal(a.cfg.pdf, t);
        }
        if (a.kind == OVERLAP && b.kind == OVERLAP)
        {
            auto &x = dynamic_cast<sr::OverlapCalculator&>(*a.pq), &y = dynamic_cast<sr::OverlapCalculator&>(*b.pq);
            if (x.getAtomRadiiTable() == y.getAtomRadiiTable())  { b.cfg.radii = a.cfg.radii; b.cfg.rdefault = a.cfg.rdefault; }
        }
        if (a.kind == BVS && b.kind == BVS)
        {
            auto &x = dynamic_cast<sr::BVSCalculator&>(*a.pq), &y = dynamic_cast<sr::BVSCalculator&>(*b.pq);
            if (x.getBVParamTable() == y.getBVParamTable())  b.cfg.bv = a.cfg.bv;
        }
    }
    static double& envVal(PdfCfg& p, const string& t)
    {
        return t == "scale" ? p.scale : t == "qresolution" ? p.qdamp : t == "sphericalshape" ? p.spd : p.stepcut;
    }
    static bool& envHas(PdfCfg& p, const string& t)
    {
        return t == "scale" ? p.hasscale : t == "qresolution" ? p.hasqdamp : t == "sphericalshape" ? p.hassphere : p.hasstep;
    }
    static string envAttr(const string& t)
    {
        return t == "scale" ? "scale" : t == "qresolution" ? "qdamp" : t == "sphericalshape" ? "spdiameter" : "stepcut";
    }
    static void defaultWidth(PdfCfg& p, const string& t)
    {
        p.pwm = t;
        p.delta1 = p.delta2 = p.qbroad = p.qbsep = p.width = 0;
    }

    string scalar(Side& a, Rng& g)
    {
        PdfCfg& p = a.cfg.pdf;
        AnyCfg n = genAnyCfg(g, a.kind, 2, rhi);
        PdfCfg& x = n.pdf;
        bool attr = g.chance(0.5), tiny = g.chance(0.25);
        double f = 1 + (g.chance(0.5) ? 1 : -1) * std::pow(10.0, g.u(-6, -1.5));
        auto val = [&](double old, double fresh)  { return tiny && old > 0 ? old * f : fresh; };
        if (a.kind != PDF && a.kind != DEBYE)
        {
            bool lo = g.chance(0.4);
            if (a.kind == BVS && g.chance(0.3))
            {
                a.cfg.vprec = val(a.cfg.vprec, n.vprec);
                if (attr)  a.pq->setDoubleAttr("valenceprecision", a.cfg.vprec);
                else  dynamic_cast<sr::BVSCalculator&>(*a.pq).setValencePrecision(a.cfg.vprec);
                return "valenceprecision ";
            }
            if (lo)
            {
                a.cfg.rmin = std::min(val(a.cfg.rmin, n.rmin), a.cfg.rmax);
                if (attr)  a.pq->setDoubleAttr("rmin", a.cfg.rmin);
                else  a.pq->setRmin(a.cfg.rmin);
            }
            else
            {
                a.cfg.rmax = std::max(val(a.cfg.rmax, n.rmax), a.cfg.rmin);
                if (attr)  a.pq->setDoubleAttr("rmax", a.cfg.rmax);
                else  a.pq->setRmax(a.cfg.rmax);
            }
            return lo ? "rmin " : "rmax ";
        }
        string nm;
        double v = 0;
        std::function<void(double)> set;
        sr::PDFCalculator* c = a.pdf();
        sr::DebyePDFCalculator* d = a.debye();
        switch (g.i(0, a.kind == DEBYE ? 8 : 6))
        {
            case 0:  nm = "rmin"; v = p.rmin = std::min(val(p.rmin, x.rmin), p.rmax); set = [&](double y) { a.pq->setRmin(y); }; break;
            case 1: case 2:  nm = "rmax"; v = p.rmax = std::min(rhi, std::max(val(p.rmax, x.rmax), p.rmin)); set = [&](double y) { a.pq->setRmax(y); }; break;
            case 3:  nm = "rstep"; v = p.rstep = std::max(0.03, val(p.rstep, x.rstep)); set = [&](double y) { c ? c->setRstep(y) : d->setRstep(y); }; break;
            case 4:  nm = "qmin"; v = p.qmin = val(p.qmin, x.qmin); set = [&](double y) { c ? c->setQmin(y) : d->setQmin(y); }; break;
            case 5:  nm = "qmax"; v = val(p.qmax, x.qmax); if (d)  v = std::min(std::max(v, 3.0), 10.0); p.qmax = v; set = [&](double y) { c ? c->setQmax(y) : d->setQmax(y); }; break;
            case 6:  nm = "maxextension"; v = p.maxext = std::min(2.5, val(p.maxext, x.maxext)); set = [&](double y) { c ? c->setMaxExtension(y) : d->setMaxExtension(y); }; break;
            case 7:
                if (g.chance(0.4))  { d->setOptimumQstep(); p.optimum = true; return "optimumqstep "; }
                nm = "qstep"; v = p.qstep = val(p.qstep, x.qstep); p.optimum = false; set = [&](double y) { d->setQstep(y); }; break;
            default:  nm = "debyeprecision"; v = p.debyeprec = val(p.debyeprec, x.debyeprec); set = [&](double y) { d->setDebyePrecision(y); }; break;
        }
        if (attr)  a.pq->setDoubleAttr(nm, v);
        else  set(v);
        return nm + fmt("=%.10g ", v);
    }
    string width(Side& a, Rng& g, Side* other)
    {
        PdfCfg& p = a.cfg.pdf;
        int what = g.i(0, 9);
        if (what == 0)
        {
            string t = g.pick(widths);
            a.pwo()->setPeakWidthModelByType(t);
            defaultWidth(p, t);
            return "widthtype " + t + " ";
        }
        if (what < 3 || (what < 5 && !other))
        {
            // another object with settings of its own
            genWidth(g, p);
            sr::PeakWidthModelPtr w = sr::PeakWidthModel::createByType(p.pwm);
            fillWidth(p, *w);
            a.pwo()->setPeakWidthModel(w);
            return "widthmodel " + p.pwm + " ";
        }
        if (what < 5)
        {
            a.pwo()->setPeakWidthModel(other->pwo()->getPeakWidthModel());
            PdfCfg& q = other->cfg.pdf;
            p.pwm = q.pwm; p.delta1 = q.delta1; p.delta2 = q.delta2; p.qbroad = q.qbroad; p.qbsep = q.qbsep; p.width = q.width;
            ctx().count("components shared");
            return "sharedwidth ";
        }
        if (p.pwm == "debye-waller")  return "";
        string nm = "width";
        double v = g.u(0.05, 0.4);
        if (p.pwm == "constant")
        {
            // by width or mean square displacement
            int k = g.i(0, 2);
            double u = g.u(0.001, 0.01);
            sr::ConstantPeakWidth* c = dynamic_cast<sr::ConstantPeakWidth*>(a.pwo()->getPeakWidthModel().get());
            if (k == 1)  { g.chance(0.5) ? a.pq->setDoubleAttr("uisowidth", u) : c->setDoubleAttr("uisowidth", u); p.width = 2 * std::sqrt(2 * std::log(2.0)) * std::sqrt(2 * u); return "uisowidth "; }
            if (k == 2)  { g.chance(0.5) ? a.pq->setDoubleAttr("bisowidth", 70 * u) : c->setDoubleAttr("bisowidth", 70 * u); p.width = 2 * std::sqrt(2 * std::log(2.0)) * std::sqrt(2 * 70 * u / (8 * M_PI * M_PI)); return "bisowidth "; }
            p.width = v;
        }
        else switch (g.i(0, 3))
        {
            case 0:  nm = "delta1"; v = p.delta1 = g.chance(0.3) ? 0 : g.u(0, 0.9); break;
            case 1:  nm = "delta2"; v = p.delta2 = g.chance(0.3) ? 0 : g.u(0, 2); break;
            case 2:  nm = "qbroad"; v = p.qbroad = g.chance(0.3) ? 0 : g.u(0, 0.1); break;
            default:  nm = "qbroad_seperable"; v = p.qbsep = g.chance(0.3) ? 0 : g.u(0, 0.08); break;
        }
        if (g.chance(0.4))  a.pq->setDoubleAttr(nm, v);
        else  a.pwo()->getPeakWidthModel()->setDoubleAttr(nm, v);
        return nm + " ";
    }
    static void genWidth(Rng& g, PdfCfg& p)
    {
        defaultWidth(p, g.pick(widths));
        if (p.pwm == "constant")  p.width = g.u(0.05, 0.4);
        if (p.pwm == "jeong")  { p.delta1 = g.u(0, 0.9); p.delta2 = g.u(0, 2); p.qbroad = g.u(0, 0.1); p.qbsep = g.chance(0.5) ? 0 : g.u(0, 0.08); }
    }
    static void fillWidth(const PdfCfg& p, sr::PeakWidthModel& w)
    {
        if (p.pwm == "constant")  w.setDoubleAttr("width", p.width);
        if (p.pwm == "jeong")
        {
            w.setDoubleAttr("delta1", p.delta1);
            w.setDoubleAttr("delta2", p.delta2);
            w.setDoubleAttr("qbroad", p.qbroad);
            w.setDoubleAttr("qbroad_seperable", p.qbsep);
        }
    }
    string profile(Side& a, Rng& g, Side* other)
    {
        sr::PDFCalculator* c = a.pdf();
        if (!c)  return "";
        PdfCfg& p = a.cfg.pdf;
        switch (g.i(0, 4))
        {
            case 0:  p.profile = g.pick(profiles); c->setPeakProfileByType(p.profile); return "profiletype ";      // keeps precision
            case 1:
            {
                p.profile = g.pick(profiles);
                sr::PeakProfilePtr f = sr::PeakProfile::createByType(p.profile);
                p.prec = g.pick({3.33e-6, 1e-12, 1e-5, 1e-8});
                f->setPrecision(p.prec);
                c->setPeakProfile(f);
                return "profile ";
            }
            case 2:
                if (!other || !other->pdf())  return "";
                c->setPeakProfile(other->pdf()->getPeakProfile());
                p.profile = other->cfg.pdf.profile; p.prec = other->cfg.pdf.prec;
                ctx().count("components shared");
                return "sharedprofile ";
            default:
                p.prec = g.pick({3.33e-6, 1e-12, 1e-5, 1e-8});
                if (g.chance(0.5))  c->setDoubleAttr("peakprecision", p.prec);
                else  c->getPeakProfile()->setPrecision(p.prec);
                return "precision ";
        }
    }
    string baseline(Side& a, Rng& g)
    {
        sr::PDFCalculator* c = a.pdf();
        if (!c)  return "";
        PdfCfg& p = a.cfg.pdf;
        if (p.baseline == "linear" && g.chance(0.2))
        {
            // gets overwritten by evaluation
            c->getBaseline()->setDoubleAttr("slope", g.u(-5, 1));
            return "slope ";
        }
        p.baseline = g.pick(baselines);
        if (g.chance(0.5))  c->setBaselineByType(p.baseline);
        else  c->setBaseline(sr::PDFBaseline::createByType(p.baseline));
        return "baseline " + p.baseline + " ";
    }
    string envelope(Side& a, Rng& g, Side* other)
    {
        sr::PDFEnvelopeOwner& e = *a.evo();
        PdfCfg& p = a.cfg.pdf;
        string t = g.pick(envelopes);
        auto dflt = [&]()  { envVal(p, t) = t == "scale" ? 1 : 0; };
        switch (g.i(0, 8))
        {
            case 0:  e.addEnvelopeByType(t); envHas(p, t) = true; dflt(); return "+" + t + " ";
            case 1:
            {
                sr::PDFEnvelopePtr x = sr::PDFEnvelope::createByType(t);
                double v = g.u(0.05, 5);
                x->setDoubleAttr(envAttr(t), v);
                e.addEnvelope(x);
                envHas(p, t) = true;
                envVal(p, t) = v;
                return "+" + t + fmt("(%.6g) ", v);
            }
            case 2:
                if (!other || !other->evo() || !other->evo()->usedEnvelopeTypes().count(t))  return "";
                e.addEnvelope(other->evo()->getEnvelopeByType(t));
                envHas(p, t) = true;
                envVal(p, t) = envVal(other->cfg.pdf, t);
                ctx().count("components shared");
                return "sharedenvelope ";
            case 3:  e.popEnvelopeByType(t); envHas(p, t) = false; return "-" + t + " ";
            case 4:
                if (!e.usedEnvelopeTypes().count(t))  return "";
                e.popEnvelope(e.getEnvelopeByType(t));
                envHas(p, t) = false;
                return "-" + t + " ";
            case 5:
                if (!g.chance(0.3))  return "";
                e.clearEnvelopes();
                for (auto& x : envelopes)  envHas(p, x) = false;
                return "clearEnvelopes ";
            default:
            {
                if (!envHas(p, t))  return "";
                double v = t == "qresolution" ? g.u(0, 0.3) : g.u(0, 6);
                if (g.chance(0.5))  a.pq->setDoubleAttr(envAttr(t), v);
                else  e.getEnvelopeByType(t)->setDoubleAttr(envAttr(t), v);
                envVal(p, t) = v;
                return envAttr(t) + " ";
            }
        }
    }
    string table(Side& a, Rng& g, Side* other)
    {
        sr::ScatteringFactorTableOwner& f = *a.sfo();
        PdfCfg& p = a.cfg.pdf;
        static const vector<string> rads = {"xray", "neutron", "electronnumber"};
        switch (g.i(0, 8))
        {
            case 0:  if (p.custom.empty() || g.chance(0.4))  p.rad = g.pick(rads); f.setScatteringFactorTableByType(p.rad == "xray" && g.chance(0.5) ? "X" : p.rad); p.custom.clear(); return "sft " + p.rad + " ";
            case 1:
            {
                p.rad = g.pick(rads);
                p.custom.clear();
                sr::ScatteringFactorTablePtr t = sr::ScatteringFactorTable::createByType(p.rad);
                if (g.chance(0.5))
                {
                    double v = g.u(2, 9);
                    t->setCustomAs("O", "C", v);
                    p.custom["O"] = std::make_pair(string("C"), v);
                }
                f.setScatteringFactorTable(t);
                return "table " + p.rad + " ";
            }
            case 2: case 3:
                if (!other || !other->sfo())  return "";
                f.setScatteringFactorTable(other->sfo()->getScatteringFactorTable());
                p.rad = other->cfg.pdf.rad; p.custom = other->cfg.pdf.custom;
                ctx().count("components shared");
                return "sharedtable ";
            case 4:
            {
                string x = g.pick(vector<string>{"C", "Na", "O"});
                f.getScatteringFactorTable()->resetCustom(x);
                p.custom.erase(x);
                return "resetCustom " + x + " ";
            }
            case 5:  f.getScatteringFactorTable()->resetAll(); p.custom.clear(); return "resetAll ";
            default:
            {
                string x = g.pick(vector<string>{"C", "Na", "O"}), y = g.pick(vector<string>{"C", "O", "Fe"});
                double v = g.u(2, 9);
                f.getScatteringFactorTable()->setCustomAs(x, y, v);
                p.custom[x] = std::make_pair(y, v);
                return fmt("custom %s=%s*%.6g ", x.c_str(), y.c_str(), v);
            }
        }
    }
    string special(Side& a, Rng& g, Side* other)
    {
        switch (a.kind)
        {
            case BONDS:
            {
                sr::BondCalculator& c = dynamic_cast<sr::BondCalculator&>(*a.pq);
                if (g.chance(0.4))  { c.filterOff(); a.cfg.cones.clear(); return "filterOff "; }
                V3 u = v3(g.gauss(), g.gauss(), g.gauss());
                double d = g.u(20, 120);
                c.filterCone(toR3(u), d);
                a.cfg.cones.push_back(std::make_pair(u, d));
                return "filterCone ";
            }
            case BVS:
            {
                sr::BVSCalculator& c = dynamic_cast<sr::BVSCalculator&>(*a.pq);
                if (g.chance(0.2))
                {
                    if (other && other->kind == BVS)
                    {
                        c.setBVParamTable(dynamic_cast<sr::BVSCalculator&>(*other->pq).getBVParamTable());
                        a.cfg.bv = other->cfg.bv;
                        ctx().count("components shared");
                        return "sharedbv ";
                    }
                    c.setBVParamTable(boost::make_shared<sr::BVParametersTable>());
                    a.cfg.bv.clear();
                    return "newbv ";
                }
                static const vector<BvEntry> es = {{"Na", "Cl", 1, -1, 0, 0}, {"Fe", "O", 3, -2, 0, 0}, {"Fe", "O", 2, -2, 0, 0}, {"Pb", "Cl", 2, -1, 0, 0}};
                BvEntry e = g.pick(es);
                auto same = [&](const BvEntry& x)  { return x.a0 == e.a0 && x.a1 == e.a1 && x.v0 == e.v0 && x.v1 == e.v1; };
                a.cfg.bv.erase(std::remove_if(a.cfg.bv.begin(), a.cfg.bv.end(), same), a.cfg.bv.end());
                if (g.chance(0.3))
                {
                    c.getBVParamTable()->resetCustom(e.a0, e.v0, e.a1, e.v1);
                    // the generated ones may be in the other order
                    return "resetbv ";
                }
                e.ro = g.u(1.4, 2.4);
                e.b = g.u(0.3, 0.5);
                c.getBVParamTable()->setCustom(e.a0, e.v0, e.a1, e.v1, e.ro, e.b);
                a.cfg.bv.push_back(e);
                return "custombv ";
            }
            case OVERLAP:
            {
                sr::OverlapCalculator& c = dynamic_cast<sr::OverlapCalculator&>(*a.pq);
                sr::AtomRadiiTablePtr t = c.getAtomRadiiTable();
                switch (g.i(0, 5))
                {
                    case 0:
                        a.cfg.rdefault = g.u(0.3, 1.6);
                        boost::dynamic_pointer_cast<sr::ConstantRadiiTable>(t)->setDefault(a.cfg.rdefault);
                        return "default radius ";
                    case 1:
                    {
                        string x = g.pick(vector<string>{"C", "Na", "O"});
                        if (a.cfg.radii.count(x))  { t->resetCustom(x); a.cfg.radii.erase(x); }
                        return "reset radius ";
                    }
                    case 2:
                        if (other && other->kind == OVERLAP && g.chance(0.5))
                        {
                            c.setAtomRadiiTable(dynamic_cast<sr::OverlapCalculator&>(*other->pq).getAtomRadiiTable());
                            a.cfg.radii = other->cfg.radii;
                            a.cfg.rdefault = other->cfg.rdefault;
                            ctx().count("components shared");
                            return "sharedradii ";
                        }
                        c.setAtomRadiiTableByType("constant");
                        a.cfg.radii.clear();
                        a.cfg.rdefault = 0;
                        return "new radii ";
                    default:
                    {
                        string x = g.pick(vector<string>{"C", "Na", "O", "Fe"});
                        double r = g.u(0, 1.8);
                        t->setCustom(x, r);
                        a.cfg.radii[x] = r;
                        return "radius ";
                    }
                }
            }
            default:  return "";
        }
    }
    // reads of everything, with no effect on any result
    void reads(Rng& g)
    {
        for (int k = g.i(1, 3); k > 0; --k)
        {
            Side& a = s[g.i(0, nsides - 1)];
            switch (g.i(0, 5))
            {
                case 0:  configOf(*a.pq); break;
                case 1:  attrsOf(*a.pq); break;
                case 2:  if (a.pq->getStructure() == st && cleanof(a))  resultsOf(a.kind, *a.pq); break;
                case 3:
                    if (a.kind == PAIRCOUNT)  diffpy::serialization_tostring(const_cast<const sr::PairQuantity&>(*a.pq));
                    else  diffpy::serialization_tostring(a.pq);
                    break;
                case 4:  a.pq->ticker(); a.pq->value(); a.pq->getEvaluatorTypeUsed(); if (cleanof(a))  a.pq->getParallelData(); break;
                default:  stateOf(*st); bondsOf(st, 3); break;
            }
        }
        ctx().count("reads in between");
    }
    std::map<sr::PairQuantity*, bool> clean;
    bool cleanof(Side& a)  { return clean[a.pq.get()]; }

    static double limitOf(Side& a)  { return a.debye() ? a.pq->getDoubleAttr("extendedrmax") : 0; }
    void compare(int k, const string& where)
    {
        Side& a = s[k];
        PairMask pm = readMask(*a.pq, st->countSites());
        PQPtr f = freshCalc(a.cfg, &pm);
        if (a.kind == DEBYE)  matchDebyeRange(*f, *a.pq, a.cfg.pdf, st);
        f->eval(st);
        Results want = resultsOf(a.kind, *f), got = resultsOf(a.kind, *a.pq);
        ctx().distinct(hcomb(want.hash(), hcomb(pm.hash(), hstr(a.cfg.str()))));
        if (want.magnitude() > 0)  ctx().count(string("nonzero ") + calcName(a.kind));
        double rtol = 1e-8 + (a.kind == PDF ? 20 * a.cfg.pdf.prec : 0);
        string key = string("C13:") + calcName(a.kind);
        compareResults(key, got, want, rtol, 1e-9, where);
        evaluated("results against a fresh calculator");
        // reported configuration
        string c0 = configOf(*a.pq), c1 = configOf(*f);
        // evaluators and masks may be given in other ways
        auto cut = [](string x)  { size_t i = x.find(" types "), j = x.find(' ', i + 7); x.erase(0, j); return x; };
        string d = diffNum(cut(c0), cut(c1), 1e-9);
        auto attrs = [](string x)  { size_t i = x.find(' ', 10), j = x.find(" mask "); return x.substr(i, j - i); };
        if (d.empty())  d = diffNum(attrs(c0), attrs(c1), 1e-9);
        checkTrue(key + " reported configuration", d.empty(), d + where);
    }

    void run(uint64_t seed, bool withreads, bool check)
    {
        Rng g(seed);
        static const int kinds[] = {PDF, PDF, PDF, DEBYE, DEBYE, BONDS, PAIRCOUNT, BVS, OVERLAP};
        nsides = g.chance(0.5) ? 2 : 1;
        s[0].kind = kinds[g.i(0, 8)];
        s[1].kind = s[0].kind;
        if (s[0].kind == PDF && g.chance(0.3))  s[1].kind = DEBYE;
        o.types = typesFor(s[0].kind);
        o.nmin = g.chance(0.8) ? 2 : 0;
        o.nmax = 7;
        o.maximages = s[1].kind == DEBYE ? 14 : 24;
        o.latlo = 3.5;
        o.minsep = s[0].kind == OVERLAP ? 0.3 : 0.8;
        rhi = s[1].kind == DEBYE ? 4.2 : 5;
        typesok = g.chance(0.5);
        m = genModel(g, genKind(g), o);
        live = toAdapter(m);
        wrap = g.chance(0.8) ? 0 : g.i(1, 4);
        st = wrapIn(live, wrap);
        for (int k = 0; k < nsides; ++k)
        {
            Side& a = s[k];
            a.cfg = genAnyCfg(g, a.kind, 2, rhi);
            PdfCfg& p = a.cfg.pdf;
            p.rmax = std::min(p.rmax, rhi); p.rmin = std::min(p.rmin, p.rmax);
            p.maxext = std::min(p.maxext, 2.5);
            p.rstep = std::max(p.rstep, 0.03);
            p.prec = std::min(p.prec, 1e-4);
            if (p.rad == "electron")  { p.rad = "xray"; }
            if (a.kind == DEBYE)  p.qmax = std::min(p.qmax, 10.0);
            if (a.kind == BVS)
            {
                // entries in the order used below
                for (auto& e : a.cfg.bv)  (void) e;
                vector<BvEntry> u;
                for (auto& e : a.cfg.bv)
                {
                    u.erase(std::remove_if(u.begin(), u.end(), [&](const BvEntry& x) { return x.a0 == e.a0 && x.a1 == e.a1 && x.v0 == e.v0 && x.v1 == e.v1; }), u.end());
                    u.push_back(e);
                }
                a.cfg.bv = u;
            }
            a.pq = makeCalc(a.kind);
            // properties of absent components keep defaults
            for (auto& t : envelopes)  if (!envHas(p, t))  envVal(p, t) = t == "scale" ? 1 : 0;
            if (p.pwm != "jeong")  p.delta1 = p.delta2 = p.qbroad = p.qbsep = 0;
            if (p.pwm != "constant")  p.width = 0;
            a.cfg.apply(*a.pq);
            clean[a.pq.get()] = true;
        }
        log = s[0].cfg.str() + (nsides == 2 ? " & " + s[1].cfg.str() : "") + " | " + m.str() + " : ";
        int n = g.i(6, ctx().thorough() ? 40 : 22);
        for (int k = 0; k < n; ++k)
        {
            uint64_t rs = g.next();
            if (withreads)  { Rng rg(rs); if (rg.chance(0.6))  reads(rg); }
            int side = g.i(0, nsides - 1);
            Side& a = s[side];
            Side* other = nsides == 2 ? &s[1 - side] : 0;
            string d;
            int what = g.i(0, 15);
            bool pd = a.kind == PDF || a.kind == DEBYE;
            if (what < 4)  d = scalar(a, g);
            else if (what < 10)
            {
                if (!pd)  d = special(a, g, other);
                else if (what < 6)  d = width(a, g, other);
                else if (what == 6)  d = profile(a, g, other);
                else if (what == 7)  d = g.chance(0.3) ? baseline(a, g) : envelope(a, g, other);
                else  d = g.chance(0.4) ? envelope(a, g, other) : table(a, g, other);
            }
            else if (what == 10)
            {
                if (g.chance(0.4))  d = randomMaskOp(g, *a.pq, m, typesok);
                else if (canOptimize(a.kind))
                {
                    sr::PQEvaluatorType t = g.chance(0.6) ? sr::OPTIMIZED : g.chance(0.5) ? sr::BASIC : sr::CHECK;
                    a.pq->setEvaluatorType(t);
                    d = "evaluator ";
                }
            }
            else if (what == 11)
            {
                Model was = m;
                d = mutateModel(g, m, o, false);
                if (g.chance(0.5))  editInPlace(g, *live, was, m);
                else  { live = toAdapter(m); st = wrapIn(live, wrap); }
                for (int q = 0; q < nsides; ++q)  clean[s[q].pq.get()] = false;
            }
            else if (what == 12)  { a.pq->setStructure(st); d = "setStructure "; clean[a.pq.get()] = false; }
            else
            {
                d = fmt("eval%d ", side);
                log += d;
                a.pq->eval(st);
                clean[a.pq.get()] = true;
                Outcome oc;
                oc.what = log;
                oc.limit = limitOf(a);
                oc.step = a.cfg.pdf.rstep;
                oc.res = resultsOf(a.kind, *a.pq);
                out.push_back(oc);
                if (check)  compare(side, log);
                continue;
            }
            share(side);
            log += d;
        }
        for (int k = 0; k < nsides; ++k)
        {
            s[k].pq->eval(st);
            Outcome oc;
            oc.what = log + fmt("final %d", k);
            oc.limit = limitOf(s[k]);
            oc.step = s[k].cfg.pdf.rstep;
            oc.res = resultsOf(s[k].kind, *s[k].pq);
            out.push_back(oc);
            if (check)  compare(k, oc.what);
        }
    }
};

int main(int argc, char* argv[])
{
    return runCases(argc, argv, [](long, Rng& g)
    {
        uint64_t seed = g.next();
        bool first = g.chance(0.5);
        Hist a, b;
        a.run(seed, first, true);
        if (g.chance(0.5))
        {
            b.run(seed, !first, false);
            checkTrue("C13:reads change the course", a.out.size() == b.out.size(), a.log);
            for (size_t k = 0; k < a.out.size() && k < b.out.size(); ++k)
            {
                // the reported limit of pair distances is retained
                if (a.out[k].limit != b.out[k].limit)  
                {
                    checkTrue("C13:reads change the limit of pair distances", std::fabs(a.out[k].limit - b.out[k].limit) < 50 * a.out[k].step,
                            fmt("%.9g and %.9g ", a.out[k].limit, b.out[k].limit) + a.out[k].what);
                    ctx().count("retained Debye limit differs");
                    break;
                }
                if (!compareResults("C13:reads change results", a.out[k].res, b.out[k].res, 1e-12, 1e-13, a.out[k].what))  break;
            }
            evaluated("history with and without reads");
        }
        ctx().sample(a.log);
    });
}
