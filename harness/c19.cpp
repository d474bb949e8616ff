// C19: peak profiles, width models, envelopes and baselines against their contracts
#include "calcs.hpp"
#include <diffpy/srreal/PeakProfile.hpp>
#include <diffpy/srreal/GaussianProfile.hpp>
#include <diffpy/srreal/CroppedGaussianProfile.hpp>
#include <diffpy/srreal/DebyeWallerPeakWidth.hpp>
#include <diffpy/srreal/PDFEnvelope.hpp>
#include <diffpy/srreal/QResolutionEnvelope.hpp>
#include <diffpy/srreal/ScaleEnvelope.hpp>
#include <diffpy/srreal/SphericalShapeEnvelope.hpp>
#include <diffpy/srreal/StepCutEnvelope.hpp>
#include <diffpy/srreal/LinearBaseline.hpp>
#include <diffpy/srreal/ZeroBaseline.hpp>
using namespace dpv;

template <class P> static double call(const P& p, double r)  { return (*p)(r); }

// --- profiles ------------------------------------------------------------------------
struct ProfRef
{
    bool cropped;
    double eps;
    double bound(double w) const
    {
        double e = std::max(eps, std::numeric_limits<double>::epsilon());
        return w > 0 && e < 1 ? w * std::sqrt(-std::log(e) / (4 * std::log(2.0))) : 0;
    }
    double operator()(double x, double w) const
    {
        if (w <= 0)  return 0;
        ld y = 2 * sqrtl(logl(2.0L) / M_PIl) / w * expl(-4 * logl(2.0L) * (ld(x) / w) * (ld(x) / w));
        if (!cropped)  return y;
        double e = std::max(eps, std::numeric_limits<double>::epsilon());
        if (e >= 1 || fabs(x) >= bound(w))  return 0;
        return y / erfl(sqrtl(-logl(e)));
    }
};

static void checkProfile(Rng& g, const sr::PeakProfilePtr& p, const ProfRef& ref, const string& where0)
{
    double eps = std::max(ref.eps, std::numeric_limits<double>::epsilon());
    checkNear("C19:profile precision", p->getPrecision(), eps, 1e-15, 0, where0);
    checkNear("C19:peakprecision attribute", p->getDoubleAttr("peakprecision"), eps, 1e-15, 0, where0);
    for (int k = g.i(1, 3); k > 0; --k)
    {
        double w = g.chance(0.1) ? g.pick({0, -0.3, -2}) : std::pow(10, g.u(-3, 1.5));
        const sr::PeakProfile& f = *p;
        string where = where0 + fmt(" fwhm=%.17g", w);
        double hi = f.xboundhi(w), lo = f.xboundlo(w), b = ref.bound(w);
        checkNear("C19:profile upper bound", hi, b, 1e-12, 1e-300, where);
        checkNear("C19:profile lower bound", lo, -b, 1e-12, 1e-300, where);
        if (w <= 0)
        {
            for (double x : {0.0, 0.1, -1.0})  checkTrue("C19:zero-width peak", f(x, w) == 0, where);
            ctx().count("zero-width profiles");
            continue;
        }
        double top = f(0, w);
        for (int j = 0; j < 12; ++j)
        {
            double x = g.chance(0.5) ? g.u(-1.2, 1.2) * std::max(b, w) : g.u(-3, 3) * w;
            if (fabs(fabs(x) - b) < 1e-9 * b)  continue;
            checkNear("C19:profile value", f(x, w), ref(x, w), 1e-11, 1e-300, where + fmt(" x=%.17g", x));
            checkNear("C19:profile symmetry", f(-x, w), f(x, w), 1e-14, 1e-300, where);
            if (fabs(x) > b)
            {
                checkTrue("C19:profile outside of its bounds", f(x, w) <= eps * top * (1 + 1e-9), where + fmt(" x=%.17g value %.17g", x, f(x, w)));
                if (ref.cropped)  checkTrue("C19:cropped profile outside of its bounds", f(x, w) == 0, where + fmt(" x=%.17g", x));
            }
            else  checkTrue("C19:profile is not negative", f(x, w) >= 0, where);
        }
        // value at the bound is the requested fraction of the maximum
        if (b > 0)
        {
            double y = f(b * (1 - 1e-12), w);
            checkNear("C19:profile at its bound", y, eps * top, 1e-6, 0, where);
        }
        if (b > w / 2)
        {
            checkNear("C19:profile half width", f(w / 2, w), top / 2, 1e-11, 0, where);
            evaluated("half width");
        }
        // area by Simpson integration over the bounds
        if (b > 0)
        {
            int n = 400;
            double c = b * (1 - 1e-13), h = 2 * c / n;
            ld s = 0;
            for (int j = 0; j <= n; ++j)  s += f(-c + j * h, w) * (j == 0 || j == n ? 1 : j % 2 ? 4 : 2);
            double area = s * h / 3;
            double want = ref.cropped ? 1 : std::erf(std::sqrt(-std::log(eps)));
            checkNear("C19:profile area", area, want, 2e-7, 0, where);
            evaluated("unit area");
        }
        if (!ref.cropped)
        {
            ld s = 0;
            int n = 200;
            double c = 5 * w, h = 2 * c / n;
            for (int j = 0; j <= n; ++j)  s += f(-c + j * h, w);
            checkNear("C19:Gaussian area", s * h, 1, 1e-9, 0, where);
        }
    }
    evaluated("profile against formula");
}

static void profiles(Rng& g)
{
    string tp = g.chance(0.5) ? "gaussian" : "croppedgaussian";
    sr::PeakProfilePtr p;
    bool byname = g.chance(0.5);
    if (byname)  p = sr::PeakProfile::createByType(tp);
    else if (tp == "gaussian")  p.reset(new sr::GaussianProfile);
    else  p.reset(new sr::CroppedGaussianProfile);
    ProfRef ref;
    ref.cropped = tp != "gaussian";
    ref.eps = 0;
    checkTrue("C19:profile type", p->type() == tp, tp);
    if (g.chance(0.3))  checkProfile(g, p, ref, tp + " default");
    for (int k = g.i(1, 3); k > 0; --k)
    {
        double e = g.chance(0.1) ? g.pick({0, -1, 1, 2, 1e-20, 0.999999}) : std::pow(10, g.u(-15, -0.05));
        ref.eps = e;
        if (g.chance(0.5))  p->setPrecision(e);
        else  p->setDoubleAttr("peakprecision", e);
        string where = tp + fmt(" eps=%.17g", e);
        ctx().sample(where);
        checkProfile(g, p, ref, where);
        ctx().distinct(hcomb(hstr(tp), hdbl(e)));
        if (g.chance(0.4))
        {
            sr::PeakProfilePtr c = p->clone();
            checkTrue("C19:cloned type", c->type() == tp && c != p, tp);
            checkProfile(g, c, ref, where + " cloned");
            ProfRef r2 = ref;
            r2.eps = std::pow(10, g.u(-10, -1));
            c->setPrecision(r2.eps);
            checkProfile(g, c, r2, where + fmt(" clone set to %g", r2.eps));
            checkProfile(g, p, ref, where + " after change of clone");
            evaluated("profile clone");
        }
        if (g.chance(0.3))
        {
            sr::PeakProfilePtr c = p->create();
            ProfRef r2 = ref;
            r2.eps = 0;
            checkProfile(g, c, r2, where + " created");
        }
    }
}

// --- widths --------------------------------------------------------------------------
static void widths(Rng& g)
{
    GenOpt o;
    o.maximages = 30;
    o.nmin = 1;
    o.nmax = 5;
    Model m = genModel(g, genKind(g), o);
    CfgOpt co;
    co.rmaxhi = 6;
    PdfCfg c = genCfg(g, co);
    c.pwm = g.pick(vector<string>{"jeong", "jeong", "jeong", "debye-waller", "constant"});
    if (g.chance(0.2))  c.delta1 = g.u(0, 4);
    if (g.chance(0.1))  c.qbsep = g.u(0, 0.6);
    if (g.chance(0.1))  c.qbroad = g.u(0, 1);
    sr::PeakWidthModelPtr p = sr::PeakWidthModel::createByType(c.pwm);
    if (c.pwm == "jeong")
    {
        sr::JeongPeakWidth& j = dynamic_cast<sr::JeongPeakWidth&>(*p);
        if (g.chance(0.5))
        {
            j.setDelta1(c.delta1);
            j.setDelta2(c.delta2);
            j.setQbroad(c.qbroad);
            j.setQbroad_seperable(c.qbsep);
        }
        else
        {
            p->setDoubleAttr("delta1", c.delta1);
            p->setDoubleAttr("delta2", c.delta2);
            p->setDoubleAttr("qbroad", c.qbroad);
            p->setDoubleAttr("qbroad_seperable", c.qbsep);
        }
        checkTrue("C19:Jeong parameters", j.getDelta1() == c.delta1 && j.getDelta2() == c.delta2 &&
                j.getQbroad() == c.qbroad && j.getQbroad_seperable() == c.qbsep, c.str());
    }
    if (c.pwm == "constant")
    {
        double gs = 2 * std::sqrt(2 * std::log(2.0));
        double sg = g.chance(0.2) ? -1 : 1;
        double u = 0.5 * (c.width / gs) * (c.width / gs);
        switch (g.i(0, 2))
        {
            case 0:  p->setDoubleAttr("width", sg * c.width); break;
            case 1:  p->setDoubleAttr("uisowidth", sg * u); break;
            default:  p->setDoubleAttr("bisowidth", sg * u * 8 * M_PI * M_PI);
        }
        checkNear("C19:constant width", p->getDoubleAttr("width"), sg * c.width, 1e-12, 1e-15, c.str());
        checkNear("C19:constant uisowidth", p->getDoubleAttr("uisowidth"), sg * u, 1e-12, 1e-15, c.str());
        checkNear("C19:constant bisowidth", p->getDoubleAttr("bisowidth"), sg * u * 8 * M_PI * M_PI, 1e-12, 1e-15, c.str());
        checkNear("C19:constant getWidth", dynamic_cast<sr::ConstantPeakWidth&>(*p).getWidth(), sg * c.width, 1e-12, 1e-15, c.str());
        c.width *= sg;
    }
    sr::PeakWidthModelPtr p0 = p;
    if (g.chance(0.3))
    {
        p = p->clone();
        if (c.pwm == "jeong")  p0->setDoubleAttr("delta1", 0.77);
        if (c.pwm == "constant")  p0->setDoubleAttr("width", 0.77);
        evaluated("width model clone");
    }
    if (g.chance(0.1))
    {
        sr::PeakWidthModelPtr q = p->create();
        checkTrue("C19:created width model", q->type() == c.pwm && q != p, c.str());
        for (auto& n : q->namesOfDoubleAttributes())  checkTrue("C19:created width model default", q->getDoubleAttr(n) == 0, n);
    }
    checkTrue("C19:width model type", p->type() == c.pwm, c.str());
    sr::AtomicStructureAdapterPtr st = toAdapter(m);
    string where = m.str() + " " + c.str();
    ctx().sample(where);
    double rmin = c.rmin, rmax = c.rmax;
    double mw = p->maxWidth(st, rmin, rmax);
    sr::BaseBondGeneratorPtr b = st->createBondGenerator();
    b->setRmin(rmin);
    b->setRmax(rmax);
    bool any = false;
    double mxw = 0;
    for (int i = 0; i < st->countSites(); ++i)
    {
        b->selectAnchorSite(i);
        b->selectSiteRange(0, st->countSites());
        for (b->rewind(); !b->finished(); b->next())
        {
            double d = b->distance();
            double w = p->calculate(*b);
            // msd from the tensors and direction
            sr::R3::Vector n = b->r01();
            n /= sr::R3::norm(n);
            double msd = 0;
            for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l)
                msd += n[k] * n[l] * (b->Ucartesian0()(k, l) + b->Ucartesian1()(k, l));
            double want = 0;
            if (c.pwm == "constant")  want = c.width;
            else
            {
                double dw = msd > 0 ? 2 * std::sqrt(2 * std::log(2.0)) * std::sqrt(msd) : 0;
                want = dw;
                if (c.pwm == "jeong")
                {
                    double corr = 1 - c.delta1 / d - c.delta2 / (d * d) + c.qbroad * c.qbroad * d * d;
                    want = corr > 0 ? dw * std::sqrt(corr) + c.qbsep * c.qbsep * d * d : 0;
                    if (fabs(corr) < 1e-9)  continue;
                }
            }
            checkNear("C19:peak width", w, want, 1e-7, 1e-12, where + fmt(" d=%.12g", d));
            checkNear("C19:pair msd", b->msd(), msd, 1e-8, 1e-14, where);
            checkTrue("C19:width above its bound", w <= mw + 1e-12 * fabs(mw), fmt("width %.17g bound %.17g d=%.12g ", w, mw, d) + where);
            mxw = std::max(mxw, w);
            any = any || w > 0;
        }
    }
    evaluated("peak widths");
    if (any)
    {
        ctx().count("nonzero widths " + c.pwm);
        ctx().distinct(hcomb(hdbl(mxw), c.hash()));
        ctx().maxval("width over bound", mxw / mw);
    }
}

// --- envelopes -----------------------------------------------------------------------
static double envRef(const string& tp, double v, double r)
{
    if (tp == "scale")  return v;
    if (tp == "qresolution")  return v > 0 ? std::exp(-0.5 * r * r * v * v) : 1;
    if (tp == "stepcut")  return v > 0 && r > v ? 0 : 1;
    if (v <= 0)  return 1;
    double x = r / v;
    return r > v ? 0 : 1 - 1.5 * x + 0.5 * x * x * x;
}
static const char* envAttr(const string& tp)
{
    return tp == "scale" ? "scale" : tp == "qresolution" ? "qdamp" : tp == "stepcut" ? "stepcut" : "spdiameter";
}
static double envVal(Rng& g, const string& tp)
{
    if (g.chance(0.15))  return g.pick({0, -1, 1});
    return tp == "scale" ? g.u(-2, 3) : tp == "qresolution" ? g.u(0, 0.4) : g.u(0.1, 20);
}
static double rval(Rng& g, double v)
{
    int k = g.i(0, 5);
    return k == 0 ? 0 : k == 1 ? v : k == 2 ? v * g.u(0.98, 1.02) : g.u(0, 30);
}

static void checkEnv(Rng& g, const sr::PDFEnvelopePtr& e, const string& tp, double v, const string& note)
{
    checkTrue("C19:envelope type", e->type() == tp, tp);
    checkNear("C19:envelope attribute", e->getDoubleAttr(envAttr(tp)), v, 0, 0, tp + note);
    double got = 0;
    if (tp == "scale")  got = dynamic_cast<sr::ScaleEnvelope&>(*e).getScale();
    else if (tp == "qresolution")  got = dynamic_cast<sr::QResolutionEnvelope&>(*e).getQdamp();
    else if (tp == "stepcut")  got = dynamic_cast<sr::StepCutEnvelope&>(*e).getStepCut();
    else  got = dynamic_cast<sr::SphericalShapeEnvelope&>(*e).getSPDiameter();
    checkNear("C19:envelope parameter", got, v, 0, 0, tp + note);
    for (int k = 0; k < 8; ++k)
    {
        double r = rval(g, v);
        if (r < 0)  r = 0;
        checkNear("C19:envelope value", call(e, r), envRef(tp, v, r), 1e-12, 1e-14, tp + note + fmt(" %s=%.17g r=%.17g", envAttr(tp), v, r));
    }
    evaluated("envelope against formula");
}
static void setEnv(Rng& g, const sr::PDFEnvelopePtr& e, const string& tp, double v)
{
    if (g.chance(0.5))  { e->setDoubleAttr(envAttr(tp), v); return; }
    if (tp == "scale")  dynamic_cast<sr::ScaleEnvelope&>(*e).setScale(v);
    else if (tp == "qresolution")  dynamic_cast<sr::QResolutionEnvelope&>(*e).setQdamp(v);
    else if (tp == "stepcut")  dynamic_cast<sr::StepCutEnvelope&>(*e).setStepCut(v);
    else  dynamic_cast<sr::SphericalShapeEnvelope&>(*e).setSPDiameter(v);
}

static void envelopes(Rng& g)
{
    static const vector<string> types = {"scale", "qresolution", "stepcut", "sphericalshape"};
    string tp = g.pick(types);
    sr::PDFEnvelopePtr e = sr::PDFEnvelope::createByType(tp);
    checkEnv(g, e, tp, tp == "scale" ? 1 : 0, " default");
    double v = envVal(g, tp);
    setEnv(g, e, tp, v);
    checkEnv(g, e, tp, v, "");
    sr::PDFEnvelopePtr c = e->clone();
    checkEnv(g, c, tp, v, " clone");
    double w = envVal(g, tp);
    setEnv(g, c, tp, w);
    checkEnv(g, c, tp, w, " changed clone");
    checkEnv(g, e, tp, v, " after change of clone");
    checkEnv(g, c->create(), tp, tp == "scale" ? 1 : 0, " created");
    checkEnv(g, sr::PDFEnvelope::createByType(tp), tp, tp == "scale" ? 1 : 0, " created by name");
    ctx().distinct(hcomb(hstr(tp), hdbl(v)));
    // owner with any sequence of additions and removals
    sr::PDFEnvelopeOwner own;
    sr::PDFCalculator pc;
    pc.clearEnvelopes();
    sr::PDFEnvelopeOwner& ow = g.chance(0.5) ? own : static_cast<sr::PDFEnvelopeOwner&>(pc);
    std::map<string, std::pair<sr::PDFEnvelopePtr, double> > have;
    string hist;
    for (int k = g.i(1, 8); k > 0; --k)
    {
        string t = g.pick(types);
        switch (g.i(0, 8))
        {
            case 0: case 1: case 2:
            {
                ow.addEnvelopeByType(t);
                have[t] = std::make_pair(ow.getEnvelopeByType(t), t == "scale" ? 1.0 : 0.0);
                hist += "addByType " + t + "; ";
                break;
            }
            case 3: case 4:
            {
                sr::PDFEnvelopePtr x = sr::PDFEnvelope::createByType(t);
                double y = envVal(g, t);
                setEnv(g, x, t, y);
                ow.addEnvelope(x);
                have[t] = std::make_pair(x, y);
                hist += "add " + t + fmt(" %.6g; ", y);
                break;
            }
            case 5:
                ow.popEnvelopeByType(t);
                have.erase(t);
                hist += "popByType " + t + "; ";
                break;
            case 6:
            {
                sr::PDFEnvelopePtr x = have.count(t) && g.chance(0.6) ? have[t].first : sr::PDFEnvelope::createByType(t);
                ow.popEnvelope(x);
                if (have.count(t) && have[t].first == x)  have.erase(t);
                hist += "pop " + t + "; ";
                break;
            }
            case 7:
                if (g.chance(0.3))  { ow.clearEnvelopes(); have.clear(); hist += "clear; "; }
                break;
            default:
                if (have.count(t))
                {
                    double y = envVal(g, t);
                    setEnv(g, ow.getEnvelopeByType(t), t, y);
                    have[t].second = y;
                    hist += "set " + t + fmt(" %.6g; ", y);
                }
        }
        std::set<string> used;
        for (auto& h : have)  used.insert(h.first);
        checkTrue("C19:used envelopes", ow.usedEnvelopeTypes() == used, hist);
        for (auto& x : types)
        {
            const sr::PDFEnvelopeOwner& cow = ow;
            if (have.count(x))  checkTrue("C19:owned envelope", ow.getEnvelopeByType(x) == have[x].first && cow.getEnvelopeByType(x) == have[x].first, hist + x);
            else  checkTrue("C19:missing envelope", raises([&]{ ow.getEnvelopeByType(x); }) && raises([&]{ cow.getEnvelopeByType(x); }), hist + x);
        }
        VD x, y, z;
        for (int j = g.i(0, 6); j > 0; --j)
        {
            double r = g.u(0, 25), q = g.u(-2, 2), f = q;
            for (auto& h : have)  f *= envRef(h.first, h.second.second, r);
            x.push_back(r);
            y.push_back(q);
            z.push_back(f);
        }
        checkArray("C19:envelopes applied", ow.applyEnvelopes(x, y), z, 1e-12, 1e-14, hist);
        evaluated("combined envelopes");
        ctx().distinct(hcomb(hstr(hist), 3));
    }
    ctx().sample(hist);
}

// --- baselines -----------------------------------------------------------------------
static void baselines(Rng& g)
{
    sr::PDFBaselinePtr z = sr::PDFBaseline::createByType("zero"), l = sr::PDFBaseline::createByType("linear");
    for (int k = 0; k < 4; ++k)
    {
        double r = g.u(0, 50), s = g.u(-3, 3);
        checkTrue("C19:zero baseline", call(z, r) == 0 && call(z->clone(), r) == 0 && z->type() == "zero", "");
        sr::PDFBaselinePtr n = l->create();
        checkTrue("C19:linear baseline default", call(n, r) == 0 && n->getDoubleAttr("slope") == 0 && n->type() == "linear", "");
        sr::LinearBaseline& ln = dynamic_cast<sr::LinearBaseline&>(*n);
        if (g.chance(0.5))  n->setDoubleAttr("slope", s);
        else  ln.setSlope(s);
        checkNear("C19:linear baseline", call(n, r), s * r, 1e-14, 0, fmt("slope %.17g r %.17g", s, r));
        checkTrue("C19:linear baseline slope", n->getDoubleAttr("slope") == s && ln.getSlope() == s, "");
        sr::PDFBaselinePtr c = n->clone();
        checkTrue("C19:cloned linear baseline", call(c, r) == call(n, r) && c->getDoubleAttr("slope") == s, "");
        c->setDoubleAttr("slope", s + 1);
        checkTrue("C19:linear baseline after change of clone", n->getDoubleAttr("slope") == s, "");
        checkTrue("C19:prototype changed", call(l, r) == 0, "");
        evaluated("baseline against formula");
        ctx().distinct(hcomb(hdbl(s), hdbl(r)));
    }
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, [](long, Rng& g)
    {
        switch (g.i(0, 7))
        {
            case 0: case 1:  profiles(g); break;
            case 2: case 3: case 4: case 5:  widths(g); break;
            case 6:  envelopes(g); break;
            default:  baselines(g);
        }
    });
}
