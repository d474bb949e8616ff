// Random configurations of the PDF calculators and independent reference sums.
#ifndef DPV_CALCS_HPP
#define DPV_CALCS_HPP
#include "structures.hpp"
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/JeongPeakWidth.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>

namespace dpv {

// symmetric mask of site pairs
struct PairMask
{
    int n;
    vector<char> on;
    bool any;
    explicit PairMask(int n_=0) : n(n_), on(n_ * n_, 1), any(false)  { }
    bool operator()(int i, int j) const  { return on[i * n + j]; }
    void set(int i, int j, bool v)  { on[i * n + j] = on[j * n + i] = v; any = true; }
    uint64_t hash() const
    {
        uint64_t h = n;
        for (char c : on)  h = hcomb(h, c);
        return h;
    }
};

// random mask applied to a calculator by index or by type
inline PairMask randomMask(Rng& g, const Model& m, sr::PairQuantity& pq, double prob)
{
    int n = m.atoms.size();
    PairMask pm(n);
    if (!n || !g.chance(prob))  return pm;
    if (g.chance(0.4))
    {
        vector<string> ts;
        for (auto& a : m.atoms)  ts.push_back(a.type);
        bool inv = g.chance(0.3);
        if (inv)
        {
            pq.maskAllPairs(false);
            std::fill(pm.on.begin(), pm.on.end(), 0);
        }
        for (int k = g.i(1, 2); k > 0; --k)
        {
            string a = g.pick(ts), b = g.pick(ts);
            pq.setTypeMask(a, b, inv);
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
                if (m.atoms[i].type == a && m.atoms[j].type == b)  pm.set(i, j, inv);
        }
        pm.any = true;
        return pm;
    }
    if (g.chance(0.3))
    {
        pq.maskAllPairs(false);
        std::fill(pm.on.begin(), pm.on.end(), 0);
        pm.any = true;
    }
    for (int k = g.i(1, 1 + n); k > 0; --k)
    {
        int i = g.i(0, n - 1), j = g.i(0, n - 1);
        bool v = g.chance(0.5);
        pq.setPairMask(i, j, v);
        pm.set(i, j, v);
    }
    return pm;
}

struct PdfCfg
{
    double rmin, rmax, rstep, qmin, qmax, maxext;
    string pwm;
    double delta1, delta2, qbroad, qbsep, width;
    string profile;
    double prec;
    string baseline;
    bool hasscale, hasqdamp, hassphere, hasstep;
    double scale, qdamp, spd, stepcut;
    string rad;
    std::map<string, std::pair<string, double> > custom;   // symbol -> (source, value at q = 0)
    // Debye only
    double qstep, debyeprec;
    bool optimum;

    PdfCfg() : rmin(0), rmax(10), rstep(0.01), qmin(0), qmax(0), maxext(10), pwm("jeong"),
        delta1(0), delta2(0), qbroad(0), qbsep(0), width(0.1), profile("gaussian"), prec(3.33e-6),
        baseline("linear"), hasscale(true), hasqdamp(true), hassphere(false), hasstep(false),
        scale(1), qdamp(0), spd(0), stepcut(0), rad("xray"), qstep(0.05), debyeprec(1e-6), optimum(true)  { }

    string str() const
    {
        string s = fmt("r=[%.17g,%.17g]/%.17g q=[%.17g,%.17g] ext=%.17g %s d1=%.6g d2=%.6g qb=%.6g qs=%.6g w=%.6g %s eps=%g %s",
                rmin, rmax, rstep, qmin, qmax, maxext, pwm.c_str(), delta1, delta2, qbroad, qbsep, width,
                profile.c_str(), prec, baseline.c_str());
        s += fmt(" env(%d:%.6g %d:%.6g %d:%.6g %d:%.6g) %s qstep=%.17g dprec=%g opt=%d", hasscale, scale, hasqdamp, qdamp,
                hassphere, spd, hasstep, stepcut, rad.c_str(), qstep, debyeprec, optimum);
        for (auto& c : custom)  s += fmt(" %s=%s*%.6g", c.first.c_str(), c.second.first.c_str(), c.second.second);
        return s;
    }
    uint64_t hash() const  { return hstr(str()); }

    double envelope(double r) const
    {
        double y = 1;
        if (hasscale)  y *= scale;
        if (hasqdamp && qdamp > 0)  y *= std::exp(-0.5 * r * r * qdamp * qdamp);
        if (hassphere && spd > 0)
        {
            double x = r / spd;
            y *= r > spd ? 0 : 1 - 1.5 * x + 0.5 * x * x * x;
        }
        if (hasstep && stepcut > 0 && r > stepcut)  y = 0;
        return y;
    }
    double fwhm(const Model& m, const Pair& p) const
    {
        if (pwm == "constant")  return width;
        double msd = pairMsd(m, p);
        double w = msd > 0 ? 2 * std::sqrt(2 * std::log(2.0)) * std::sqrt(msd) : 0;
        if (pwm == "debye-waller")  return w;
        double r = p.d;
        double corr = 1 - delta1 / r - delta2 / (r * r) + qbroad * qbroad * r * r;
        if (corr <= 0)  return 0;
        return w * std::sqrt(corr) + qbsep * qbsep * r * r;
    }
    sr::ScatteringFactorTablePtr table() const
    {
        sr::ScatteringFactorTablePtr t = sr::ScatteringFactorTable::createByType(rad);
        return t;
    }
    // scattering amplitude, the table being a private one without custom values
    double sf(const sr::ScatteringFactorTablePtr& t, const string& smbl, double q) const
    {
        auto c = custom.find(smbl);
        if (c == custom.end())  return t->standardLookup(smbl, q);
        double f0 = t->standardLookup(c->second.first, 0);
        return t->standardLookup(c->second.first, q) * (c->second.second / f0);
    }

    template <class C> void applyEnv(C& c) const
    {
        c.clearEnvelopes();
        if (hasscale)  { c.addEnvelopeByType("scale"); c.setDoubleAttr("scale", scale); }
        if (hasqdamp)  { c.addEnvelopeByType("qresolution"); c.setDoubleAttr("qdamp", qdamp); }
        if (hassphere)  { c.addEnvelopeByType("sphericalshape"); c.setDoubleAttr("spdiameter", spd); }
        if (hasstep)  { c.addEnvelopeByType("stepcut"); c.setDoubleAttr("stepcut", stepcut); }
    }
    template <class C> void applySf(C& c) const
    {
        if (c.getScatteringFactorTable()->type() != rad)  c.setScatteringFactorTableByType(rad);
        sr::ScatteringFactorTablePtr t = c.getScatteringFactorTable();
        for (auto& s : t->getCustomSymbols())  if (!custom.count(s))  t->resetCustom(s);
        for (auto& s : custom)  t->setCustomAs(s.first, s.second.first, s.second.second);
    }
    template <class C> void applyWidth(C& c) const
    {
        if (c.getPeakWidthModel()->type() != pwm)  c.setPeakWidthModelByType(pwm);
        if (pwm == "jeong")
        {
            c.getPeakWidthModel()->setDoubleAttr("delta1", delta1);
            c.getPeakWidthModel()->setDoubleAttr("delta2", delta2);
            c.getPeakWidthModel()->setDoubleAttr("qbroad", qbroad);
            c.getPeakWidthModel()->setDoubleAttr("qbroad_seperable", qbsep);
        }
        if (pwm == "constant")  c.getPeakWidthModel()->setDoubleAttr("width", width);
    }
    void apply(sr::PDFCalculator& c) const
    {
        applyWidth(c);
        if (c.getPeakProfile()->type() != profile)  c.setPeakProfileByType(profile);
        c.getPeakProfile()->setPrecision(prec);
        if (c.getBaseline()->type() != baseline)  c.setBaselineByType(baseline);
        applyEnv(c);
        applySf(c);
        c.setRmin(rmin);
        c.setRmax(rmax);
        c.setRstep(rstep);
        c.setMaxExtension(maxext);
        c.setQmin(qmin);
        c.setQmax(qmax);
    }
    void apply(sr::DebyePDFCalculator& c) const
    {
        applyWidth(c);
        applyEnv(c);
        applySf(c);
        c.setRmin(rmin);
        c.setRmax(rmax);
        c.setRstep(rstep);
        c.setMaxExtension(maxext);
        c.setQmin(qmin);
        c.setQmax(qmax > 0 ? qmax : 12);
        if (optimum)  c.setOptimumQstep();
        else  c.setQstep(qstep);
        c.setDebyePrecision(debyeprec);
    }
};

struct CfgOpt
{
    double rmaxlo, rmaxhi;
    bool debye, masks, nobaseline;
    CfgOpt() : rmaxlo(2), rmaxhi(7), debye(false)  { }
};

inline PdfCfg genCfg(Rng& g, const CfgOpt& o)
{
    PdfCfg c;
    c.rstep = g.pick({0.01, 0.02, 0.05, 0.1, 0.03, 0.0625, 0.037});
    c.rmax = g.chance(0.5) ? std::floor(g.u(o.rmaxlo, o.rmaxhi)) : g.u(o.rmaxlo, o.rmaxhi);
    c.rmin = g.chance(0.4) ? 0 : g.chance(0.5) ? g.u(0, c.rmax * 0.8) : std::floor(g.u(0, c.rmax * 0.8) / c.rstep) * c.rstep;
    if (g.chance(0.03))  c.rmax = c.rmin;
    c.qmax = g.chance(0.5) ? 0 : g.u(4, 28);
    if (g.chance(0.05))  c.qmax = M_PI / c.rstep * g.pick({1, 0.999, 1.001, 2});
    c.qmin = g.chance(0.6) ? 0 : g.u(0, 3);
    c.maxext = g.chance(0.6) ? 10 : g.pick({0, 0.3, 1, 2.5, 5});
    int w = g.i(0, 9);
    c.pwm = w < 6 ? "jeong" : w < 8 ? "debye-waller" : "constant";
    if (g.chance(0.4))  c.delta1 = g.u(0, 0.9);
    if (g.chance(0.4))  c.delta2 = g.u(0, 2);
    if (g.chance(0.3))  c.qbroad = g.u(0, 0.1);
    if (g.chance(0.2))  c.qbsep = g.u(0, 0.08);
    c.width = g.chance(0.05) ? 0 : g.u(0.05, 0.4);
    c.profile = g.chance(0.7) ? "gaussian" : "croppedgaussian";
    c.prec = g.pick({3.33e-6, 3.33e-6, 1e-12, 1e-3, 1e-8});
    c.baseline = g.chance(0.7) ? "linear" : "zero";
    c.hasscale = g.chance(0.8);
    c.hasqdamp = g.chance(0.8);
    c.hassphere = g.chance(0.3);
    c.hasstep = g.chance(0.2);
    c.scale = g.chance(0.3) ? 1 : g.u(0.3, 3);
    c.qdamp = g.chance(0.4) ? 0 : g.u(0, 0.2);
    c.spd = g.chance(0.2) ? 0 : g.u(1, 12);
    c.stepcut = g.chance(0.2) ? 0 : g.u(0.5, 8);
    c.rad = g.chance(0.5) ? "xray" : g.chance(0.7) ? "neutron" : g.chance(0.7) ? "electronnumber" : "electron";
    if (c.rad == "electron" && !o.debye)  c.rad = "neutron";
    if (g.chance(0.25))  c.custom["C"] = std::make_pair(string("O"), g.u(2, 9));
    if (g.chance(0.15))  c.custom["Na"] = std::make_pair(string("Na"), g.u(2, 9));
    if (o.debye)
    {
        c.qmax = g.u(3, 22);
        if (c.rad == "electron")  c.custom.clear();
        c.optimum = g.chance(0.6);
        c.qstep = g.u(0.02, 0.2);
        c.debyeprec = g.pick({1e-6, 1e-6, 1e-9, 1e-3});
    }
    return c;
}

inline int stepsMin(double r, double dr)
{
    int k = int(std::ceil(r / dr));
    if (std::fabs((k - 1) * dr - r) < 1.4901161e-8)  k -= 1;
    return k;
}
inline int stepsMax(double r, double dr)  { return int(std::ceil(r / dr)); }

}   // namespace dpv
#endif
