// C09: Debye scattering sums compared with their definition
#include "calcs.hpp"
#include <diffpy/srreal/GaussianProfile.hpp>
using namespace dpv;

static int qsteps(double q, double dq)
{
    int k = int(std::ceil(q / dq));
    if (std::fabs(q - (k - 1) * dq) < 1.4901161e-8)  k -= 1;
    return k;
}

static bool nearInt(double x, double tol=1e-7)
{
    return std::fabs(x - std::round(x)) < tol * (1 + std::fabs(x));
}

struct Sum  { VD f, tol; bool ambiguous; long npairs; };

// amplitudes as function of site and Q
static Sum debyeSum(const Model& m, const PdfCfg& c, const PairMask& pm, double rlo, double rhi,
        int k0, int nq, double dq, std::function<double(int, double)> amp)
{
    Sum s;
    s.ambiguous = false;
    s.npairs = 0;
    vector<ld> acc(nq, 0);
    s.tol.assign(nq, 0);
    vector<vector<Image> > im = allImages(m);
    int n = m.atoms.size();
    vector<VD> sf(n, VD(nq));
    VD favg(nq, 0);
    double tot = 0;
    for (int i = 0; i < n; ++i)
    {
        tot += m.atoms[i].occ * im[i].size();
        for (int k = k0; k < nq; ++k)
        {
            sf[i][k] = amp(i, k * dq);
            favg[k] += sf[i][k] * im[i].size();
        }
    }
    for (double& x : favg)  x /= tot > 0 ? tot : 1;
    for (int i = 0; i < n; ++i)
    for (auto& p : neighborsOf(m, i, std::max(0.0, rlo - 1e-5), rhi + 1e-5, &im))
    {
        if (!pm(p.i, p.j))  continue;
        if (fabs(p.d - rlo) < 2e-6 || fabs(p.d - rhi) < 2e-6)  s.ambiguous = true;
        if (p.d < rlo || p.d > rhi)  continue;
        ++s.npairs;
        double sigma = c.fwhm(m, p) / (2 * std::sqrt(2 * std::log(2.0)));
        bool below = false;
        double mmin = std::min(im[p.i].size(), im[p.j].size());
        for (int k = std::max(1, k0); k < nq; ++k)
        {
            double q = k * dq;
            double sc = std::exp(-0.5 * sigma * sigma * q * q) * sf[p.i][k] * sf[p.j][k] / p.d * p.mi;
            acc[k] += sc * std::sin(q * p.d);
            // either of the two sites may be the anchor of the summed pair
            below = below || fabs(sc / p.mi * mmin) <= c.debyeprec * (1 + 1e-6);
            if (below)  s.tol[k] += fabs(sc);
            else  s.tol[k] += 2e-12 * fabs(sc) * (1 + q * p.d * 1e-2);
        }
    }
    for (int k = 0; k < nq; ++k)
    {
        double x = favg[k] * favg[k] * tot;
        double sc = (k < k0 || favg[k] * tot == 0) ? 0 : 1 / x;
        if (k == 0)  sc = 0;
        s.f.push_back(acc[k] * sc);
        s.tol[k] = s.tol[k] * sc + 1e-12;
    }
    return s;
}

static void cmp(const string& key, const VD& got, const VD& want, const VD& tol, const string& where)
{
    ctx().count("comparisons", want.size() + 1);
    if (got.size() != want.size())
    {
        ctx().fail(key + " size", fmt("size %zu expected %zu ", got.size(), want.size()) + where);
        return;
    }
    for (size_t i = 0; i < want.size(); ++i)
        if (!(fabs(got[i] - want[i]) <= tol[i] + 1e-11 * fabs(want[i])))
        {
            ctx().fail(key, fmt("point %zu of %zu: got %.17g expected %.17g tol %.3g ", i, want.size(), got[i], want[i],
                        tol[i]) + where);
            return;
        }
}

static VD sineTransform(const PdfCfg& c, const VD& F, double qmin, double dq, double rstep, const VD& rgrid)
{
    int nq = F.size();
    int k0 = std::min(nq, qsteps(qmin, dq));
    int need = std::max(nq, int(std::ceil(M_PI / rstep / dq)));
    int npad = 1;
    while (npad < need)  npad *= 2;
    if (need == 0)  npad = 0;
    double drpad = npad ? M_PI / (npad * dq) : 1;
    std::map<int, double> memo;
    auto gat = [&](int j) -> double
    {
        if (j >= npad)  return 0;
        auto it = memo.find(j);
        if (it != memo.end())  return it->second;
        ld s = 0;
        for (int k = k0; k < nq; ++k)  s += F[k] * sinl(M_PIl * ((long(k) * j) % (2 * npad)) / npad);
        return memo[j] = 2 / M_PI * dq * s;
    };
    VD rv;
    for (double r : rgrid)
    {
        double x = r / drpad;
        int j = int(x);
        double w = x - j;
        rv.push_back((1 - w) * gat(j) + w * gat(j + 1));
    }
    return rv;
}

// atoms of one kind that differ slightly in their occupancy
static void nearOccupancies(Rng& g, Model& m)
{
    if (!g.chance(0.15))  return;
    for (auto& a : m.atoms)
        if (g.chance(0.7))  { a.type = m.atoms[0].type; a.occ = m.atoms[0].occ + g.pick({0, 0.003, 0.0004, 1e-6, 0.04}); }
}

static void debyeCase(Rng& g)
{
    GenOpt o;
    o.maximages = 24;
    o.nmin = g.chance(0.02) ? 0 : 1;
    o.nmax = ctx().thorough() ? 8 : 5;
    if (g.chance(0.05))  o.umin = o.umax = 0;
    // small clusters with pairs closer than 1 A
    const Kind kind = genKind(g);
    const bool tight = kind == ATOMIC && g.chance(0.3);
    if (tight)  { o.minsep = 0.25; o.box = 0.9; o.nmin = 2; o.nmax = 3; }
    Model m = genModel(g, kind, o);
    nearOccupancies(g, m);
    CfgOpt co;
    co.debye = true;
    co.rmaxhi = m.kind == ATOMIC ? 9 : m.kind == PERIODIC ? 6 : 4.5;
    PdfCfg c = genCfg(g, co);
    if (m.kind != ATOMIC && c.maxext > 3)  c.maxext = g.u(0.5, 3);
    if (tight)  { c.rmin = 0; c.debyeprec = g.pick({1e-3, 0.05, 1}); }
    sr::DebyePDFCalculator calc;
    if (g.chance(0.5))  calc.setEvaluatorType(sr::BASIC);
    c.apply(calc);
    sr::AtomicStructureAdapterPtr stru = toAdapter(m);
    PairMask pm = randomMask(g, m, calc, 0.25);
    string where = m.str() + " " + c.str() + (pm.any ? " masked" : "");
    ctx().sample(where);
    calc.eval(boost::static_pointer_cast<sr::StructureAdapter>(stru));
    // range of pair distances
    double maxw = calc.getPeakWidthModel()->maxWidth(stru, c.rmin, c.rmax);
    double half = maxw > 0 ? maxw * std::sqrt(-std::log(3.33e-6) / (4 * std::log(2.0))) : 0;
    double ext = std::min(c.maxext, 12 * M_PI / c.qmax + half);
    for (double x : {c.rmin - ext, c.rmax + ext})
        if (nearInt(x / c.rstep) && x > 0 && ext > 0)  { ctx().count("skipped ambiguous"); return; }
    double lo = std::max(0, stepsMin(c.rmin - ext, c.rstep)) * c.rstep;
    double hi = stepsMax(c.rmax + ext, c.rstep) * c.rstep;
    double rlo = calc.getDoubleAttr("extendedrmin"), rhi = calc.getDoubleAttr("extendedrmax");
    checkNear("C09:lowest pair distance", rlo, lo, 1e-13, 1e-13, where);
    checkTrue("C09:highest pair distance", rhi > hi - c.rstep / 2 && rhi < hi + 50.5 * c.rstep,
            fmt("extendedrmax %.10g expected %.10g or up to 50 steps above ", rhi, hi) + where);
    if (g.chance(0.3))
    {
        // the limits follow their parameters before the next evaluation
        double v;
        sr::DebyePDFCalculator calc2(calc);
        int what = g.i(0, 2);
        if (what == 0)  calc2.setRmin(v = g.u(0, c.rmax));
        else if (what == 1)  calc2.setMaxExtension(v = g.chance(0.3) ? 0 : g.u(0, 4));
        else  calc2.setRstep(v = g.pick({0.01, 0.04, 0.11}));
        string w = fmt("before evaluation with changed %s=%.10g ", what == 0 ? "rmin" : what == 1 ? "maxextension" : "rstep", v) + where;
        double l0 = calc2.getDoubleAttr("extendedrmin"), h0 = calc2.getDoubleAttr("extendedrmax");
        calc2.eval(boost::static_pointer_cast<sr::StructureAdapter>(stru));
        checkNear("C09:lowest pair distance", l0, calc2.getDoubleAttr("extendedrmin"), 0, 0, w);
        checkNear("C09:highest pair distance", h0, calc2.getDoubleAttr("extendedrmax"), 0, 0, w);
    }
    double dq = calc.getQstep();
    double odq = c.qmax * rhi / M_PI > 4 ? M_PI / rhi : c.qmax / 4;
    bool opt = c.optimum || calc.isOptimumQstep();
    if (c.optimum)  checkTrue("C09:optimum Q-step stays selected", calc.isOptimumQstep(), where);
    if (opt)  checkNear("C09:optimum Q-step", dq, odq, 1e-13, 0, where);
    else
    {
        checkNear("C09:Q-step", dq, c.qstep, 1e-15, 0, where);
        checkTrue("C09:Q-step is below the optimum one", dq <= odq, where);
        ctx().count("custom qstep");
    }
    checkNear("C09:qmax", calc.getQmax(), c.qmax, 0, 0, where);
    checkNear("C09:qmin", calc.getQmin(), c.qmin, 0, 0, where);
    if (nearInt(c.qmax / dq, 1e-9) && !(fabs(c.qmax / dq - 4) < 1e-9 && c.qmax / dq == 4))
    {
        ctx().count("skipped ambiguous");
        return;
    }
    int nq = int(std::ceil(c.qmax / dq));
    VD qg;
    for (int k = 0; k < nq; ++k)  qg.push_back(k * dq);
    checkArray("C09:Q grid", calc.getQgrid(), qg, 1e-14, 1e-14, where);
    sr::ScatteringFactorTablePtr tbl = c.table();
    Sum s = debyeSum(m, c, pm, rlo, rhi, 0, nq, dq, [&](int i, double q)
            { return c.sf(tbl, m.atoms[i].type, q) * m.atoms[i].occ; });
    if (s.ambiguous)  { ctx().count("skipped ambiguous"); return; }
    VD F = calc.getF();
    cmp("C09:F(Q)", F, s.f, s.tol, where);
    evaluated("F(Q) against the Debye sum");
    double fmx = 0;
    for (double x : s.f)  fmx = std::max(fmx, fabs(x));
    if (fmx > 0)
    {
        ctx().count(string("nonzero ") + (m.kind == ATOMIC ? "atomic" : m.kind == PERIODIC ? "periodic" : "crystal"));
        if (pm.any)  ctx().count("nonzero masked");
        ctx().distinct(hcomb(hvec(s.f), c.hash()));
    }
    ctx().count("reference pairs", s.npairs);
    // sine transforms
    VD rg;
    for (int k = stepsMin(c.rmin, c.rstep); k < stepsMax(c.rmax, c.rstep); ++k)  rg.push_back(k * c.rstep);
    checkArray("C09:r grid", calc.getRgrid(), rg, 1e-14, 1e-14, where);
    {
        // rounding matters only at a power of two
        double x = std::round(M_PI / c.rstep / dq);
        if (nearInt(M_PI / c.rstep / dq, 1e-9) && x >= nq && std::exp2(std::round(std::log2(x))) == x)
        {
            ctx().count("skipped ambiguous transform");
            return;
        }
    }
    if (double(rg.size()) * nq > 400000)  { ctx().count("skipped long transform"); return; }
    bool amb = c.qmin > 0 && nearInt(c.qmin / dq, 1e-6);
    double sumF = 0;
    for (double x : F)  sumF += fabs(x) * dq;
    VD perr = sineTransform(c, F, 0, dq, c.rstep, rg);
    VD tol(rg.size(), 1e-11 * (1 + sumF));
    cmp("C09:RDF/r", calc.getRDFperR(), perr, tol, where);
    VD rdf = perr, rtol = tol;
    for (size_t i = 0; i < rg.size(); ++i)  { rdf[i] *= rg[i]; rtol[i] *= 1 + rg[i]; }
    cmp("C09:RDF", calc.getRDF(), rdf, rtol, where);
    if (amb)  return;
    VD pdf = sineTransform(c, F, c.qmin, dq, c.rstep, rg);
    for (size_t i = 0; i < rg.size(); ++i)
    {
        double e = c.envelope(rg[i]);
        pdf[i] *= e;
        tol[i] *= 1 + fabs(e);
    }
    cmp("C09:PDF", calc.getPDF(), pdf, tol, where);
    evaluated("PDF against direct sine transform");
    if (qsteps(c.qmin, dq) > 0)  ctx().count("PDF with Qmin");
}

// public base class with unit amplitudes and the sum starting at Qmin
static void baseCase(Rng& g)
{
    GenOpt o;
    o.maximages = 24;
    const Kind kind = genKind(g);
    if (kind == ATOMIC && g.chance(0.4))  { o.minsep = 0.25; o.box = 0.9; o.nmin = 2; o.nmax = 3; }
    Model m = genModel(g, kind, o);
    PdfCfg c = genCfg(g, CfgOpt());
    c.rmax = m.kind == ATOMIC ? g.u(2, 12) : g.u(2, 5);
    c.rmin = g.chance(0.5) ? 0 : g.u(0, c.rmax);
    c.qmin = g.chance(0.4) ? 0 : g.u(0, 8);
    c.qmax = g.chance(0.05) ? 0 : g.u(1, 15);
    c.qstep = g.u(0.03, 0.4);
    c.debyeprec = g.pick({1e-6, 1e-10, 1e-3, 1e-2});
    sr::BaseDebyeSum calc;
    c.applyWidth(calc);
    calc.setRmin(c.rmin);
    calc.setRmax(c.rmax);
    calc.setQmin(c.qmin);
    calc.setQmax(c.qmax);
    calc.setQstep(c.qstep);
    calc.setDebyePrecision(c.debyeprec);
    if (g.chance(0.5))  calc.setEvaluatorType(sr::BASIC);
    PairMask pm = randomMask(g, m, calc, 0.25);
    string where = "base sum " + m.str() + " " + c.str() + (pm.any ? " masked" : "");
    if (nearInt(c.qmax / c.qstep, 1e-9) && c.qmax > 0)  return;
    if (nearInt(c.qmin / c.qstep, 1e-6) && c.qmin > 0)  return;
    calc.eval(boost::static_pointer_cast<sr::StructureAdapter>(toAdapter(m)));
    int nq = int(std::ceil(c.qmax / c.qstep));
    int k0 = std::min(nq, qsteps(c.qmin, c.qstep));
    Sum s = debyeSum(m, c, pm, c.rmin, c.rmax, k0, nq, c.qstep, [](int, double)  { return 1.0; });
    if (s.ambiguous)  { ctx().count("skipped ambiguous"); return; }
    VD qg;
    for (int k = 0; k < nq; ++k)  qg.push_back(k * c.qstep);
    checkArray("C09:Q grid of base sum", calc.getQgrid(), qg, 1e-14, 1e-14, where);
    cmp("C09:F(Q) of base sum", calc.getF(), s.f, s.tol, where);
    evaluated("F(Q) of the base sum");
    if (s.npairs)  ctx().distinct(hcomb(hvec(s.f), c.hash()));
    if (k0 > 0)  ctx().count("base sum with Qmin");
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, [](long, Rng& g)
    {
        if (g.chance(0.2))  baseCase(g);
        else  debyeCase(g);
    });
}
