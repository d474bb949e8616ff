// C08: PDFCalculator compared with the defining pair sum
#include "calcs.hpp"
using namespace dpv;

struct Ref
{
    int exlo, exhi, calclo, calchi, rlo, rhi;
    VD rgrid, rgrid_ext, rdf, rdftol;
    bool ambiguous;
};

static const double NYQ = M_PI;

static double boundRel(double prec)
{
    double eps = std::max(prec, 2.220446049250313e-16);
    return eps < 1 ? std::sqrt(-std::log(eps) / (4 * std::log(2.0))) : 0;
}

struct Weights  { vector<double> sf; double sfavg, tot, active; };

static Weights weights(const Model& m, const PdfCfg& c, const PairMask& pm)
{
    Weights w;
    sr::ScatteringFactorTablePtr t = c.table();
    double sumsf = 0, tot = 0, act = 0;
    vector<double> om;
    for (auto& a : m.atoms)
    {
        w.sf.push_back(c.sf(t, a.type, 0) * a.occ);
        int k = imagesOf(m, a).size();
        sumsf += w.sf.back() * k;
        tot += a.occ * k;
        om.push_back(a.occ * k);
    }
    for (size_t i = 0; i < om.size(); ++i) for (size_t j = 0; j < om.size(); ++j)
        if (pm(i, j))  act += om[i] * om[j];
    w.tot = tot;
    w.sfavg = tot > 0 ? sumsf / tot : 0;
    w.active = tot > 0 ? act / tot : 0;
    return w;
}

static Ref reference(const Model& m, const PdfCfg& c, const PairMask& pm, double maxwidth)
{
    Ref R;
    R.ambiguous = false;
    R.exlo = R.exhi = R.calclo = R.calchi = 0;
    double dr = c.rstep;
    R.rlo = stepsMin(c.rmin, dr);
    R.rhi = stepsMax(c.rmax, dr);
    for (int k = R.rlo; k < R.rhi; ++k)  R.rgrid.push_back(k * dr);
    double b = boundRel(c.prec);
    if (R.rlo < R.rhi)
    {
        double qmaxeff = c.qmax > 0 ? c.qmax : 1e300;
        double er = qmaxeff < NYQ / dr - 1.5e-8 ? 6 * 2 * M_PI / qmaxeff : 0;
        double et = std::max(0.0, maxwidth) * b;
        double total = er + et;
        if (total > c.maxext)
        {
            double sc = c.maxext / total;
            er *= sc;
            et *= sc;
            total = c.maxext;
        }
        R.exlo = std::max(0, stepsMin(c.rmin - er, dr));
        R.exhi = stepsMax(c.rmax + er, dr);
        R.calclo = std::max(0, stepsMin(c.rmin - total, dr));
        R.calchi = stepsMax(c.rmax + total, dr);
        // step counts decided by rounding
        for (double x : {c.rmin - er, c.rmax + er, c.rmin - total, c.rmax + total})
        {
            double f = x / dr - std::floor(x / dr);
            if (x != c.rmin && x != c.rmax && x > 0 && (f < 1e-6 || f > 1 - 1e-6))  R.ambiguous = true;
        }
    }
    for (int k = R.exlo; k < R.exhi; ++k)  R.rgrid_ext.push_back(k * dr);
    size_t n = R.rgrid_ext.size();
    vector<ld> acc(n, 0);
    R.rdftol.assign(n, 0);
    Weights w = weights(m, c, pm);
    double norm = w.tot * w.sfavg == 0 ? 0 : 1 / (w.tot * w.sfavg * w.sfavg);
    double lo = R.calclo * dr, hi = R.calchi * dr;
    bool cropped = c.profile == "croppedgaussian";
    double area = 1;
    double eps = std::max(c.prec, 2.220446049250313e-16);
    if (cropped)  area = std::erf(std::sqrt(-std::log(eps)));
    vector<vector<Image> > im = allImages(m);
    long npairs = 0;
    for (size_t i = 0; i < m.atoms.size(); ++i)
    for (auto& p : neighborsOf(m, i, std::max(0.0, lo - 1e-5), hi + 1e-5, &im))
    {
        if (!pm(p.i, p.j))  continue;
        double fw = c.fwhm(m, p);
        if (fw <= 0)  continue;
        double half = b * fw;
        if (fabs(p.d - lo) < 2e-6 || fabs(p.d - hi) < 2e-6)
        {
            // membership decided by rounding, matters only when tails reach the extended range
            if (p.d + half > R.exlo * dr - dr && p.d - half < R.exhi * dr + dr)  R.ambiguous = true;
        }
        if (p.d < lo || p.d > hi)  continue;
        double amp = w.sf[p.i] * w.sf[p.j] * p.mi * norm;
        ++npairs;
        double pk = 2 * std::sqrt(std::log(2.0) / M_PI) / fw / area;
        int k0 = std::max(R.exlo, int(std::floor((p.d - half) / dr)) - 2);
        int k1 = std::min(R.exhi - 1, int(std::ceil((p.d + half) / dr)) + 2);
        for (int k = k0; k <= k1; ++k)
        {
            double r = k * dr, x = r - p.d;
            double y = pk * std::exp(-4 * std::log(2.0) * (x / fw) * (x / fw));
            bool in = fabs(x) <= half;
            // values beside of the cutoff bound may or may not be included
            if (fabs(x) > half - 1e-9)  R.rdftol[k - R.exlo] += fabs(amp) * y * (r / p.d) * 1.01;
            if (in && !(cropped && fabs(x) >= half))  acc[k - R.exlo] += amp * y * (r / p.d);
        }
    }
    ctx().count("reference pairs", npairs);
    R.rdf.assign(acc.begin(), acc.end());
    return R;
}

static void checkTol(const string& key, const VD& got, const VD& want, const VD& tol, double rtol, const string& where)
{
    ctx().count("comparisons", want.size() + 1);
    if (got.size() != want.size())
    {
        ctx().fail(key + " size", fmt("size %zu expected %zu ", got.size(), want.size()) + where);
        return;
    }
    double mx = 0;
    for (double x : want)  mx = std::max(mx, fabs(x));
    for (size_t i = 0; i < want.size(); ++i)
    {
        double t = rtol * mx + tol[i] + 1e-12;
        if (!(fabs(got[i] - want[i]) <= t))
        {
            ctx().fail(key, fmt("point %zu of %zu: got %.17g expected %.17g tol %.3g max %.6g ", i, want.size(), got[i],
                        want[i], t, mx) + where);
            return;
        }
    }
}

static vector<double> cut(const VD& v, const Ref& R)
{
    if (v.empty())  return v;
    return VD(v.begin() + (R.rlo - R.exlo), v.end() - (R.exhi - R.rhi));
}

static void oneCase(Rng& g)
{
    GenOpt o;
    o.maximages = 30;
    o.nmin = g.chance(0.03) ? 0 : 1;
    o.nmax = ctx().thorough() ? 7 : 5;
    Model m = genModel(g, genKind(g), o);
    CfgOpt co;
    if (m.kind == CRYSTAL)  co.rmaxhi = 5;
    if (ctx().thorough())  co.rmaxhi += 4;
    PdfCfg c = genCfg(g, co);
    if (m.kind != ATOMIC && c.maxext > 4 && m.atoms.size() > 2)  c.maxext = g.pick({1, 2, 4});
    sr::PDFCalculator calc;
    if (g.chance(0.5))  calc.setEvaluatorType(sr::BASIC);
    c.apply(calc);
    sr::AtomicStructureAdapterPtr stru = toAdapter(m);
    PairMask pm = randomMask(g, m, calc, 0.25);
    string where = m.str() + " " + c.str() + (pm.any ? " masked" : "");
    ctx().sample(where);
    calc.eval(boost::static_pointer_cast<sr::StructureAdapter>(stru));
    double maxw = calc.getPeakWidthModel()->maxWidth(stru, c.rmin, c.rmax);
    Ref R = reference(m, c, pm, maxw);
    if (R.ambiguous)  { ctx().count("skipped ambiguous"); return; }
    VD zero;
    checkArray("C08:r grid", calc.getRgrid(), R.rgrid, 1e-14, 1e-13, where);
    checkArray("C08:extended r grid", calc.getExtendedRgrid(), R.rgrid_ext, 1e-14, 1e-13, where);
    checkNear("C08:extended rmin", calc.getExtendedRmin(), R.exlo * c.rstep, 1e-14, 1e-13, where);
    checkNear("C08:extended rmax", calc.getExtendedRmax(), R.exhi * c.rstep, 1e-14, 1e-13, where);
    checkTol("C08:RDF", calc.getExtendedRDF(), R.rdf, R.rdftol, 2e-9, where);
    checkTol("C08:RDF in r-range", calc.getRDF(), cut(R.rdf, R), cut(R.rdftol, R), 2e-9, where);
    size_t n = R.rdf.size();
    VD perr(n), perrtol(n), pre(n), prepdf(n), pretol(n);
    Weights w = weights(m, c, pm);
    double rho = m.kind == ATOMIC ? 0 : w.tot / m.lat.volume();
    double slope = c.baseline == "linear" ? (w.tot > 0 ? -4 * M_PI * rho * w.active / w.tot : 0.0) : 0.0;
    for (size_t i = 0; i < n; ++i)
    {
        double r = R.rgrid_ext[i];
        perr[i] = r > 1e-8 ? R.rdf[i] / r : 0;
        perrtol[i] = r > 1e-8 ? R.rdftol[i] / r : 0;
        pre[i] = perr[i] + slope * r;
    }
    // the smallest r has the largest relative amplification of rounding errors
    checkTol("C08:RDF/r", calc.getExtendedRDFperR(), perr, perrtol, 1e-8, where);
    checkTol("C08:RDF/r in r-range", calc.getRDFperR(), cut(perr, R), cut(perrtol, R), 1e-8, where);
    if (c.baseline == "linear")
        checkNear("C08:baseline slope", calc.getDoubleAttr("slope"), slope, 1e-9, 1e-12, where);
    // Fourier grids
    int npad = 0;
    if (R.exhi > 0)  for (npad = 1; npad < R.exhi; npad *= 2)  { }
    double dq = npad ? M_PI / (npad * c.rstep) : 0;
    checkNear("C08:qstep", calc.getQstep(), dq, 1e-12, 1e-14, where);
    double qmaxeff = std::min(c.qmax > 0 ? c.qmax : 1e300, M_PI / c.rstep);
    checkNear("C08:qmax", calc.getQmax(), qmaxeff, 1e-14, 0, where);
    double fk = dq > 0 ? qmaxeff / dq : 0;
    bool qamb = dq > 0 && qmaxeff < M_PI / c.rstep && fabs(fk - std::round(fk)) < 1e-9 * (1 + fk);
    int kmax = dq > 0 ? int(std::ceil(fk)) : 0;
    if (qmaxeff == M_PI / c.rstep)  kmax = npad;
    double fkm = dq > 0 ? c.qmin / dq : 0;
    qamb = qamb || (fkm > 0 && fabs(fkm - std::round(fkm)) < 1e-6);
    int kmin = int(std::ceil(fkm));
    bool skipfft = !(qmaxeff < M_PI / c.rstep - 1.5e-8) && kmin <= 1;
    if (qamb)  { ctx().count("skipped ambiguous Q"); return; }
    VD qg;
    for (int k = 0; k < kmax; ++k)  qg.push_back(k * dq);
    checkArray("C08:Q grid", calc.getQgrid(), qg, 1e-12, 1e-13, where);
    VD pdf(n), pdftol(n);
    bool dofft = !skipfft || g.chance(0.3);
    if (dofft && n && long(npad) * n < 3000000L)
    {
        VD sn(2 * npad);
        for (int k = 0; k < 2 * npad; ++k)  sn[k] = sinl(M_PIl * k / npad);
        vector<double> F(npad);
        double tolsum = 0, mxpre = 0;
        for (size_t i = 0; i < n; ++i)  { tolsum += perrtol[i] * c.rstep; mxpre += fabs(pre[i]) * c.rstep; }
        for (int k = 0; k < npad; ++k)
        {
            ld s = 0;
            for (size_t i = 0; i < n; ++i)
                s += pre[i] * sn[(long(k) * (R.exlo + i)) % (2 * npad)];
            F[k] = s * c.rstep;
        }
        double ftol = tolsum + 1e-9 * (1 + mxpre);
        VD extf = calc.getExtendedF();
        checkTol("C08:extended F", extf, F, VD(npad, ftol), 0, where);
        checkTol("C08:F", calc.getF(), VD(F.begin(), F.begin() + kmax), VD(kmax, ftol), 0, where);
        evaluated("F against direct sine sum");
        if (!skipfft)
        {
            ctx().count("cases with band limits");
            for (size_t i = 0; i < n; ++i)
            {
                ld s = 0;
                for (int k = std::min(kmin, kmax); k < kmax; ++k)  s += F[k] * sn[(long(k) * (R.exlo + i)) % (2 * npad)];
                double env = c.envelope(R.rgrid_ext[i]);
                pdf[i] = s * dq * 2 / M_PI * env;
                pdftol[i] = (2 / M_PI) * ftol * dq * (kmax - kmin + 1) * fabs(env);
            }
        }
    }
    bool havepdf = skipfft || (n && long(npad) * n < 3000000L);
    if (skipfft)
    {
        for (size_t i = 0; i < n; ++i)
        {
            double env = c.envelope(R.rgrid_ext[i]);
            pdf[i] = pre[i] * env;
            pdftol[i] = perrtol[i] * fabs(env);
        }
    }
    if (havepdf)
    {
        checkTol("C08:extended PDF", calc.getExtendedPDF(), pdf, pdftol, 1e-8, where);
        checkTol("C08:PDF", calc.getPDF(), cut(pdf, R), cut(pdftol, R), 1e-8, where);
        evaluated("PDF against definition");
    }
    bool nz = false;
    for (double x : R.rdf)  nz = nz || x != 0;
    if (nz)  ctx().count(string("nonzero ") + (m.kind == ATOMIC ? "atomic" : m.kind == PERIODIC ? "periodic" : "crystal"));
    if (nz && pm.any)  ctx().count("nonzero masked");
    evaluated("RDF against definition");
    ctx().distinct(hcomb(hvec(R.rdf), c.hash()));
    // the same point calculated with another r-range and no Q cut
    if (g.chance(0.4) && R.rlo < R.rhi)
    {
        PdfCfg a = c, b = c;
        a.qmin = b.qmin = a.qmax = b.qmax = 0;
        a.maxext = b.maxext = 20;
        a.delta1 = b.delta1 = c.delta1;
        b.rmin = std::max(0.0, std::floor(c.rmin / c.rstep / 2) * c.rstep);
        b.rmax = c.rmax + g.u(0, 1.5);
        sr::PDFCalculator ca, cb;
        a.apply(ca);
        b.apply(cb);
        ca.eval(boost::static_pointer_cast<sr::StructureAdapter>(stru));
        cb.eval(boost::static_pointer_cast<sr::StructureAdapter>(stru));
        VD ra = ca.getRDF(), rb = cb.getRDF();
        VD ga = ca.getRgrid(), gb = cb.getRgrid();
        double mx = 0;
        for (double x : rb)  mx = std::max(mx, fabs(x));
        size_t off = 0;
        while (off < gb.size() && gb[off] < ga[0] - c.rstep / 3)  ++off;
        checkTrue("C08:grid of the wider range", off + ga.size() <= gb.size(), where);
        // every neglected tail is below the precision of its peak height; bound their number by pairs in reach
        // peaks beyond the range may be wider than the bound used for the shorter range
        double hb = boundRel(c.prec);
        double w0 = ca.getPeakWidthModel()->maxWidth(stru, c.rmin, c.rmax);
        double w1 = ca.getPeakWidthModel()->maxWidth(stru, c.rmin, c.rmax + 2 * hb * w0 + 1);
        double q = w1 > 0 ? w0 / w1 : 1;
        double eps = std::pow(std::max(c.prec, 1e-15), q * q);
        double tol = 1e-9 * mx + 60 * eps * 50 * mx;
        tol = std::max(tol, 1e-12);
        for (size_t i = 0; i < ga.size() && off + i < gb.size(); ++i)
        {
            ctx().count("comparisons");
            if (fabs(ra[i] - rb[off + i]) > tol)
            {
                ctx().fail("C08:value depends on the r-range", where + fmt(" r=%.10g got %.12g wider range %.12g", ga[i], ra[i], rb[off + i]));
                break;
            }
        }
        evaluated("r-range independence");
    }
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, [](long, Rng& g)  { oneCase(g); });
}
