// C20: sine transforms and band-pass filtering compared with direct sums on arbitrary signals
#include "common.hpp"
#include <diffpy/srreal/PDFUtils.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/PDFBaseline.hpp>
#include <diffpy/srreal/AtomicStructureAdapter.hpp>
#include <boost/make_shared.hpp>
using namespace dpv;
namespace sr = diffpy::srreal;

// arbitrary signal in the place of the PDF baseline
class SignalBaseline : public sr::PDFBaseline
{
public:
    VD sig;
    double step;
    sr::PDFBaselinePtr create() const  { return sr::PDFBaselinePtr(new SignalBaseline); }
    sr::PDFBaselinePtr clone() const  { return sr::PDFBaselinePtr(new SignalBaseline(*this)); }
    const string& type() const  { static string s = "dpvsignal"; return s; }
    double operator()(const double& r) const
    {
        long k = std::lround(r / step);
        return k >= 0 && k < long(sig.size()) ? sig[k] : 0;
    }
};

static long pow2(long n)
{
    long r = 1;
    while (r < n)  r *= 2;
    return r;
}

static void sinTable(long N, vector<ld>& sn)
{
    sn.resize(2 * N);
    for (long k = 0; k < 2 * N; ++k)  sn[k] = sinl(M_PIl * k / N);
    sn[0] = sn[N] = 0;
}

// step * sum_n g_n sin(pi (n + off) k / N) for k in [0, nk)
static VD direct(const VD& g, long off, long N, double step, const vector<ld>& sn)
{
    VD f(N);
    for (long k = 0; k < N; ++k)
    {
        ld s = 0;
        unsigned long j = (off * k) % (2 * N);
        for (size_t n = 0; n < g.size(); ++n)
        {
            s += g[n] * sn[j];
            j += k;
            if (j >= (unsigned long) (2 * N))  j -= 2 * N;
        }
        f[k] = s * step;
    }
    return f;
}

static VD signal(Rng& g, size_t n)
{
    VD v(n);
    switch (g.i(0, 4))
    {
        case 0:
            for (double& x : v)  x = g.gauss();
            break;
        case 1:
            if (n)  v[g.i(0, n - 1)] = g.u(-3, 3);
            break;
        case 2:
        {
            double a = g.u(0, 3.2), p = g.u(0, 7), s = g.u(1, 50);
            for (size_t k = 0; k < n; ++k)  v[k] = s * std::sin(a * k + p) * std::exp(-1.0 * k / (n + 1));
            break;
        }
        case 3:
            for (size_t k = 0; k < n; ++k)  v[k] = 1 + 0.01 * k;
            break;
        default:
            for (double& x : v)  if (g.chance(0.2))  x = g.u(-1, 1) * std::pow(10, g.u(-6, 6));
    }
    return v;
}

static double asum(const VD& v)
{
    double s = 0;
    for (double x : v)  s += fabs(x);
    return s;
}

static bool arr(const string& key, const VD& got, const VD& want, double tol, const string& where)
{
    ctx().count("comparisons", 1 + want.size());
    if (got.size() != want.size())
    {
        ctx().fail(key + " size", fmt("%zu expected %zu ", got.size(), want.size()) + where);
        return false;
    }
    for (size_t k = 0; k < want.size(); ++k)
        if (!(fabs(got[k] - want[k]) <= tol))
        {
            ctx().fail(key, fmt("point %zu of %zu: got %.17g expected %.17g tol %.3g ", k, want.size(), got[k], want[k], tol) + where);
            return false;
        }
    return true;
}

static size_t lengthOf(Rng& g)
{
    int big = ctx().thorough() ? 3000 : 700;
    switch (g.i(0, 5))
    {
        case 0:  return g.i(0, 5);
        case 1:  return (1 << g.i(0, ctx().thorough() ? 11 : 9)) + g.i(-1, 1);
        case 2:  return g.i(1, 40);
        default:  return g.i(1, big);
    }
}

static void transforms(Rng& g)
{
    size_t n = lengthOf(g);
    double step = g.chance(0.5) ? g.pick({0.01, 0.1, 0.05, 0.25, 1, 0.037}) : std::pow(10, g.u(-3, 1));
    long off = g.chance(0.4) ? 0 : g.chance(0.5) ? g.i(0, 10) : g.i(0, ctx().thorough() ? 1500 : 300);
    double start = off * step;
    if (g.chance(0.3))  start += step * g.u(off ? -0.45 : 0, 0.45);
    VD s = signal(g, n);
    string where = fmt("n=%zu step=%.17g start=%.17g (offset %ld)", n, step, start, off);
    ctx().sample(where);
    bool back = g.chance(0.3);
    VD f = back ? sr::fftftog(s, step, start) : sr::fftgtof(s, step, start);
    if (off == 0 && start == 0 && g.chance(0.5))  f = back ? sr::fftftog(s, step) : sr::fftgtof(s, step);
    if (!n)
    {
        checkTrue("C20:transform of empty array", f.empty(), where);
        ctx().count("empty arrays");
        return;
    }
    long N = pow2(off + n);
    vector<ld> sn;
    sinTable(N, sn);
    VD want = direct(s, off, N, step, sn);
    if (back)  for (double& x : want)  x *= 2 / M_PI;
    double sc = 1e-13 * asum(s) * step + 1e-300;
    arr(back ? "C20:fftftog against sine sum" : "C20:fftgtof against sine sum", f, want, sc, where);
    evaluated("transform against direct sum");
    if (off)  ctx().count("with offset");
    if (n == size_t(N))  ctx().count("full power of two");
    ctx().distinct(hcomb(hvec(f), hcomb(n, off)));
    // linear
    VD t = signal(g, n), st(n);
    double a = g.u(-3, 3), b = g.u(-3, 3);
    for (size_t k = 0; k < n; ++k)  st[k] = a * s[k] + b * t[k];
    VD fs = sr::fftgtof(s, step, start), ft = sr::fftgtof(t, step, start), fst = sr::fftgtof(st, step, start);
    VD lin(fs.size());
    for (size_t k = 0; k < lin.size(); ++k)  lin[k] = a * fs[k] + b * ft[k];
    arr("C20:linearity", fst, lin, 1e-12 * step * (3 * asum(s) + 3 * asum(t)) + 1e-300, where);
    evaluated("linearity");
    // there and back
    double qstep = M_PI / (N * step);
    VD g2 = sr::fftftog(fs, qstep);
    VD pad(N, 0.0);
    for (size_t k = 0; k < n; ++k)  if (off + k > 0)  pad[off + k] = s[k];
    arr("C20:fftftog of fftgtof", g2, pad, 1e-12 * asum(s) + 1e-300, where);
    VD f2 = sr::fftgtof(sr::fftftog(fs, qstep), step);
    arr("C20:fftgtof of fftftog", f2, fs, 1e-12 * asum(fs) + 1e-300, where);
    evaluated("inversion");
    // leading zeros in place of an offset
    VD z(off, 0.0);
    z.insert(z.end(), s.begin(), s.end());
    arr("C20:offset against leading zeros", sr::fftgtof(z, step), fs, 1e-13 * asum(s) * step + 1e-300, where);
}

struct Band  { double qmin, qmax; };

static VD filtered(sr::PDFCalculator& c, const boost::shared_ptr<SignalBaseline>& b, const VD& s)
{
    b->sig = s;
    return c.getExtendedPDF();
}

static void bandpass(Rng& g)
{
    double rstep = g.chance(0.5) ? g.pick({0.01, 0.1, 0.05, 0.25, 0.037}) : g.u(0.01, 0.5);
    long N = 1 << g.i(2, ctx().thorough() ? 10 : 8);
    bool full = g.chance(0.5);
    long hi = full ? N : g.i(N / 2 + 1, N);
    long lo = full ? 0 : g.chance(0.5) ? 0 : g.i(0, hi - 1);
    sr::PDFCalculator c;
    boost::shared_ptr<SignalBaseline> b(new SignalBaseline);
    b->step = rstep;
    c.setBaseline(b);
    c.clearEnvelopes();
    c.setMaxExtension(0);
    c.setRstep(rstep);
    c.setRmin(lo * rstep);
    c.setRmax((hi - 0.5) * rstep);
    double nyq = M_PI / rstep;
    // band limits off the Q-grid points
    double dq = M_PI / (N * rstep);
    auto q = [&](double x)
    {
        double y = x / dq;
        if (fabs(y - std::round(y)) < 1e-3)  y = std::round(y) + 0.1;
        return y * dq;
    };
    Band B = {0, 0};
    if (g.chance(0.8))  B.qmax = q(g.u(0.05, 1.05) * nyq);
    if (g.chance(0.6))  B.qmin = q(g.u(0, 0.8) * nyq);
    if (g.chance(0.1))  B.qmin = q(g.u(0, 2) * nyq);
    c.setQmin(B.qmin);
    c.setQmax(B.qmax);
    string where = fmt("N=%ld r-range [%ld,%ld) rstep=%.17g qmin=%.17g qmax=%.17g", N, lo, hi, rstep, B.qmin, B.qmax);
    ctx().sample(where);
    c.eval(boost::static_pointer_cast<sr::StructureAdapter>(boost::make_shared<sr::AtomicStructureAdapter>()));
    checkNear("C20:Q step", c.getQstep(), dq, 1e-12, 0, where);
    VD s = signal(g, N);
    // outside of the r-range the signal is not used
    VD x(s.begin() + lo, s.begin() + hi);
    VD y = filtered(c, b, s);
    double qmaxeff = B.qmax > 0 && B.qmax < nyq ? B.qmax : nyq;
    long kmax = std::min<long>(N, std::ceil(qmaxeff / dq - 1e-9));
    long kmin = std::ceil(B.qmin / dq);
    vector<ld> sn;
    sinTable(N, sn);
    VD F = direct(x, lo, N, rstep, sn);
    double tolf = 1e-12 * asum(x) * rstep + 1e-300;
    b->sig = s;
    arr("C20:unfiltered F", c.getExtendedF(), F, tolf, where);
    arr("C20:F up to Qmax", c.getF(), VD(F.begin(), F.begin() + kmax), tolf, where);
    bool nofilter = kmin <= 1 && kmax >= N;
    VD ref(hi - lo);
    for (long n = lo; n < hi; ++n)
    {
        ld t = 0;
        for (long k = kmin; k < kmax; ++k)  t += F[k] * sn[(n * k) % (2 * N)];
        ref[n - lo] = t * dq * 2 / M_PI;
        // all components pass, but it is open if the value at r = 0, which has no sine
        // component, stays
        if (nofilter)  ref[n - lo] = n ? x[n - lo] : y[n - lo];
    }
    double tol = 1e-11 * asum(x) + 1e-300;
    if (!arr("C20:band-pass filter against direct sums", y, ref, tol, where))  return;
    evaluated("band filter against direct sums");
    if (!nofilter)  ctx().count("filtered signals");
    ctx().distinct(hcomb(hvec(y), hcomb(hdbl(B.qmin), hdbl(B.qmax))));
    // linear
    VD t = signal(g, N), st(N);
    double a1 = g.u(-3, 3), a2 = g.u(-3, 3);
    for (long k = 0; k < N; ++k)  st[k] = a1 * s[k] + a2 * t[k];
    VD yt = filtered(c, b, t), yst = filtered(c, b, st), lin(y.size());
    for (size_t k = 0; k < lin.size(); ++k)  lin[k] = a1 * y[k] + a2 * yt[k];
    arr("C20:linearity of the band filter", yst, lin, 1e-11 * 3 * (asum(s) + asum(t)) + 1e-300, where);
    evaluated("band filter linearity");
    if (full)
    {
        VD yy = filtered(c, b, y);
        arr("C20:band filter repeated", yy, y, tol, where);
        evaluated("band filter idempotence");
        // exactly the components out of the band are gone
        VD Fy = direct(y, 0, N, rstep, sn), Fw = F;
        for (long k = 0; k < N; ++k)  if (!nofilter && (k < kmin || k >= kmax))  Fw[k] = 0;
        arr("C20:components after the band filter", Fy, Fw, tol * rstep * N, where);
        // the band and its complement add up to the signal
        if (kmin <= 1 && kmax < N)
        {
            sr::PDFCalculator c2;
            c2.setBaseline(b);
            c2.clearEnvelopes();
            c2.setMaxExtension(0);
            c2.setRstep(rstep);
            c2.setRmin(0);
            c2.setRmax((hi - 0.5) * rstep);
            c2.setQmin((kmax - 0.5) * dq);
            c2.eval(boost::static_pointer_cast<sr::StructureAdapter>(boost::make_shared<sr::AtomicStructureAdapter>()));
            VD y2 = filtered(c2, b, s), sum(y.size()), w = x;
            for (size_t k = 0; k < sum.size(); ++k)  sum[k] = y[k] + y2[k];
            w[0] = 0;
            if (kmax > 1)
            {
                arr("C20:band and its complement", sum, w, tol, where);
                evaluated("complementary bands");
            }
        }
    }
}

// PDF from the reciprocal-space calculator against its own F(Q)
static void debyeBand(Rng& g)
{
    sr::AtomicStructureAdapterPtr st(new sr::AtomicStructureAdapter);
    static const vector<string> types = {"C", "O", "Fe"};
    for (int n = g.i(1, 5); n > 0; --n)
    {
        sr::Atom a;
        a.atomtype = g.pick(types);
        a.xyz_cartn = sr::R3::Vector(g.u(0, 4), g.u(0, 4), g.u(0, 4));
        a.occupancy = g.u(0.3, 1);
        double u = g.u(0.002, 0.02);
        a.uij_cartn = sr::R3::identity();
        a.uij_cartn *= u;
        st->append(a);
    }
    sr::DebyePDFCalculator c;
    double rstep = g.pick({0.01, 0.05, 0.1, 0.037});
    double rmin = g.chance(0.5) ? 0 : g.u(0, 2), rmax = rmin + g.u(0.1, 6);
    c.clearEnvelopes();
    c.setRstep(rstep);
    c.setRmin(rmin);
    c.setRmax(rmax);
    c.setQmax(g.u(3, 25));
    if (g.chance(0.5))  c.setQstep(g.u(0.02, 0.2));
    double qmin = g.chance(0.3) ? 0 : g.u(0, 6);
    c.setQmin(qmin);
    c.eval(boost::static_pointer_cast<sr::StructureAdapter>(st));
    double dq = c.getQstep();
    VD F = c.getF(), rg = c.getRgrid(), G = c.getPDF();
    string where = fmt("Debye r=[%.17g,%.17g]/%.17g q=[%.17g,%.17g]/%.17g nF=%zu", rmin, rmax, rstep, qmin, c.getQmax(), dq, F.size());
    ctx().sample(where);
    double km = qmin / dq;
    if (fabs(km - std::round(km)) < 1e-6)  return;
    size_t nf = F.size();
    for (size_t k = 0; k < nf && k < std::ceil(km); ++k)  F[k] = 0;
    double want = M_PI / rstep / dq;
    if (fabs(want - std::round(want)) < 1e-6 && pow2(std::round(want)) != pow2(std::round(want) + 1))  return;
    long N = pow2(std::max<long>(nf, std::ceil(want - 1e-9)));
    vector<ld> sn;
    sinTable(N, sn);
    double drp = M_PI / (N * dq);
    VD ref;
    auto at = [&](long k)
    {
        if (k >= N)  return 0.0L;
        ld s = 0;
        for (size_t j = 0; j < nf; ++j)  s += F[j] * sn[(k * j) % (2 * N)];
        return s * dq * 2 / M_PI;
    };
    for (double r : rg)
    {
        double x = r / drp;
        long k = x;
        ref.push_back((1 - (x - k)) * at(k) + (x - k) * at(k + 1));
    }
    arr("C20:PDF with Qmin from F", G, ref, 1e-10 * (asum(F) * dq + 1e-12), where);
    evaluated("Debye PDF against sine sum of F");
    // values at Q-limits above and below
    VD f2 = c.getF();
    F = c.getF();
    checkTrue("C20:F kept by PDF calculation", f2 == F, where);
    ctx().distinct(hcomb(hvec(G), 5));
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, [](long, Rng& g)
    {
        double x = g.u();
        if (x < 0.5)  transforms(g);
        else if (x < 0.62)  debyeBand(g);
        else  bandpass(g);
    });
}
