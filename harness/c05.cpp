// C05: unit cell geometry against its definitions in long double arithmetic
#include "structures.hpp"
#include <diffpy/mathutils.hpp>
#include <diffpy/srreal/Lattice.hpp>
using namespace dpv;

typedef std::array<std::array<ld, 3>, 3> LM;

static ld lcosd(ld x)
{
    ld p = fmodl(fabsl(x), 360);
    // exact quadrant reduction
    int k = int(floorl(p / 90));
    ld r = p - 90 * k;
    ld c = r == 0 ? 1 : r == 60 ? 0.5L : cosl(r * M_PIl / 180);
    ld s = r == 0 ? 0 : r == 30 ? 0.5L : sinl(r * M_PIl / 180);
    return k % 4 == 0 ? c : k % 4 == 1 ? -s : k % 4 == 2 ? -c : s;
}

static ld lsind(ld x)
{
    ld s = x < 0 ? -1 : 1;
    ld p = fmodl(fabsl(x), 360);
    int k = int(floorl(p / 90));
    ld r = p - 90 * k;
    ld cc = r == 0 ? 1 : r == 60 ? 0.5L : cosl(r * M_PIl / 180);
    ld ss = r == 0 ? 0 : r == 30 ? 0.5L : sinl(r * M_PIl / 180);
    return s * (k % 4 == 0 ? ss : k % 4 == 1 ? cc : k % 4 == 2 ? -ss : -cc);
}

static LM lmul(const LM& a, const LM& b)
{
    LM r;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
        r[i][j] = 0;
        for (int k = 0; k < 3; ++k)  r[i][j] += a[i][k] * b[k][j];
    }
    return r;
}

static LM ltrans(const LM& a)
{
    LM r;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  r[i][j] = a[j][i];
    return r;
}

static ld ldet(const LM& a)
{
    return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) +
        a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
}

static LM linv(const LM& a)
{
    ld d = ldet(a);
    LM r;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
        int i1 = (j + 1) % 3, i2 = (j + 2) % 3, j1 = (i + 1) % 3, j2 = (i + 2) % 3;
        r[i][j] = (a[i1][j1] * a[i2][j2] - a[i1][j2] * a[i2][j1]) / d;
    }
    return r;
}

static LM fromM(const M3& m)
{
    LM r;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  r[i][j] = m[i][j];
    return r;
}

static ld lnorm(const std::array<ld, 3>& v)  { return sqrtl(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }

// reference geometry from cell parameters and rotation of the base
struct Ref
{
    ld p[6], co[3], si[3], V, Vn;
    ld amp;             // error amplification
    LM std_, base, rec, metric;
    void build(const double* q, const LM& rot)
    {
        for (int k = 0; k < 6; ++k)  p[k] = q[k];
        for (int k = 0; k < 3; ++k)  { co[k] = lcosd(p[3 + k]); si[k] = lsind(p[3 + k]); }
        Vn = sqrtl(1 + 2 * co[0] * co[1] * co[2] - co[0] * co[0] - co[1] * co[1] - co[2] * co[2]);
        V = Vn * p[0] * p[1] * p[2];
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
            metric[i][j] = p[i] * p[j] * (i == j ? 1 : co[3 - i - j]);
        // c along z, b in the yz plane
        ld az = p[0] * co[1], ay = p[0] * (co[2] - co[1] * co[0]) / si[0], ax = p[0] * Vn / si[0];
        std_ = {{ {{ax, ay, az}}, {{0, p[1] * si[0], p[1] * co[0]}}, {{0, 0, p[2]}} }};
        base = lmul(std_, rot);
        rec = linv(base);
        amp = 1 / (Vn * Vn);
    }
};

static const LM& lid()
{
    static LM r = fromM(m3id());
    return r;
}

static bool genPars(Rng& g, double* q)
{
    for (int k = 0; k < 3; ++k)  q[k] = g.chance(0.1) ? g.i(1, 9) : g.chance(0.1) ? std::pow(10.0, g.u(-2, 3)) : g.u(1, 20);
    if (g.chance(0.15))  q[1] = q[0];
    if (g.chance(0.15))  q[2] = q[0];
    for (int tries = 0; tries < 400; ++tries)
    {
        for (int k = 3; k < 6; ++k)
        {
            q[k] = g.chance(0.3) ? 90 : g.chance(0.2) ? g.pick({60, 120, 45, 135, 30, 150, 109.4712206}) : g.u(20, 160);
            if (g.chance(0.03))  q[k] += g.pick({1e-9, -1e-9, 1e-12, -1e-6});
        }
        if (g.chance(0.1))  q[4] = q[5] = q[3];
        Ref r;
        r.build(q, lid());
        if (r.Vn > 0.05L)  return true;
    }
    return false;
}

static void ckm(const string& key, const sr::R3::Matrix& got, const LM& want, ld rtol, const string& where)
{
    VD x, y;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  { x.push_back(got(i, j)); y.push_back(want[i][j]); }
    checkArray(key, x, y, rtol, 1e-300, where);
}

template <class V, class W>
static void ckv(const string& key, const V& got, const W& want, double tol, const string& where)
{
    VD x = {got[0], got[1], got[2]}, y = {(double) want[0], (double) want[1], (double) want[2]};
    checkArray(key, x, y, 0, tol, where);
}

static std::array<ld, 3> lrmul(const V3& v, const LM& m)
{
    std::array<ld, 3> r;
    for (int j = 0; j < 3; ++j)  r[j] = (ld) v[0] * m[0][j] + (ld) v[1] * m[1][j] + (ld) v[2] * m[2][j];
    return r;
}

static V3 genVec(Rng& g)
{
    if (g.chance(0.3))  return v3(g.i(-3, 3), g.i(-3, 3), g.i(-3, 3));
    double s = g.chance(0.15) ? std::pow(10.0, g.u(-6, 5)) : 5;
    return v3(g.u(-s, s), g.u(-s, s), g.u(-s, s));
}

static void checkLattice(Rng& g, const sr::Lattice& L, const Ref& r, const string& where)
{
    const string K = "C05:";
    ld c = r.amp;
    ld t = 8e-15L * c;
    checkNear(K + "a", L.a(), r.p[0], t, 0, where);
    checkNear(K + "b", L.b(), r.p[1], t, 0, where);
    checkNear(K + "c", L.c(), r.p[2], t, 0, where);
    checkNear(K + "alpha", L.alpha(), r.p[3], t * 10, 0, where);
    checkNear(K + "beta", L.beta(), r.p[4], t * 10, 0, where);
    checkNear(K + "gamma", L.gamma(), r.p[5], t * 10, 0, where);
    checkNear(K + "cosalpha", L.cosalpha(), r.co[0], t, t, where);
    checkNear(K + "cosbeta", L.cosbeta(), r.co[1], t, t, where);
    checkNear(K + "cosgamma", L.cosgamma(), r.co[2], t, t, where);
    checkNear(K + "sinalpha", L.sinalpha(), r.si[0], t, t, where);
    checkNear(K + "sinbeta", L.sinbeta(), r.si[1], t, t, where);
    checkNear(K + "singamma", L.singamma(), r.si[2], t, t, where);
    checkNear(K + "volume", L.volume(), r.V, t, 0, where);
    checkNear(K + "volumeNormal", L.volumeNormal(), r.Vn, t, 0, where);
    ckm(K + "standard base", L.stdbase(), r.std_, t, where);
    checkTrue(K + "orientation of the standard base", L.stdbase()(2, 0) == 0 && L.stdbase()(2, 1) == 0 &&
            L.stdbase()(1, 0) == 0, where);
    ckm(K + "base", L.base(), r.base, t, where);
    for (int k = 0; k < 3; ++k)
    {
        const sr::R3::Vector& v = k == 0 ? L.va() : k == 1 ? L.vb() : L.vc();
        ckv(K + "base vector", v, r.base[k], t * r.p[k], where);
    }
    ckm(K + "metrics", L.metrics(), r.metric, t, where);
    // elements of the reciprocal base by columns
    ld rn[3], rdot[3];
    LM rt = ltrans(r.rec);
    for (int k = 0; k < 3; ++k)
    {
        rn[k] = lnorm(rt[k]);
        const sr::R3::Vector& v = k == 0 ? L.var() : k == 1 ? L.vbr() : L.vcr();
        ckv(K + "reciprocal vector", v, rt[k], t * rn[k] * 12, where);
        VD x = {L.recbase()(0, k), L.recbase()(1, k), L.recbase()(2, k)};
        ckv(K + "inverse base", x, rt[k], t * rn[k] * 12, where);
    }
    checkNear(K + "ar", L.ar(), rn[0], t, 0, where);
    checkNear(K + "br", L.br(), rn[1], t, 0, where);
    checkNear(K + "cr", L.cr(), rn[2], t, 0, where);
    for (int k = 0; k < 3; ++k)
    {
        int i = (k + 1) % 3, j = (k + 2) % 3;
        ld d = rt[i][0] * rt[j][0] + rt[i][1] * rt[j][1] + rt[i][2] * rt[j][2];
        rdot[k] = d / rn[i] / rn[j];
        double cg = k == 0 ? L.cosalphar() : k == 1 ? L.cosbetar() : L.cosgammar();
        double sg = k == 0 ? L.sinalphar() : k == 1 ? L.sinbetar() : L.singammar();
        double ag = k == 0 ? L.alphar() : k == 1 ? L.betar() : L.gammar();
        checkNear(K + "reciprocal cosine", cg, rdot[k], 0, t * 4, where);
        ld s = sqrtl(1 - rdot[k] * rdot[k]);
        checkNear(K + "reciprocal sine", sg, s, 0, t * 4 / (double) s, where);
        checkNear(K + "reciprocal angle", ag, acosl(rdot[k]) * 180 / M_PIl, 0, 60 * t * 4 / (double) s, where);
    }
    evaluated("cell parameters");
    // vectors
    double mx = std::max(r.p[0], std::max(r.p[1], r.p[2]));
    double rmx = std::max(rn[0], std::max(rn[1], rn[2]));
    for (int n = 0; n < 4; ++n)
    {
        V3 u = genVec(g), v = genVec(g);
        if (g.chance(0.3))  v = g.pick({1, -1, 2, -0.5, 1 + 1e-9, 1e-3}) * u;
        double nu = norm(u), nv = norm(v);
        std::array<ld, 3> cu = lrmul(u, r.base), cv = lrmul(v, r.base);
        sr::R3::Vector U = toR3(u), Vv = toR3(v);
        ckv(K + "cartesian", sr::R3::Vector(L.cartesian(U)), cu, 3 * t * mx * nu + 1e-300, where);
        ckv(K + "cartesian of other vector type", L.cartesian(u), cu, 3 * t * mx * nu + 1e-300, where);
        std::array<ld, 3> fu = lrmul(u, r.rec);
        ckv(K + "fractional", sr::R3::Vector(L.fractional(U)), fu, 5 * t * rmx * nu + 1e-300, where);
        ckv(K + "fractional of other vector type", L.fractional(u), fu, 5 * t * rmx * nu + 1e-300, where);
        sr::R3::Vector back = L.fractional(L.cartesian(U));
        ckv(K + "cartesian inverted by fractional", back, u, 20 * t * nu * mx * rmx + 1e-300, where);
        back = L.cartesian(L.fractional(U));
        ckv(K + "fractional inverted by cartesian", back, u, 20 * t * nu * mx * rmx + 1e-300, where);
        if (std::floor(u[0]) == u[0] && std::floor(u[1]) == u[1] && std::floor(u[2]) == u[2])
        {
            int iu[3] = {int(u[0]), int(u[1]), int(u[2])};
            ckv(K + "cartesian of integers", L.cartesian(iu), cu, 3 * t * mx * nu + 1e-300, where);
            ctx().count("integer vectors");
        }
        // scalar functions
        ld du = lnorm(cu), dv = lnorm(cv);
        ld d = cu[0] * cv[0] + cu[1] * cv[1] + cu[2] * cv[2];
        double st = 4 * t * mx * mx * nu * nv;
        checkNear(K + "dot", L.dot(u, v), d, 0, st + 1e-300, where);
        checkNear(K + "dot of R3 vectors", L.dot(U, Vv), d, 0, st + 1e-300, where);
        checkNear(K + "norm", L.norm(u), du, 4e-14 * c * (du > 0 ? mx * nu / (double) du : 1), 1e-300, where);
        checkNear(K + "norm of R3 vector", L.norm(U), du, 4e-14 * c * (du > 0 ? mx * nu / (double) du : 1), 1e-300, where);
        std::array<ld, 3> df = {{cu[0] - cv[0], cu[1] - cv[1], cu[2] - cv[2]}};
        ld dd = lnorm(df);
        double dt = 4 * t * mx * (nu + nv);
        // square root of a rounded difference
        dt = dd > 0 ? std::min<double>(dt * mx * (nu + nv) / (double) dd, std::sqrt(dt * mx * (nu + nv))) + dt : dt;
        checkNear(K + "distance", L.distance(u, v), dd, 0, dt + 1e-300, where);
        checkNear(K + "distance of R3 vectors", L.distance(U, Vv), dd, 0, dt + 1e-300, where);
        if (du > 0 && dv > 0)
        {
            ld ca = std::max(-1.0L, std::min(1.0L, d / du / dv));
            ld an = acosl(ca);
            double e = 4 * t * mx * mx * nu * nv / (double) (du * dv) + 4e-16;
            ld s = sqrtl(1 - ca * ca);
            double at = std::min<double>(s > 0 ? 2 * e / (double) s : 1, 3 * std::sqrt(e));
            double ar = L.anglerad(u, v), ad = L.angledeg(U, Vv);
            checkTrue(K + "angle is a number", std::isfinite(ar) && std::isfinite(ad), where +
                    fmt(" u=(%.17g,%.17g,%.17g) v=(%.17g,%.17g,%.17g)", u[0], u[1], u[2], v[0], v[1], v[2]));
            if (std::isfinite(ar) && std::isfinite(ad))
            {
                checkNear(K + "anglerad", ar, an, 0, at, where);
                checkNear(K + "angledeg", ad, an * 180 / M_PIl, 0, at * 60, where);
            }
            if (s < 1e-6)  ctx().count("angles of parallel vectors");
        }
        // wrapping to the unit cell
        {
            // coordinates next to the cell boundary
            V3 b = v3(0, 0, 0);
            bool bin = true;
            V3 off;
            for (int k = 0; k < 3; ++k)
            {
                b[k] = g.i(-2, 2) + (g.chance(0.3) ? 0 : (g.chance(0.5) ? 1 : -1) * std::pow(10, g.u(-18, -6)));
                if (g.chance(0.3))  b[k] = (g.chance(0.5) ? 1 : -1) * std::pow(10, g.u(-20, -6));
            }
            sr::R3::Vector z = L.ucvFractional(toR3(b));
            for (int k = 0; k < 3; ++k)
            {
                bin = bin && z[k] >= 0 && z[k] < 1;
                off[k] = z[k] - b[k] - std::round(z[k] - b[k]);
            }
            string wb = where + fmt(" b=(%.17g,%.17g,%.17g)", b[0], b[1], b[2]);
            checkTrue(K + "coordinates wrapped to the unit cell", bin, wb);
            ckv(K + "wrapping by lattice vectors", off, v3(0, 0, 0), 2e-8, wb);
        }
        sr::R3::Vector w = L.ucvFractional(U);
        V3 df3;
        bool in = true;
        for (int k = 0; k < 3; ++k)
        {
            in = in && w[k] >= 0 && w[k] < 1;
            df3[k] = w[k] - u[k] - std::round(w[k] - u[k]);
        }
        checkTrue(K + "coordinates wrapped to the unit cell", in, where);
        ckv(K + "wrapping by lattice vectors", df3, v3(0, 0, 0), 2e-8 + 1e-15 * nu, where);
        ckv(K + "wrapping of other vector type", L.ucvFractional(u), w, 0, where);
        if (nu < 1e4)
        {
            sr::R3::Vector wc = L.ucvCartesian(U);
            sr::R3::Vector wf = L.fractional(wc);
            in = true;
            for (int k = 0; k < 3; ++k)
            {
                in = in && wf[k] > -1e-7 && wf[k] < 1 + 1e-7;
                ld x = wf[k] - fu[k];
                df3[k] = x - roundl(x);
            }
            checkTrue(K + "Cartesian vector wrapped to the unit cell", in, where);
            ckv(K + "Cartesian wrapping by lattice vectors", df3, v3(0, 0, 0), 2e-8 + 40 * t * (1 + nu * rmx) * mx * rmx, where);
        }
    }
    evaluated("vector operations");
    // displacement tensors
    M3 A;
    for (int i = 0; i < 3; ++i) for (int j = 0; j <= i; ++j)  A[i][j] = A[j][i] = g.u(-0.05, 0.05);
    LM N;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  N[i][j] = r.base[i][j] * rn[i];
    LM uc = lmul(ltrans(N), lmul(fromM(A), N));
    sr::R3::Matrix gc = L.cartesianMatrix(toR3(A));
    VD x, y;
    ld big = 0;
    for (auto& row : N)  for (ld e : row)  big = std::max(big, fabsl(e));
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  { x.push_back(gc(i, j)); y.push_back(uc[i][j]); }
    checkArray(K + "Cartesian tensor", x, y, 0, 10 * t * big * big, where);
    LM NI = linv(N);
    LM uf = lmul(ltrans(NI), lmul(fromM(A), NI));
    sr::R3::Matrix gf = L.fractionalMatrix(toR3(A));
    x.clear();
    y.clear();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  { x.push_back(gf(i, j)); y.push_back(uf[i][j]); }
    checkArray(K + "fractional tensor", x, y, 0, 20 * t, where);
    sr::R3::Matrix gb = L.fractionalMatrix(L.cartesianMatrix(toR3(A)));
    x.clear();
    y.clear();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  { x.push_back(gb(i, j)); y.push_back(A[i][j]); }
    checkArray(K + "Cartesian tensor inverted by the fractional one", x, y, 0, 40 * t * big * big, where);
    evaluated("displacement tensors");
    // longest diagonal
    ld best = 0;
    for (int s = 0; s < 4; ++s)
    {
        V3 f = v3(s == 1 ? -1 : 1, s == 2 ? -1 : 1, s == 3 ? -1 : 1);
        best = std::max(best, lnorm(lrmul(f, r.base)));
    }
    checkNear(K + "longest diagonal", L.ucMaxDiagonalLength(), best, t * 10, 0, where);
    sr::R3::Vector md = L.ucMaxDiagonal();
    checkTrue(K + "longest diagonal is a diagonal", fabs(md[0]) == 1 && fabs(md[1]) == 1 && fabs(md[2]) == 1, where);
    checkNear(K + "longest diagonal vector", lnorm(lrmul(fromR3(md), r.base)), best, t * 10, 0, where);
}

static LM lrotOf(const LM& std_, const LM& base)  { return lmul(linv(std_), base); }

static void trig(Rng& g)
{
    using namespace diffpy::mathutils;
    const string K = "C05:";
    for (int n = 0; n < 12; ++n)
    {
        double x = g.chance(0.4) ? 15.0 * g.i(-80, 80) : g.chance(0.2) ? 30.0 * g.i(-24, 24) + g.pick({1e-13, -1e-13, 1e-9, -1e-6, 2e-14}) :
            g.chance(0.2) ? g.u(-1e5, 1e5) : g.u(-400, 400);
        string w = fmt("x=%.17g", x);
        double tol = 3e-16 + 4e-16 * fabs(x) * M_PI / 180;
        checkNear(K + "cosd", cosd(x), lcosd(x), 0, tol, w);
        checkNear(K + "sind", sind(x), lsind(x), 0, tol + 2e-16 * M_PI / 180 * 90, w);
        if (std::fmod(x, 30) == 0)
        {
            ctx().count("exact angles");
            ld c = lcosd(x), s = lsind(x);
            if (2 * c == roundl(2 * c))  checkNear(K + "cosd of a special angle", cosd(x), c, 0, 0, w);
            if (2 * s == roundl(2 * s))  checkNear(K + "sind of a special angle", sind(x), s, 0, 0, w);
        }
        double c = g.chance(0.3) ? 0.5 * g.i(-2, 2) : g.chance(0.2) ? 0.5 * g.i(-1, 1) + g.pick({1e-15, -1e-16, 1e-9}) : g.u(-1, 1);
        w = fmt("x=%.17g", c);
        ld ac = acosl(c) * 180 / M_PIl, as = asinl(c) * 180 / M_PIl;
        checkNear(K + "acosd", acosd(c), ac, 0, 1e-13, w);
        checkNear(K + "asind", asind(c), as, 0, 1e-13, w);
        if (2 * c == std::round(2 * c))
        {
            checkNear(K + "acosd of a special value", acosd(c), roundl(ac), 0, 0, w);
            checkNear(K + "asind of a special value", asind(c), roundl(as), 0, 0, w);
        }
    }
    evaluated("trigonometric helpers");
}

// linear algebra of vectors and matrices
static void algebra(Rng& g)
{
    namespace R3 = sr::R3;
    const string K = "C05:";
    auto val = [&]() { return g.chance(0.2) ? double(g.i(-2, 2)) : g.u(-1, 1) * std::pow(10, g.u(-3, 3)); };
    M3 A, B;
    V3 u, v;
    for (int i = 0; i < 3; ++i)
    {
        u[i] = val();
        v[i] = val();
        for (int j = 0; j < 3; ++j)  { A[i][j] = val(); B[i][j] = val(); }
    }
    if (g.chance(0.2))  for (int k = 0; k < 3; ++k)  A[2][k] = A[0][k] * 2;
    string w = fmt("A=(%.17g,%.17g,%.17g)(%.17g,%.17g,%.17g)(%.17g,%.17g,%.17g) u=(%.17g,%.17g,%.17g) v=(%.17g,%.17g,%.17g)", A[0][0], A[0][1], A[0][2],
            A[1][0], A[1][1], A[1][2], A[2][0], A[2][1], A[2][2], u[0], u[1], u[2], v[0], v[1], v[2]);
    LM la = fromM(A), lb = fromM(B);
    R3::Matrix rA = toR3(A), rB = toR3(B);
    R3::Vector ru = toR3(u), rv = toR3(v);
    auto norml = [](const V3& x) { return sqrtl((ld) x[0] * x[0] + (ld) x[1] * x[1] + (ld) x[2] * x[2]); };
    ld na = 0, nb = 0, nu = norml(u), nv = norml(v);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  { na = std::max(na, fabsl(la[i][j])); nb = std::max(nb, fabsl(lb[i][j])); }
    const double t = 1e-14;
    checkNear(K + "vector norm", R3::norm(ru), nu, 0, t * nu, w);
    checkNear(K + "norm of a plain vector", R3::norm(u), nu, 0, t * nu, w);
    ld d = 0, uv = 0;
    for (int k = 0; k < 3; ++k)  { d += ((ld) u[k] - v[k]) * ((ld) u[k] - v[k]); uv += (ld) u[k] * v[k]; }
    checkNear(K + "vector distance", R3::distance(ru, rv), sqrtl(d), 0, t * (nu + nv), w);
    checkNear(K + "vector dot product", R3::dot(ru, rv), uv, 0, t * nu * nv, w);
    R3::Vector c = R3::cross(ru, rv);
    for (int k = 0; k < 3; ++k)
    {
        int i = (k + 1) % 3, j = (k + 2) % 3;
        checkNear(K + "vector cross product", c[k], (ld) u[i] * v[j] - (ld) u[j] * v[i], 0, t * nu * nv, w);
    }
    R3::Vector f = R3::floor(ru);
    for (int k = 0; k < 3; ++k)  checkTrue(K + "vector floor", f[k] == std::floor(u[k]), w);
    ld dt = ldet(la), cond = 0;
    checkNear(K + "determinant", R3::determinant(rA), dt, 0, 10 * t * na * na * na, w);
    // products share static storage, arguments may come from earlier results
    R3::Vector p = R3::mxvecproduct(rA, ru), q = R3::mxvecproduct(ru, rA), pp = R3::mxvecproduct(rB, R3::Vector(R3::mxvecproduct(rA, u)));
    R3::Matrix rAB = R3::prod(rA, rB), rT = R3::trans(rA);
    for (int i = 0; i < 3; ++i)
    {
        ld a = 0, b = 0, e = 0;
        for (int j = 0; j < 3; ++j)
        {
            a += la[i][j] * u[j];
            b += la[j][i] * u[j];
            ld x = 0, y = 0;
            for (int k = 0; k < 3; ++k)  { x += la[i][k] * lb[k][j]; y += la[j][k] * u[k]; }
            e += lb[i][j] * y;
            checkNear(K + "matrix product", rAB(i, j), x, 0, 10 * t * na * nb, w);
            checkTrue(K + "transposed matrix", rT(i, j) == A[j][i], w);
            checkTrue(K + "identity matrix", R3::identity()(i, j) == (i == j), w);
            checkTrue(K + "zero matrix", R3::zeromatrix()(i, j) == 0, w);
        }
        checkNear(K + "matrix by vector", p[i], a, 0, 10 * t * na * nu, w);
        checkNear(K + "vector by matrix", q[i], b, 0, 10 * t * na * nu, w);
        checkNear(K + "chained products", pp[i], e, 0, 50 * t * na * nb * nu, w);
    }
    if (fabsl(dt) > 1e-6 * na * na * na && na > 0)
    {
        R3::Matrix I = R3::inverse(rA), J = R3::inverse(R3::inverse(rA));
        cond = na * na * na / fabsl(dt);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        {
            ld x = 0;
            for (int k = 0; k < 3; ++k)  x += la[i][k] * I(k, j);
            checkNear(K + "inverse matrix", x, i == j, 0, 1e-13 * cond * cond, w);
            checkNear(K + "inverse of the inverse", J(i, j), A[i][j], 0, 1e-12 * cond * cond * cond * na, w);
        }
        ctx().count("inverse matrices");
    }
    // equality, hashes and comparison with tolerance
    R3::Matrix rC = rA;
    R3::Vector rw = ru;
    checkTrue(K + "equal copies", rC == rA && !(rC != rA) && rw == ru && !(rw != ru), w);
    checkTrue(K + "hashes of equal objects", R3::hash_value(rC) == R3::hash_value(rA) && R3::hash_value(rw) == R3::hash_value(ru), w);
    int i = g.i(0, 2), j = g.i(0, 2);
    double eps = g.pick({1e-12, 1.4901161193847656e-08, 1e-3, 0.1}), dx = eps * g.pick({0.5, 0.9, 1.1, 3.0}) * (g.chance(0.5) ? 1 : -1);
    // numbers where the difference is exact enough
    rC(i, j) = A[i][j] = std::round(A[i][j]);
    rA(i, j) = A[i][j] + dx;
    rw[i] = std::round(u[i]);
    ru[i] = rw[i] + dx;
    if (fabs(rw[i]) > 1e3 || fabs(rC(i, j)) > 1e3 || (eps < 1e-10 && (fabs(rw[i]) > 10 || fabs(rC(i, j)) > 10)))  return;
    bool near = fabs(dx) < eps;
    using namespace diffpy::mathutils;
    EpsilonEqual eq(eps);
    EpsilonLess less(eps);
    checkTrue(K + "unlike objects", rC != rA && !(rC == rA) && rw != ru && !(rw == ru), w);
    checkTrue(K + "comparison with tolerance", eq(rC, rA) == near && eq(rw, ru) == near && eq(rC(i, j), rA(i, j)) == near &&
            eps_eq(rw[i], ru[i], eps) == near && eps_gt(ru[i], rw[i], eps) == (!near && dx > 0) &&
            eps_lt(ru[i], rw[i], eps) == (!near && dx < 0), fmt("eps %g dx %g ", eps, dx) + w);
    checkTrue(K + "order with tolerance", less(rA, rC) == (!near && dx < 0) && less(rC, rA) == (!near && dx > 0) &&
            less(ru, rw) == (!near && dx < 0) && less(rw, ru) == (!near && dx > 0), fmt("eps %g dx %g ", eps, dx) + w);
    VD a0(rw.begin(), rw.end()), a1(ru.begin(), ru.end()), a2(a0);
    a2.push_back(1);
    checkTrue(K + "arrays with tolerance", eq(a0, a1) == near && !eq(a0, a2) && !eq(a2, a0) && less(a0, a2) && !less(a2, a0) &&
            less(a1, a0) == (!near && dx < 0), fmt("eps %g dx %g ", eps, dx) + w);
    ctx().distinct(hcomb(hdbl(A[0][0]), hdbl(u[1])));
    evaluated("linear algebra");
}

static void oneCase(long, Rng& g)
{
    trig(g);
    double q[6];
    sr::Lattice L;
    Ref r;
    LM rot = lid();
    ld rotamp = 1;
    bool built = false;
    string where = "cell";
    if (g.chance(0.05))
    {
        double d[6] = {1, 1, 1, 90, 90, 90};
        r.build(d, rot);
        checkLattice(g, L, r, "default cell");
    }
    int steps = g.i(1, 4);
    for (int s = 0; s < steps; ++s)
    {
        switch (g.i(0, 4))
        {
            case 0: case 1:
            {
                // from cell parameters, the base rotation is retained
                if (!genPars(g, q))  return;
                string w = fmt(" par(%.17g,%.17g,%.17g,%.17g,%.17g,%.17g)", q[0], q[1], q[2], q[3], q[4], q[5]);
                if (!built && g.chance(0.5))  L = sr::Lattice(q[0], q[1], q[2], q[3], q[4], q[5]);
                else  L.setLatPar(q[0], q[1], q[2], q[3], q[4], q[5]);
                where += w;
                r.build(q, rot);
                r.amp += rotamp;
                built = true;
                ctx().count("cells from parameters");
                break;
            }
            case 2: case 3:
            {
                // from base vectors
                if (!genPars(g, q))  return;
                LM Q = fromM(g.chance(0.2) ? m3id() : randomRotation(g));
                Ref x;
                x.build(q, Q);
                V3 b[3];
                LM bl;
                for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  { b[i][j] = x.base[i][j]; bl[i][j] = b[i][j]; }
                // parameters of the rounded base
                double q1[6];
                for (int k = 0; k < 3; ++k)  q1[k] = lnorm(bl[k]);
                for (int k = 0; k < 3; ++k)
                {
                    int i = (k + 1) % 3, j = (k + 2) % 3;
                    ld d = (bl[i][0] * bl[j][0] + bl[i][1] * bl[j][1] + bl[i][2] * bl[j][2]) / lnorm(bl[i]) / lnorm(bl[j]);
                    q1[k + 3] = acosl(d) * 180 / M_PIl;
                }
                if (ldet(bl) < 2e-8)  return;
                bool tpl = g.chance(0.5);
                if (g.chance(0.3))  L = sr::Lattice(b[0], b[1], b[2]);
                else if (tpl)  L.setLatBase(b[0], b[1], b[2]);
                else  L.setLatBase(toR3(b[0]), toR3(b[1]), toR3(b[2]));
                where += fmt(" base((%.17g,%.17g,%.17g),(%.17g,%.17g,%.17g),(%.17g,%.17g,%.17g))", b[0][0], b[0][1], b[0][2],
                        b[1][0], b[1][1], b[1][2], b[2][0], b[2][1], b[2][2]);
                bool same = true;
                for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  same = same && L.base()(i, j) == b[i][j];
                checkTrue("C05:assigned base", same, where);
                r.build(q1, lid());
                rot = lrotOf(r.std_, bl);
                r.build(q1, rot);
                rotamp = r.amp;
                built = true;
                ctx().count("cells from base vectors");
                break;
            }
            default:
            {
                // reciprocal of the reciprocal
                if (!built)  continue;
                V3 v[3] = {fromR3(L.var()), fromR3(L.vbr()), fromR3(L.vcr())};
                sr::Lattice R, B;
                double vol = 1 / L.volume();
                if (vol < 2e-8)  continue;
                R.setLatBase(v[0], v[1], v[2]);
                ld c = 1 / (r.Vn * r.Vn);
                double t = 1e-14 * c * c;
                checkNear("C05:volume of the reciprocal", R.volume() * L.volume(), 1, 100 * t, 0, where);
                V3 u[3] = {fromR3(R.var()), fromR3(R.vbr()), fromR3(R.vcr())};
                B.setLatBase(u[0], u[1], u[2]);
                VD x, y;
                for (int k = 0; k < 3; ++k)
                    ckv("C05:reciprocal of the reciprocal", u[k], r.base[k], 100 * t * (double) r.p[k], where);
                double rp[6] = {R.a(), R.b(), R.c(), R.alpha(), R.beta(), R.gamma()};
                double lr[6] = {L.ar(), L.br(), L.cr(), L.alphar(), L.betar(), L.gammar()};
                for (int k = 0; k < 6; ++k)
                    checkNear("C05:parameters of the reciprocal", rp[k], lr[k], 100 * t, 0, where);
                double bp[6] = {B.a(), B.b(), B.c(), B.alpha(), B.beta(), B.gamma()};
                for (int k = 0; k < 6; ++k)
                    checkNear("C05:parameters of the reciprocal of the reciprocal", bp[k], r.p[k], 300 * t, 0, where);
                sr::pointsinsphere::LatticeParameters lp(r.p[0], r.p[1], r.p[2], r.p[3], r.p[4], r.p[5]);
                sr::pointsinsphere::LatticeParameters lr1 = lp.reciprocal();
                sr::pointsinsphere::LatticeParameters lb = lr1.reciprocal();
                double p1[6] = {lr1.a, lr1.b, lr1.c, lr1.alpha, lr1.beta, lr1.gamma};
                double p2[6] = {lb.a, lb.b, lb.c, lb.alpha, lb.beta, lb.gamma};
                for (int k = 0; k < 6; ++k)
                {
                    checkNear("C05:reciprocal parameters", p1[k], lr[k], 100 * t, 0, where);
                    checkNear("C05:reciprocal of reciprocal parameters", p2[k], r.p[k], 1e-15, 0, where);
                }
                lr1.update();
                double p3[6] = {lr1.ar, lr1.br, lr1.cr, lr1.alphar, lr1.betar, lr1.gammar};
                for (int k = 0; k < 6; ++k)
                    checkNear("C05:updated reciprocal of reciprocal parameters", p3[k], r.p[k], 300 * t, 0, where);
                evaluated("reciprocal of reciprocal");
                continue;
            }
        }
        // a rejected base leaves the cell as it was
        if (g.chance(0.2))
        {
            V3 v[3] = {genVec(g), genVec(g), genVec(g)};
            int how = g.i(0, 2);
            if (how == 0)  v[2] = v[0] + g.u(-1, 1) * v[1];
            else if (how == 1)  v[1] = v3(0, 0, 0);
            else if (det(m3(v[0][0], v[0][1], v[0][2], v[1][0], v[1][1], v[1][2], v[2][0], v[2][1], v[2][2])) > 0)
                std::swap(v[0], v[2]);
            bool small = std::max(norm(v[0]), std::max(norm(v[1]), norm(v[2]))) < 50;
            if (how == 2 || small)
            {
                bool bad = raises([&]() { L.setLatBase(v[0], v[1], v[2]); });
                checkTrue("C05:invalid base is rejected", bad, where);
                if (!bad)  return;
                ctx().count("rejected bases");
            }
        }
        checkLattice(g, L, r, where);
        // equality with a cell of the same base
        sr::Lattice C(L.va(), L.vb(), L.vc());
        checkTrue("C05:cell equals one of the same base", C == L && !(C != L), where);
        sr::Lattice D(L);
        checkTrue("C05:copy equals its origin", D == L, where);
        D.setLatPar(L.a() * (1 + 1e-9), L.b(), L.c(), L.alpha(), L.beta(), L.gamma());
        checkTrue("C05:unlike cells differ", D != L && !(D == L), where);
        ctx().distinct(hcomb(hdbl(L.a()), hcomb(hdbl(L.alpha()), hdbl(L.va()[0]))));
        ctx().maxval("inverse squared normal volume", 1 / (r.Vn * r.Vn));
    }
    ctx().sample(where);
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, [](long k, Rng& g) {
        if (g.chance(0.15))  algebra(g);
        else  oneCase(k, g);
    });
}
