// C06: lattice points and reflections against exhaustive enumeration
#include "structures.hpp"
#include <diffpy/srreal/Lattice.hpp>
#include <diffpy/srreal/PointsInSphere.hpp>
using namespace dpv;

typedef std::array<int, 3> I3;

static bool genCell(Rng& g, Lat& L)
{
    for (int tries = 0; tries < 300; ++tries)
    {
        double lo = 1.5, hi = 9;
        L = Lat(g.u(lo, hi), g.u(lo, hi), g.u(lo, hi));
        if (g.chance(0.25))  { L.a = g.i(1, 6); L.b = g.i(1, 6); L.c = g.i(1, 6); }
        if (g.chance(0.15))  L.a = L.b = L.c;
        if (g.chance(0.1))  L.b *= g.u(3, 8);
        if (g.chance(0.1))  L.c *= g.u(3, 8);
        switch (g.i(0, 4))
        {
            case 0:  break;
            case 1:  L.be = g.u(50, 150); break;
            case 2:  L.b = L.a; L.ga = 120; break;
            default:  L.al = g.u(25, 155); L.be = g.u(25, 155); L.ga = g.u(25, 155);
        }
        if (g.chance(0.05))  L.al = L.be = L.ga = g.pick({60, 109.4712206});
        if (L.vnormal() > 0.05)  return true;
    }
    return false;
}

// radii of all integer triplets with radius up to rhi
static std::map<I3, ld> enumerate(const Lat& L, double rhi)
{
    std::map<I3, ld> rv;
    M3 R = inv(L.base());
    int h[3];
    for (int k = 0; k < 3; ++k)  h[k] = int(rhi * norm(v3(R[0][k], R[1][k], R[2][k]))) + 1;
    ld ca = Lat::cosd(L.al), cb = Lat::cosd(L.be), cg = Lat::cosd(L.ga);
    for (int m = -h[0]; m <= h[0]; ++m) for (int n = -h[1]; n <= h[1]; ++n) for (int o = -h[2]; o <= h[2]; ++o)
    {
        ld x = m * (ld) L.a, y = n * (ld) L.b, z = o * (ld) L.c;
        ld r2 = x * x + y * y + z * z + 2 * (x * y * cg + x * z * cb + y * z * ca);
        if (r2 <= rhi * (ld) rhi)  rv[I3{{m, n, o}}] = r2 > 0 ? sqrtl(r2) : 0;
    }
    return rv;
}

// compare the visited triplets
static void compare(const string& key, const std::map<I3, int>& seen, const std::map<I3, ld>& all, double lo, double hi,
        double tol, const string& where)
{
    long n = 0;
    for (auto& e : all)
    {
        const I3& t = e.first;
        bool origin = t[0] == 0 && t[1] == 0 && t[2] == 0;
        // points at the bounds are decided by rounding
        if (!origin && (fabsl(e.second - lo) < tol || fabsl(e.second - hi) < tol))  { ctx().count("skipped at the bounds"); continue; }
        if (origin && (fabs(lo) < 1e-9 && lo != 0))  continue;
        if (origin && fabs(hi) < 1e-9)  continue;
        bool in = (origin ? lo <= 0 : e.second > lo) && e.second < hi;
        auto s = seen.find(t);
        int c = s == seen.end() ? 0 : s->second;
        if (in)  ++n;
        if (in && c != 1)
            ctx().fail(key + (c ? " repeated" : " missing"), fmt("(%d,%d,%d) r=%.17Lg visited %d times ", t[0], t[1], t[2], e.second, c) + where);
        if (!in && c)
            ctx().fail(key + " out of bounds", fmt("(%d,%d,%d) r=%.17Lg ", t[0], t[1], t[2], e.second) + where);
    }
    for (auto& s : seen)
        if (!all.count(s.first))
            ctx().fail(key + " out of bounds", fmt("(%d,%d,%d) far outside ", s.first[0], s.first[1], s.first[2]) + where);
    ctx().count("comparisons", all.size());
    ctx().count("points expected", n);
}

template <class S>
static bool collectPoints(S& s, std::map<I3, int>& seen, std::map<I3, double>& rad, long limit, long stop=-1)
{
    long n = 0;
    for (; !s.finished(); s.next())
    {
        I3 t = {{s.m(), s.n(), s.o()}};
        const int* p = s.mno();
        checkTrue("C06:indices", p[0] == t[0] && p[1] == t[1] && p[2] == t[2]);
        if (n == stop)  return true;
        ++seen[t];
        rad[t] = s.r();
        if (++n > limit)  { ctx().fail("C06:endless iteration", ""); return false; }
    }
    // it stays finished
    checkTrue("C06:iteration is finished", s.finished());
    return true;
}

static void points(Rng& g)
{
    Lat L;
    if (!genCell(g, L))  return;
    double rmax = g.u(0.5, ctx().thorough() ? 30 : 16) * std::min(1.0, std::cbrt(L.volume()) / 3);
    double rmin = g.chance(0.3) ? 0 : g.chance(0.3) ? -g.u(0, 5) : g.u(0, rmax * 1.05);
    if (g.chance(0.1))  rmin = rmax * (1 - std::pow(10.0, g.u(-4, -1)));
    if (g.chance(0.1))  { rmax = L.a * g.i(1, 3); }
    if (g.chance(0.1))  { rmin = L.c * g.i(0, 3); }
    if (g.chance(0.03))  rmax = -rmax;
    if (g.chance(0.03))  rmax = 0;
    if (rmax > 0 && 4.2 * rmax * rmax * rmax / L.volume() > 30000)  return;
    string where = L.str() + fmt(" r=(%.17g,%.17g)", rmin, rmax);
    std::map<I3, ld> all = enumerate(L, std::max(0.0, rmax) * 1.05 + 0.1);
    double tol = 1e-9 * (1 + fabs(rmax));
    std::map<I3, int> seen;
    std::map<I3, double> rad;
    sr::Lattice SL(L.a, L.b, L.c, L.al, L.be, L.ga);
    std::unique_ptr<sr::PointsInSphere> s;
    switch (g.i(0, 2))
    {
        case 0:  s.reset(new sr::PointsInSphere(rmin, rmax, L.a, L.b, L.c, L.al, L.be, L.ga)); break;
        case 1:  s.reset(new sr::PointsInSphere(rmin, rmax, SL)); break;
        default:
            sr::pointsinsphere::LatticeParameters lp(L.a, L.b, L.c, L.al, L.be, L.ga);
            s.reset(new sr::PointsInSphere(rmin, rmax, lp));
    }
    checkTrue("C06:bounds", s->Rmin() == rmin && s->Rmax() == rmax, where);
    long limit = all.size() * 2 + 100;
    int rounds = g.i(1, 3);
    for (int k = 0; k < rounds; ++k)
    {
        seen.clear();
        rad.clear();
        if (k)
        {
            // restart, perhaps from the middle
            s->rewind();
            if (g.chance(0.5))
            {
                if (!collectPoints(*s, seen, rad, limit, g.i(0, 50)))  return;
                s->rewind();
                seen.clear();
                rad.clear();
            }
            ctx().count("restarts");
        }
        if (g.chance(0.15))
        {
            // continue on a copy, which is independent of its origin
            std::unique_ptr<sr::PointsInSphere> c(new sr::PointsInSphere(*s));
            long adv = g.i(0, 3);
            for (long q = 0; q < adv && !s->finished(); ++q)  s->next();
            s.swap(c);
            if (g.chance(0.5))  c.reset();
            ctx().count("copies");
            if (!collectPoints(*s, seen, rad, limit))  return;
        }
        else if (!collectPoints(*s, seen, rad, limit))  return;
        compare("C06:lattice point", seen, all, rmin, rmax, tol, where);
        for (auto& e : rad)
        {
            auto w = all.find(e.first);
            if (w != all.end())  checkNear("C06:distance of lattice point", e.second, w->second, 1e-13 / (L.vnormal() * L.vnormal()), 1e-13, where);
        }
        evaluated("lattice points against enumeration");
        ctx().count("points observed", seen.size());
        if (!seen.empty())  ctx().count("nonempty shells");
    }
    ctx().maxval("points in one shell", seen.size());
    ctx().distinct(hcomb(hstr(L.str()), seen.size()));
    ctx().sample(where + fmt(" points=%zu", seen.size()));
}

template <class S>
static bool collectRefl(S& s, std::map<I3, int>& seen, std::map<I3, std::pair<double, double> >& qd, long limit)
{
    long n = 0;
    for (; !s.finished(); s.next())
    {
        I3 t = {{s.h(), s.k(), s.l()}};
        const int* p = s.hkl();
        checkTrue("C06:indices of reflection", p[0] == t[0] && p[1] == t[1] && p[2] == t[2]);
        ++seen[t];
        qd[t] = std::make_pair(s.Q(), s.d());
        if (++n > limit)  { ctx().fail("C06:endless iteration of reflections", ""); return false; }
    }
    return true;
}

static void reflections(Rng& g)
{
    Lat L;
    if (!genCell(g, L))  return;
    double qmax = g.u(0.5, ctx().thorough() ? 20 : 10);
    double qmin = g.chance(0.3) ? 0 : g.u(0, qmax);
    bool byd = g.chance(0.5);
    // reciprocal cell
    M3 R = trans(inv(L.base()));
    auto ang = [&](int i, int j) { return std::acos(std::max(-1.0, std::min(1.0, dot(R[i], R[j]) / norm(R[i]) / norm(R[j])))) * 180 / M_PI; };
    Lat RL(norm(R[0]), norm(R[1]), norm(R[2]), ang(1, 2), ang(0, 2), ang(0, 1));
    for (double* x : {&RL.al, &RL.be, &RL.ga})  if (std::fabs(*x - 90) < 1e-12)  *x = 90;
    double k2 = 2 * M_PI;
    if (4.2 * std::pow(qmax / k2, 3) / RL.volume() > 30000)  return;
    double dmax = qmin > 0 ? k2 / qmin : std::numeric_limits<double>::infinity(), dmin = k2 / qmax;
    if (byd && g.chance(0.3))  dmax = g.u(dmin, 20);
    if (byd)  qmin = 2.0 * M_PI / dmax;
    string where = L.str() + fmt(" q=(%.17g,%.17g)", qmin, qmax);
    std::map<I3, ld> all = enumerate(RL, qmax / k2 * 1.05 + 0.01);
    for (auto& e : all)
    {
        // accurate reciprocal lengths
        V3 q = v3(0, 0, 0);
        for (int k = 0; k < 3; ++k)  q = q + e.first[k] * R[k];
        e.second = norm(q) * k2;
    }
    sr::Lattice SL(L.a, L.b, L.c, L.al, L.be, L.ga);
    sr::pointsinsphere::LatticeParameters lp(L.a, L.b, L.c, L.al, L.be, L.ga);
    std::unique_ptr<sr::ReflectionsInQminQmax> s;
    sr::ReflectionsInDmaxDmin* sd = 0;
    int how = g.i(0, 2);
    if (byd)
    {
        sd = how == 0 ? new sr::ReflectionsInDmaxDmin(dmax, dmin, L.a, L.b, L.c, L.al, L.be, L.ga) :
            how == 1 ? new sr::ReflectionsInDmaxDmin(dmax, dmin, SL) : new sr::ReflectionsInDmaxDmin(dmax, dmin, lp);
        s.reset(sd);
        checkTrue("C06:d bounds", sd->Dmin() == dmin && sd->Dmax() == dmax, where);
        checkNear("C06:Qmax of d bounds", s->Qmax(), qmax, 1e-14, 0, where);
        checkNear("C06:Qmin of d bounds", s->Qmin(), qmin, 1e-14, 0, where);
        ctx().count("ranges of d");
    }
    else
    {
        s.reset(how == 0 ? new sr::ReflectionsInQminQmax(qmin, qmax, L.a, L.b, L.c, L.al, L.be, L.ga) :
                how == 1 ? new sr::ReflectionsInQminQmax(qmin, qmax, SL) : new sr::ReflectionsInQminQmax(qmin, qmax, lp));
        checkTrue("C06:Q bounds", s->Qmin() == qmin && s->Qmax() == qmax, where);
    }
    int rounds = g.i(1, 2);
    for (int k = 0; k < rounds; ++k)
    {
        if (k)
        {
            if (g.chance(0.5))  { s->rewind(); for (int n = g.i(0, 20); n > 0 && !s->finished(); --n)  s->next(); }
            s->rewind();
            ctx().count("restarts");
        }
        std::map<I3, int> seen;
        std::map<I3, std::pair<double, double> > qd;
        if (!collectRefl(*s, seen, qd, all.size() * 2 + 100))  return;
        double amp = 1 / (L.vnormal() * L.vnormal());
        compare("C06:reflection", seen, all, qmin, qmax, 1e-10 * amp * (1 + qmax), where);
        for (auto& e : qd)
        {
            auto w = all.find(e.first);
            if (w == all.end())  continue;
            checkNear("C06:Q of reflection", e.second.first, w->second, 1e-12 * amp * amp, 1e-12, where);
            if (w->second > 0)  checkNear("C06:d of reflection", e.second.second, k2 / w->second, 1e-12 * amp * amp, 0, where);
        }
        evaluated("reflections against enumeration");
        ctx().count("reflections observed", seen.size());
        if (!seen.empty())  ctx().count("nonempty reflection ranges");
        ctx().distinct(hcomb(hstr(L.str() + "Q"), seen.size()));
    }
}

static void oneCase(long k, Rng& g)
{
    if (k % 3 == 2)  reflections(g);
    else  points(g);
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, oneCase);
}
