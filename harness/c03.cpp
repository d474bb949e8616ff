// C03: pair enumeration of bond generators, BondCalculator, PairCounter
#include "structures.hpp"
#include <unordered_map>
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/PairCounter.hpp>
using namespace dpv;

struct PairIndex
{
    const vector<Pair>& ps;
    std::unordered_map<uint64_t, vector<int> > cells;
    vector<char> used;
    static uint64_t key(int j, long a, long b, long c)
    {
        return hcomb(hcomb(hcomb(mix64(j), a), b), c);
    }
    explicit PairIndex(const vector<Pair>& p) : ps(p), used(p.size(), 0)
    {
        for (size_t k = 0; k < ps.size(); ++k)
        {
            const V3& v = ps[k].r01;
            cells[key(ps[k].j, floor(v[0] * 50), floor(v[1] * 50), floor(v[2] * 50))].push_back(k);
        }
    }
    // index of an unused expected pair at the position, -1 none, -2 already used
    int take(int j, const V3& v, double tol)
    {
        long a = floor(v[0] * 50), b = floor(v[1] * 50), c = floor(v[2] * 50);
        bool dup = false;
        for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z)
        {
            auto it = cells.find(key(j, a + x, b + y, c + z));
            if (it == cells.end())  continue;
            for (int k : it->second)
            {
                if (ps[k].j != j || norm(ps[k].r01 - v) > tol)  continue;
                if (used[k])  { dup = true; continue; }
                used[k] = 1;
                return k;
            }
        }
        return dup ? -2 : -1;
    }
};

static vector<double> distancesOf(const Model& m, double rmax)
{
    vector<double> ds;
    for (auto& p : allPairs(m, 0, rmax))  ds.push_back(p.d);
    std::sort(ds.begin(), ds.end());
    return ds;
}

static double safeBound(Rng& g, const vector<double>& ds, double lo, double hi)
{
    for (int k = 0; k < 200; ++k)
    {
        double r = g.u(lo, hi);
        // sometimes just beside of an actual distance
        if (!ds.empty() && g.chance(0.4))  r = g.pick(ds) + g.pick({1e-5, -1e-5, 1e-4, -1e-4});
        if (r < lo || r > hi)  continue;
        if (clearance(ds, r) > 2e-6)  return r;
    }
    return hi + 1.0 / 3;
}

static const char* kname(Kind k)  { return k == ATOMIC ? "atomic" : k == PERIODIC ? "periodic" : "crystal"; }

static bool g_checkr0 = true;

// iterate the generator and compare with the brute force list
static void checkIteration(sr::BaseBondGenerator& bnds, const Model& m,
        const vector<vector<Image> >& im, int anchor, const vector<int>& sel, double rmin, double rmax,
        const char* what)
{
    vector<Pair> want;
    vector<int> mult(m.atoms.size(), 0);
    for (int j : sel)  ++mult[j];
    // repeated selection of a site is not exercised, hence mult is 0 or 1
    for (auto& p : neighborsOf(m, anchor, rmin, rmax, &im))  if (mult[p.j])  want.push_back(p);
    PairIndex idx(want);
    string where = string(what) + " " + m.str() + fmt(" anchor=%d rmin=%.17g rmax=%.17g", anchor, rmin, rmax);
    string k = string("C03:") + kname(m.kind);
    long n = 0;
    double scale = 1 + rmax + 30;
    double tol = 1e-9 * scale;
    for (bnds.rewind(); !bnds.finished(); bnds.next())
    {
        ++n;
        if (n > long(want.size()) + 100000)  { ctx().fail(k + " endless iteration", where); return; }
        V3 r01 = fromR3(bnds.r01());
        int q = idx.take(bnds.site1(), r01, 1e-6 + tol);
        if (q < 0)
        {
            ctx().fail(k + (q == -2 ? " pair visited twice" : " pair outside of expected set"),
                    where + fmt(" site1=%d r01=(%.12g,%.12g,%.12g) d=%.17g", bnds.site1(), r01[0], r01[1], r01[2],
                        bnds.distance()));
            return;
        }
        const Pair& p = want[q];
        ctx().count("pairs observed");
        checkTrue(k + " site0", bnds.site0() == anchor, where);
        checkNear(k + " distance", bnds.distance(), p.d, 1e-9, tol, where);
        V3 d = fromR3(bnds.r1()) - fromR3(bnds.r0()) - r01;
        checkTrue(k + " r01 is not r1-r0", norm(d) < tol, where);
        // the anchor is an image of the anchor site
        if (g_checkr0)
        {
            V3 dr = fromR3(bnds.r0()) - im[anchor][0].xyz;
            if (m.kind != ATOMIC)
            {
                V3 f = m.lat.frac(dr);
                for (int c = 0; c < 3; ++c)  f[c] -= std::round(f[c]);
                dr = m.lat.cart(f);
            }
            checkTrue(k + " anchor position", norm(dr) < 1e-6, where);
        }
        checkTrue(k + " multiplicity", bnds.multiplicity() == p.mi,
                where + fmt(" got %d expected %d", bnds.multiplicity(), p.mi));
        // displacement tensors along with the total along the bond
        const SA& a0 = m.atoms[anchor];
        const SA& a1 = m.atoms[p.j];
        M3 U1 = fromR3(bnds.Ucartesian1()), U0 = fromR3(bnds.Ucartesian0());
        double du = 0;
        for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y)
            du = std::max(du, std::max(a1.aniso ? fabs(U1[x][y] - p.Uj[x][y]) : 0.0,
                        a0.aniso ? fabs(U0[x][y] - p.Ui[x][y]) : 0.0));
        checkTrue(k + " displacement tensors", du < 1e-8, where + fmt(" dU=%g", du));
        checkNear(k + " msd", bnds.msd(), pairMsd(m, p), 1e-7, 1e-10, where);
    }
    if (n != long(want.size()))
    {
        string miss;
        for (size_t q = 0; q < want.size(); ++q)  if (!idx.used[q])
        {
            miss = fmt(" first missing: site1=%d d=%.17g r01=(%.9g,%.9g,%.9g)", want[q].j, want[q].d,
                    want[q].r01[0], want[q].r01[1], want[q].r01[2]);
            break;
        }
        ctx().fail(k + " pairs missed", where + fmt(" visited %ld of %zu", n, want.size()) + miss);
    }
    evaluated("iteration compared with brute force");
    if (n)  ctx().count(string("nonempty ") + kname(m.kind));
    ctx().maxval("pairs in one iteration", n);
    ctx().distinct(hcomb(hcomb(m.hash(), anchor), hcomb(hdbl(rmin), hdbl(rmax))));
}

static void generatorCase(Rng& g, const Model& m)
{
    double rhi = ctx().thorough() ? 14 : 10;
    double rmaxall = rhi + 1;
    if (m.kind == CRYSTAL && m.atoms.size() > 3)  rmaxall = 8;
    vector<double> ds = distancesOf(m, rmaxall);
    vector<vector<Image> > im = allImages(m);
    sr::AtomicStructureAdapterPtr stru = toAdapter(m);
    sr::BaseBondGeneratorPtr bnds = stru->createBondGenerator();
    int n = m.atoms.size();
    if (n == 0)
    {
        bnds->rewind();
        checkTrue("C03:empty structure has bonds", bnds->finished());
        return;
    }
    double rmin = 0, rmax = 0;
    vector<int> sel(n);
    for (int j = 0; j < n; ++j)  sel[j] = j;
    vector<int> selstore;
    int anchor = 0;
    bnds->selectAnchorSite(0);
    int steps = g.i(3, 9);
    checkTrue("C03:new generator is not finished", bnds->finished());
    for (int s = 0; s < steps; ++s)
    {
        string what;
        // leave the previous loop unfinished
        if (g.chance(0.4))
        {
            bnds->rewind();
            for (int k = g.i(0, 3); k > 0 && !bnds->finished(); --k)  bnds->next();
        }
        const double rmin0 = rmin, rmax0 = rmax;
        switch (s == 0 ? 0 : g.i(0, 6))
        {
            case 0:
                rmin = g.chance(0.5) ? 0 : safeBound(g, ds, 0, 0.6 * rmaxall);
                rmax = safeBound(g, ds, 0.3, rmaxall - 1);
                bnds->setRmin(rmin);
                bnds->setRmax(rmax);
                what = "range";
                break;
            case 1:
                rmax = g.chance(0.1) ? 0 : safeBound(g, ds, 0.3, rmaxall - 1);
                bnds->setRmax(rmax);
                what = "rmax";
                break;
            case 2:
                rmin = g.chance(0.3) ? 0 : safeBound(g, ds, 0, 0.8 * rmaxall);
                bnds->setRmin(rmin);
                what = "rmin";
                break;
            case 3:
                anchor = g.i(0, n - 1);
                bnds->selectAnchorSite(anchor);
                what = "anchor";
                break;
            case 4:
            {
                int a = g.i(0, n), b = g.i(a, n);
                bnds->selectSiteRange(a, b);
                sel.clear();
                for (int j = a; j < b; ++j)  sel.push_back(j);
                what = "site range";
                break;
            }
            case 5:
            {
                sel.clear();
                for (int j = 0; j < n; ++j)  if (g.chance(0.6))  sel.push_back(j);
                g.shuffle(sel);
                if (g.chance(0.5))
                {
                    bnds->selectSites(sel);
                    what = "site list";
                }
                else
                {
                    selstore = sel;
                    bnds->selectSites(selstore.begin(), selstore.end());
                    what = "site iterators";
                }
                break;
            }
            default:
            {
                // abandon a loop in the middle
                bnds->rewind();
                int k = g.i(0, 20);
                for (; k > 0 && !bnds->finished(); --k)  bnds->next();
                what = "abandoned loop";
                break;
            }
        }
        const bool changed = what != "abandoned loop" && (rmin != rmin0 || rmax != rmax0 ||
                what == "anchor" || what.compare(0, 4, "site") == 0);
        if (changed)
        {
            checkTrue("C03:iteration continues after change of setup", bnds->finished(),
                    what + " " + m.str());
            evaluated("iteration ends at change of setup");
        }
        checkIteration(*bnds, m, im, anchor, sel, rmin, rmax, what.c_str());
    }
}

static void bondCalculatorCase(Rng& g, const Model& m)
{
    double rmaxall = m.kind == CRYSTAL && m.atoms.size() > 3 ? 6 : 8;
    vector<double> ds = distancesOf(m, rmaxall);
    sr::AtomicStructureAdapterPtr stru = toAdapter(m);
    sr::BondCalculator bdc;
    bdc.setEvaluatorType(g.chance(0.5) ? sr::BASIC : sr::OPTIMIZED);
    for (int rep = g.i(1, 3); rep > 0; --rep)
    {
        double rmin = g.chance(0.5) ? 0 : safeBound(g, ds, 0, 4);
        double rmax = safeBound(g, ds, 0.3, rmaxall - 1);
        bdc.setRmin(rmin);
        bdc.setRmax(rmax);
        bdc.filterOff();
        vector<Pair> all = allPairs(m, rmin, rmax);
        vector<V3> axes;
        vector<double> degs;
        int nf = g.chance(0.5) ? 0 : g.i(1, 2);
        for (int q = 0; q < nf; ++q)
        {
            V3 ax = v3(g.gauss(), g.gauss(), g.gauss());
            bool exact = !all.empty() && g.chance(0.5);
            if (exact)  ax = g.u(0.3, 3) * g.pick(all).r01;
            double deg = exact ? g.pick({0.001, 0.1, 5, 60, 180}) : g.u(5, 175);
            axes.push_back(ax);
            degs.push_back(deg);
            bdc.filterCone(toR3(ax), deg);
        }
        auto angle = [](const V3& u, const V3& v)
        {
            // stable for small angles
            return 180 / M_PI * std::atan2(norm(cross(u, v)), dot(u, v));
        };
        vector<Pair> want;
        bool ambiguous = false;
        for (auto& p : all)
        {
            bool ok = axes.empty();
            for (size_t q = 0; q < axes.size(); ++q)
            {
                double an = angle(axes[q], p.r01);
                if (fabs(an - degs[q]) < 1e-4 && degs[q] < 179.9)  ambiguous = true;
                if (an <= degs[q])  ok = true;
            }
            if (ok)  want.push_back(p);
        }
        if (ambiguous)  { ctx().count("skipped ambiguous cone"); continue; }
        VD d = bdc(boost::static_pointer_cast<sr::StructureAdapter>(stru));
        vector<sr::R3::Vector> dir = bdc.directions();
        sr::SiteIndices s0 = bdc.sites0(), s1 = bdc.sites1();
        vector<string> t0 = bdc.types0(), t1 = bdc.types1();
        string where = m.str() + fmt(" rmin=%.17g rmax=%.17g cones=%zu", rmin, rmax, axes.size());
        if (!axes.empty())  where += fmt(" axis0=(%.17g,%.17g,%.17g) deg0=%g", axes[0][0], axes[0][1], axes[0][2], degs[0]);
        checkTrue("C03:bond count", d.size() == want.size(), where + fmt(" got %zu expected %zu", d.size(), want.size()));
        bool sizes = dir.size() == d.size() && s0.size() == d.size() && s1.size() == d.size() &&
            t0.size() == d.size() && t1.size() == d.size();
        if (!checkTrue("C03:bond array sizes differ", sizes, where))  return;
        checkTrue("C03:value is not the distances", VD(bdc.value()) == d, where);
        // separate index per anchor
        vector<vector<Pair> > per(m.atoms.size());
        for (auto& p : want)  per[p.i].push_back(p);
        vector<PairIndex> idx;
        for (auto& v : per)  idx.push_back(PairIndex(v));
        for (size_t k = 0; k < d.size(); ++k)
        {
            if (k)  checkTrue("C03:bonds not sorted by distance", d[k - 1] <= d[k], where);
            V3 v = fromR3(dir[k]);
            checkNear("C03:bond distance", d[k], norm(v), 1e-10, 1e-10, where);
            if (!checkTrue("C03:bond site index", s0[k] >= 0 && s0[k] < int(per.size()) && s1[k] >= 0 &&
                        s1[k] < int(per.size()), where))  return;
            int q = idx[s0[k]].take(s1[k], v, 1e-6);
            checkTrue("C03:bond not in expected set", q >= 0, where + fmt(" d=%.17g %d-%d", d[k], s0[k], s1[k]));
            checkTrue("C03:bond type", t0[k] == m.atoms[s0[k]].type && t1[k] == m.atoms[s1[k]].type, where);
        }
        evaluated("bond list compared with brute force");
        if (nf)  ctx().count("bond lists with cone filters");
        ctx().count("bonds observed", d.size());
        ctx().distinct(hcomb(hvec(d), hcomb(hdbl(rmin), hdbl(rmax))));
    }
    // counter: each unordered pair in the cell once
    {
        sr::PairCounter pc;
        double rmin = g.chance(0.5) ? 0 : safeBound(g, ds, 0, 4);
        double rmax = safeBound(g, ds, 0.3, rmaxall - 1);
        pc.setRmin(rmin);
        pc.setRmax(rmax);
        long n = 0;
        for (auto& p : allPairs(m, rmin, rmax))  n += p.mi;
        pc.eval(boost::static_pointer_cast<sr::StructureAdapter>(stru));
        checkNear("C03:pair count", pc.value().front(), n / 2.0, 0, 1e-9, m.str());
        evaluated("pair count");
    }
}

// exact boundary membership: integer coordinates have exact distances
static void boundaryCase(Rng& g)
{
    Model m;
    m.kind = ATOMIC;
    static const int trip[][3] = {{3,4,0}, {0,0,7}, {1,2,2}, {2,3,6}, {4,4,7}, {1,4,8}, {6,6,7}, {5,12,0}, {8,9,12}};
    const int* t = trip[g.i(0, 8)];
    int p[3] = {t[0], t[1], t[2]};
    if (g.chance(0.5))  std::swap(p[0], p[g.i(0, 2)]);
    SA a;
    V3 o = v3(g.i(-5, 5), g.i(-5, 5), g.i(-5, 5));
    a.xyz = o;
    m.atoms.push_back(a);
    a.xyz = o + v3(p[0] * (g.chance(0.5) ? 1 : -1), p[1], p[2]);
    m.atoms.push_back(a);
    double d = std::sqrt(double(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]));
    auto count = [&](double lo, double hi)
    {
        sr::BaseBondGeneratorPtr b = toAdapter(m)->createBondGenerator();
        b->selectAnchorSite(0);
        b->setRmin(lo);
        b->setRmax(hi);
        int n = 0;
        for (b->rewind(); !b->finished(); b->next())  ++n;
        return n;
    };
    double up = std::nextafter(d, 1e9), dn = std::nextafter(d, 0);
    checkTrue("C03:upper bound not inclusive", count(0, d) == 1, m.str());
    checkTrue("C03:lower bound not inclusive", count(d, 100) == 1, m.str());
    checkTrue("C03:exact range", count(d, d) == 1, m.str());
    checkTrue("C03:beyond upper bound", count(0, dn) == 0, m.str());
    checkTrue("C03:below lower bound", count(up, 100) == 0, m.str());
    evaluated("exact bounds");
    ctx().distinct(hcomb(hdbl(d), hdbl(o[0])));
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, [](long c, Rng& g)
    {
        if (c % 16 == 15)  { for (int k = 0; k < 20; ++k)  boundaryCase(g); return; }
        GenOpt o;
        o.maximages = 40;
        o.nmin = g.chance(0.05) ? 0 : 1;
        if (ctx().thorough())  { o.nmax = 9; o.maximages = 96; }
        Model m = genModel(g, genKind(g), o);
        ctx().sample(m.str());
        generatorCase(g, m);
        bondCalculatorCase(g, m);
    });
}
