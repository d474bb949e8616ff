// C11: overlap analysis compared with brute force over all pairs
#include "calcs.hpp"
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
using namespace dpv;

typedef std::map<string, double> Radii;

static double radius(const Radii& r, const string& t)
{
    auto i = r.find(t);
    return i == r.end() ? r.find("")->second : i->second;
}

static void setRadii(sr::OverlapCalculator& c, const Radii& r)
{
    sr::AtomRadiiTablePtr t = c.getAtomRadiiTable();
    boost::shared_ptr<sr::ConstantRadiiTable> ct = boost::dynamic_pointer_cast<sr::ConstantRadiiTable>(t);
    t->resetAll();
    ct->setDefault(r.find("")->second);
    for (auto& x : r)  if (!x.first.empty())  t->setCustom(x.first, x.second);
}

struct Olp  { int i, j; double d, olp; V3 dir; };

struct RefOlp
{
    vector<Olp> pairs;
    VD site, coord;
    double total, mean;
    bool ambiguous;
    double scale;
};

static RefOlp reference(const Model& m, const Radii& rad, const PairMask& pm, double rmin, double rmax)
{
    RefOlp R;
    R.ambiguous = false;
    int n = m.atoms.size();
    vector<vector<Image> > im = allImages(m);
    double mxr = 0;
    for (int i = 0; i < n; ++i)
    {
        double x = radius(rad, m.atoms[i].type);
        mxr = i ? std::max(mxr, x) : x;
    }
    double used = n ? std::min(rmax, 2 * mxr) : 0;
    R.site.assign(n, 0);
    R.coord.assign(n, 0);
    for (int i = 0; i < n; ++i)
    for (auto& p : neighborsOf(m, i, std::max(0.0, rmin - 1e-5), used + 1e-5, &im))
    {
        if (!pm(p.i, p.j))  continue;
        double sep = radius(rad, m.atoms[p.i].type) + radius(rad, m.atoms[p.j].type);
        if (fabs(p.d - rmin) < 2e-6 || fabs(p.d - sep) < 2e-6 || fabs(p.d - used) < 2e-6)  R.ambiguous = true;
        if (p.d < rmin || p.d > used || p.d >= sep)  continue;
        Olp o = {p.i, p.j, p.d, sep - p.d, p.r01};
        R.pairs.push_back(o);
        R.site[i] += 0.5 * o.olp * o.olp * m.atoms[p.j].occ;
        R.coord[i] += m.atoms[p.j].occ;
    }
    double tot = 0;
    R.total = 0;
    for (int i = 0; i < n; ++i)
    {
        double w = m.atoms[i].occ * im[i].size();
        tot += w;
        R.total += w * R.site[i];
    }
    R.mean = tot > 0 ? R.total / tot : 0;
    return R;
}

static bool olpLess(const Olp& a, const Olp& b)
{
    if (a.i != b.i)  return a.i < b.i;
    if (a.j != b.j)  return a.j < b.j;
    if (fabs(a.d - b.d) > 1e-7)  return a.d < b.d;
    for (int k = 0; k < 3; ++k)  if (fabs(a.dir[k] - b.dir[k]) > 1e-7)  return a.dir[k] < b.dir[k];
    return false;
}

static void checkPairs(const sr::OverlapCalculator& c, const Model& m, const RefOlp& R, const string& where)
{
    VD ol = c.overlaps(), ds = c.distances();
    vector<int> s0 = c.sites0(), s1 = c.sites1();
    vector<string> t0 = c.types0(), t1 = c.types1();
    vector<sr::R3::Vector> dir = c.directions();
    size_t n = R.pairs.size();
    if (!checkTrue("C11:number of overlapping pairs", ol.size() == n && ds.size() == n && s0.size() == n && s1.size() == n &&
                t0.size() == n && t1.size() == n && dir.size() == n,
                fmt("sizes %zu %zu %zu %zu %zu %zu %zu expected %zu ", ol.size(), ds.size(), s0.size(), s1.size(),
                    t0.size(), t1.size(), dir.size(), n) + where))  return;
    vector<Olp> got;
    for (size_t k = 0; k < n; ++k)
    {
        Olp o = {s0[k], s1[k], ds[k], ol[k], fromR3(dir[k])};
        got.push_back(o);
        checkTrue("C11:types of overlapping pairs", t0[k] == m.atoms[s0[k]].type && t1[k] == m.atoms[s1[k]].type, where);
    }
    vector<Olp> want = R.pairs;
    // greedy matching avoids dependence on rounding in the sort
    vector<char> used(n, 0);
    std::stable_sort(got.begin(), got.end(), olpLess);
    for (auto& w : want)
    {
        bool found = false;
        for (size_t k = 0; k < n && !found; ++k)
        {
            const Olp& x = got[k];
            if (used[k] || x.i != w.i || x.j != w.j || fabs(x.d - w.d) > 1e-8 || fabs(x.olp - w.olp) > 1e-8)  continue;
            if (norm(x.dir - w.dir) > 1e-7)  continue;
            used[k] = 1;
            found = true;
        }
        if (!found)
        {
            ctx().fail("C11:overlapping pair", fmt("missing pair %d %d d=%.12g overlap=%.12g ", w.i, w.j, w.d, w.olp) + where);
            return;
        }
    }
    ctx().count("overlapping pairs", n);
}

static vector<std::set<int> > refHoods(const RefOlp& R, const PairMask& pm, int n)
{
    vector<int> id(n);
    for (int i = 0; i < n; ++i)  id[i] = i;
    for (bool ch = true; ch; )
    {
        ch = false;
        for (auto& p : R.pairs)
            if (id[p.i] != id[p.j])  { id[p.i] = id[p.j] = std::min(id[p.i], id[p.j]); ch = true; }
    }
    std::map<int, std::set<int> > h;
    for (int i = 0; i < n; ++i)
    {
        bool any = false;
        for (int j = 0; j < n; ++j)  any = any || pm(i, j);
        if (any)  h[id[i]].insert(i);
    }
    vector<std::set<int> > rv;
    for (auto& x : h)  rv.push_back(x.second);
    std::sort(rv.begin(), rv.end());
    return rv;
}

static void checkAll(const sr::OverlapCalculator& c, const Model& m, const RefOlp& R, const PairMask& pm, const string& where)
{
    int n = m.atoms.size();
    checkPairs(c, m, R, where);
    checkArray("C11:squared overlaps of sites", c.siteSquareOverlaps(), R.site, 1e-10, 1e-12, where);
    checkNear("C11:total square overlap", c.totalSquareOverlap(), R.total, 1e-10, 1e-11, where);
    checkNear("C11:mean square overlap", c.meanSquareOverlap(), R.mean, 1e-10, 1e-11, where);
    checkArray("C11:coordination numbers", c.coordinations(), R.coord, 1e-12, 1e-12, where);
    for (int i = 0; i < n; ++i)
    {
        std::set<int> want, got;
        std::map<string, double> bt;
        for (auto& p : R.pairs)  if (p.i == i)
        {
            want.insert(p.j);
            bt[m.atoms[p.j].type] += m.atoms[p.j].occ;
        }
        for (int j : c.getNeighborSites(i))  got.insert(j);
        checkTrue("C11:neighbor sites", got == want, fmt("site %d ", i) + where);
        auto ct = c.coordinationByTypes(i);
        bool ok = ct.size() == bt.size();
        for (auto& x : bt)  ok = ok && ct.count(x.first) && fabs(ct[x.first] - x.second) < 1e-10;
        checkTrue("C11:coordination by types", ok, fmt("site %d ", i) + where);
    }
    vector<std::set<int> > gh;
    for (auto& h : c.neighborhoods())  gh.push_back(std::set<int>(h.begin(), h.end()));
    std::sort(gh.begin(), gh.end());
    vector<std::set<int> > wh = refHoods(R, pm, n);
    if (gh != wh)
    {
        string s;
        for (auto& h : gh)  { s += "{"; for (int i : h)  s += fmt("%d ", i); s += "}"; }
        ctx().fail("C11:neighborhoods", "got " + s + fmt(" expected %zu sets ", wh.size()) + where);
    }
    evaluated("overlap analysis against brute force");
}

static void oneCase(Rng& g)
{
    GenOpt o;
    o.nmin = g.chance(0.02) ? 0 : 1;
    o.nmax = ctx().thorough() ? 10 : 7;
    o.maximages = 32;
    o.box = 4;
    o.types = {"C", "Na", "Cl", "O2-", "Si"};
    Model m = genModel(g, genKind(g), o);
    if (m.kind == CRYSTAL && !m.ops.empty() && g.chance(0.6))
    {
        // identity first for the tests of gradients
        Op id = {m3id(), v3(0, 0, 0)};
        for (size_t k = 0; k < m.ops.size(); ++k)  if (sameOp(m.ops[k], id))  { std::swap(m.ops[0], m.ops[k]); break; }
    }
    Radii rad;
    rad[""] = g.chance(0.2) ? 0 : g.u(0.3, 1.5);
    for (auto& t : o.types)  if (g.chance(0.6))  rad[t] = g.chance(0.1) ? 0 : g.u(0.2, 1.8);
    sr::OverlapCalculator calc;
    double rmin = g.chance(0.85) ? 0 : g.u(0, 2), rmax = g.chance(0.8) ? 100 : g.u(0.5, 4);
    calc.setRmin(rmin);
    calc.setRmax(rmax);
    setRadii(calc, rad);
    PairMask pm = randomMask(g, m, calc, 0.3);
    string where = m.str() + fmt(" r=[%.10g,%.10g]", rmin, rmax) + (pm.any ? " masked" : "");
    for (auto& r : rad)  where += fmt(" R(%s)=%.6g", r.first.c_str(), r.second);
    ctx().sample(where);
    sr::AtomicStructureAdapterPtr stru = toAdapter(m);
    calc.eval(boost::static_pointer_cast<sr::StructureAdapter>(stru));
    RefOlp R = reference(m, rad, pm, rmin, rmax);
    if (R.ambiguous)  { ctx().count("skipped ambiguous"); return; }
    int n = m.atoms.size();
    double mx = 0;
    for (int i = 0; i < n; ++i)
        mx = i ? std::max(mx, radius(rad, m.atoms[i].type)) : radius(rad, m.atoms[i].type);
    checkNear("C11:rmaxused", calc.getRmaxUsed(), std::min(rmax, 2 * mx), 1e-14, 1e-14, where);
    checkAll(calc, m, R, pm, where);
    if (R.pairs.size())
    {
        ctx().count(string("nonzero ") + (m.kind == ATOMIC ? "atomic" : m.kind == PERIODIC ? "periodic" : "crystal"));
        if (pm.any)  ctx().count("nonzero masked");
        ctx().distinct(hcomb(hvec(R.site), m.hash()));
    }
    checkTrue("C11:flip of a bad index is rejected", raises([&]()  { calc.flipDiffTotal(-1, 0); }) &&
            raises([&]()  { calc.flipDiffTotal(0, n); }) && (!n || raises([&]()  { calc.flipDiffMean(n, 0); })), where);
    // flips of two atoms
    for (int k = 0; k < 2 && n > 1; ++k)
    {
        int i = g.i(0, n - 1), j = g.i(0, n - 1);
        Model f = m;
        std::swap(f.atoms[i].type, f.atoms[j].type);
        RefOlp F = reference(f, rad, pm, rmin, rmax);
        if (F.ambiguous)  continue;
        double tot = multiplicitySum(m);
        double dt = F.total - R.total;
        checkNear("C11:predicted change of total for flip", calc.flipDiffTotal(i, j), dt, 1e-9, 1e-10 * (1 + R.total), where + fmt(" flip %d %d", i, j));
        checkNear("C11:predicted change of mean for flip", calc.flipDiffMean(i, j), tot > 0 ? dt / tot : 0, 1e-9, 1e-10 * (1 + R.total), where + fmt(" flip %d %d", i, j));
        evaluated("flip of two atoms");
        if (dt != 0)  ctx().count("flips with nonzero change");
        // actual change on re-evaluation, index masks are kept
        sr::OverlapCalculator cf;
        cf.setRmin(rmin);
        cf.setRmax(rmax);
        setRadii(cf, rad);
        for (int p = 0; p < n; ++p) for (int q = 0; q <= p; ++q)  if (!pm(p, q))  cf.setPairMask(p, q, false);
        cf.eval(boost::static_pointer_cast<sr::StructureAdapter>(toAdapter(f)));
        checkNear("C11:actual change for flip", cf.totalSquareOverlap() - calc.totalSquareOverlap(), dt, 1e-9, 1e-9 * (1 + R.total), where);
    }
    // gradients
    bool idfirst = m.kind != CRYSTAL || m.ops.empty() || sameOp(m.ops[0], Op{m3id(), v3(0, 0, 0)});
    vector<sr::R3::Vector> grad = calc.gradients();
    if (!checkTrue("C11:number of gradients", int(grad.size()) == n, where))  return;
    if (idfirst)
    for (int i = 0; i < n; ++i)
    {
        size_t ni = imagesOf(m, m.atoms[i]).size();
        size_t full = 1;
        if (m.kind == CRYSTAL)
        {
            // general position has images from all distinct operations
            full = 0;
            for (size_t a = 0; a < m.ops.size(); ++a)
            {
                bool rep = false;
                for (size_t b = 0; b < a && !rep; ++b)  rep = sameOp(m.ops[a], m.ops[b]);
                full += !rep;
            }
            if (m.ops.empty())  full = 1;
        }
        if (ni != full)  continue;
        const double h = 1e-6;
        double scale = 1 + R.total;
        for (auto& p : R.pairs)  scale = std::max(scale, ni / std::max(0.05, p.d) * 4);
        for (int k = 0; k < 3; ++k)
        {
            Model a = m, b = m;
            a.atoms[i].xyz[k] -= h;
            b.atoms[i].xyz[k] += h;
            RefOlp A = reference(a, rad, pm, rmin, rmax), B = reference(b, rad, pm, rmin, rmax);
            if (rmin > 0 || rmax < 2 * mx)
            {
                // total has steps at hard cutoffs, use only when the pairs are the same
                if (A.pairs.size() != B.pairs.size())  continue;
            }
            double d = (B.total - A.total) / (2 * h);
            checkNear("C11:gradient", grad[i][k], d, 2e-5, 2e-5 * scale, fmt("site %d axis %d ", i, k) + where);
            if (d != 0)  ctx().count("nonzero gradients");
        }
        evaluated("gradient against finite difference");
    }
    // change of radii and positions followed by another evaluation
    if (g.chance(0.4) && n)
    {
        Model b = m;
        b.atoms[g.i(0, n - 1)].xyz = genAtom(g, m, o).xyz;
        for (auto& r : rad)  if (g.chance(0.5))  r.second = g.u(0.2, 1.6);
        setRadii(calc, rad);
        if (b.kind == CRYSTAL)  for (auto& a : b.atoms)  symmetrizeU(b, a);
        calc.eval(boost::static_pointer_cast<sr::StructureAdapter>(toAdapter(b)));
        RefOlp S = reference(b, rad, pm, rmin, rmax);
        bool close = false;
        for (auto& p : allPairs(b, 0, 0.01))  close = close || p.d > 0;
        if (!S.ambiguous && !close)  checkAll(calc, b, S, pm, where + " second evaluation");
    }
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, [](long, Rng& g)  { oneCase(g); });
}
