// C10: bond valence sums compared with their definition
#include "calcs.hpp"
#include "bvtable.hpp"
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/BVParametersTable.hpp>
#include <diffpy/srreal/AtomUtils.hpp>
using namespace dpv;

struct Ion  { const char* smbl; const char* bare; int v; };
static const Ion IONS[] = {
    {"Na1+", "Na", 1}, {"Na+", "Na", 1}, {"Cl1-", "Cl", -1}, {"Cl-", "Cl", -1}, {"O2-", "O", -2}, {"Ti4+", "Ti", 4},
    {"Ti3+", "Ti", 3}, {"Ba2+", "Ba", 2}, {"Fe3+", "Fe", 3}, {"Fe2+", "Fe", 2}, {"Si4+", "Si", 4}, {"S2-", "S", -2},
    {"S6+", "S", 6}, {"Ca2+", "Ca", 2}, {"H1+", "H", 1}, {"H-", "H", -1}, {"N3-", "N", -3}, {"F-", "F", -1},
    {"Pb2+", "Pb", 2}, {"Pb4+", "Pb", 4}, {"C", "C", 0}, {"Ac3+", "Ac", 3}, {"Ac4+", "Ac", 4}, {"Zr4+", "Zr", 4},
    {"Mo6+", "Mo", 6}, {"Mo5+", "Mo", 5}, {"I-", "I", -1}, {"Te2-", "Te", -2}, {"P3-", "P", -3}, {"Si4-", "Si", -4},
};
static const int NIONS = sizeof IONS / sizeof IONS[0];

static const Ion& ionOf(const string& s)
{
    for (int i = 0; i < NIONS; ++i)  if (s == IONS[i].smbl)  return IONS[i];
    throw std::logic_error("unknown ion");
}

static int valenceOf(const RefBV& t, const string& smbl)
{
    auto i = t.valence.find(smbl);
    return i != t.valence.end() ? i->second : ionOf(smbl).v;
}

static void randomTable(Rng& g, RefBV& ref, sr::BVParametersTable& tbl, const vector<string>& types)
{
    for (int k = g.chance(0.5) ? 0 : g.i(1, 5); k > 0; --k)
    {
        const Ion& a = ionOf(g.pick(types));
        const Ion& b = ionOf(g.pick(types));
        int va = valenceOf(ref, a.smbl), vb = valenceOf(ref, b.smbl);
        if (g.chance(0.2))  (va > vb ? va : vb) = 9;
        double Ro = g.u(1, 3), B = g.pick({0.37, 0.3, 0.5, 0.0});
        if (g.chance(0.25))
        {
            if (g.chance(0.5))  tbl.resetCustom(a.bare, va, b.bare, vb);
            else  tbl.resetCustom(sr::BVParam(a.bare, va, b.bare, vb, Ro, B));
            ref.custom.erase(BVKey(a.bare, va, b.bare, vb));
            continue;
        }
        if (g.chance(0.5))  tbl.setCustom(a.bare, va, b.bare, vb, Ro, B, "custom");
        else  tbl.setCustom(sr::BVParam(a.bare, va, b.bare, vb, Ro, B, "custom"));
        ref.custom[BVKey(a.bare, va, b.bare, vb)] = BVVal(Ro, B, "custom");
    }
    if (g.chance(0.25))
    {
        string s = g.pick(types);
        int v = g.i(-3, 5);
        tbl.setAtomValence(s, v);
        ref.valence[s] = v;
    }
    if (g.chance(0.05))  { tbl.resetAll(); ref.custom.clear(); }
    if (g.chance(0.05))  { tbl.resetAtomValences(); ref.valence.clear(); }
}

static void checkLookups(Rng& g, const RefBV& ref, const sr::BVParametersTable& tbl, const string& where)
{
    for (int k = 0; k < 12; ++k)
    {
        const Ion& a = IONS[g.i(0, NIONS - 1)];
        const Ion& b = IONS[g.i(0, NIONS - 1)];
        int va = valenceOf(ref, a.smbl), vb = valenceOf(ref, b.smbl);
        const BVVal* w = ref.lookup(a.bare, va, b.bare, vb);
        string ab = string(a.smbl) + " " + b.smbl + " " + where;
        const sr::BVParam* got[6] = {&tbl.lookup(a.smbl, b.smbl), &tbl.lookup(b.smbl, a.smbl),
            &tbl.lookup(a.bare, va, b.bare, vb), &tbl.lookup(b.bare, vb, a.bare, va),
            &tbl.lookup(sr::BVParam(a.bare, va, b.bare, vb)), &tbl.lookup(sr::BVParam(b.bare, vb, a.bare, va, 1, 2, "x"))};
        for (int q = 0; q < 6; ++q)
        {
            const sr::BVParam& p = *got[q];
            string key = q == 0 || q == 2 || q == 4 ? "C10:parameters of a pair" : "C10:parameters in reversed order";
            if (!w)
            {
                checkTrue(key, &p == &tbl.none(), "parameters found for unknown pair " + ab);
                continue;
            }
            checkTrue(key, p.mRo == w->Ro && p.mB == w->B && p.mref_id == w->ref && &p != &tbl.none(),
                    fmt("lookup %d got Ro=%.6g B=%.6g expected %.6g %.6g ", q, p.mRo, p.mB, w->Ro, w->B) + ab);
        }
        if (w)  ctx().count("parameter lookups found");
        evaluated("parameter lookup");
        if (w && w->B > 0)
        {
            double d = g.u(1, 5), s = std::exp((w->Ro - d) / w->B);
            checkNear("C10:bond valence formula", got[0]->bondvalence(d), s, 1e-13, 0, ab);
            checkNear("C10:distance of bond valence", got[0]->bondvalenceToDistance(s), d, 1e-12, 1e-12, ab);
        }
    }
}

static void oneCase(Rng& g)
{
    GenOpt o;
    o.nmax = ctx().thorough() ? 9 : 6;
    o.maximages = 32;
    o.types.clear();
    // few ions of both charges
    for (int k = g.i(0, 2); k > 0; --k)  o.types.push_back(IONS[g.i(0, NIONS - 1)].smbl);
    for (int sgn = -1; sgn <= 1; sgn += 2)
        for (int k = g.i(1, 2); k > 0; --k)
            for (;;)
            {
                const Ion& a = IONS[g.i(0, NIONS - 1)];
                if (a.v * sgn <= 0)  continue;
                o.types.push_back(a.smbl);
                break;
            }
    if (g.chance(0.5))  o.types.push_back("O2-");
    o.nmin = g.chance(0.02) ? 0 : g.chance(0.2) ? 1 : 2;
    Model m = genModel(g, genKind(g), o);
    sr::BVSCalculator calc;
    RefBV ref;
    bool own = g.chance(0.4);
    sr::BVParametersTablePtr tbl = calc.getBVParamTable();
    if (own)  tbl = boost::make_shared<sr::BVParametersTable>();
    randomTable(g, ref, *tbl, o.types);
    if (own)  calc.setBVParamTable(tbl);
    double eps = g.pick({1e-5, 1e-5, 1e-3, 0.05, 1e-7});
    double rmin = g.chance(0.7) ? 0 : g.u(0, 3), rmax = g.chance(0.5) ? 100 : g.u(0, 6);
    calc.setValencePrecision(eps);
    calc.setRmin(rmin);
    calc.setRmax(rmax);
    PairMask pm = randomMask(g, m, calc, 0.25);
    string where = m.str() + fmt(" r=[%.10g,%.10g] eps=%g", rmin, rmax, eps) + (pm.any ? " masked" : "");
    for (auto& c : ref.custom)  where += " custom " + c.first.str();
    for (auto& c : ref.valence)  where += fmt(" valence %s=%d", c.first.c_str(), c.second);
    ctx().sample(where);
    sr::AtomicStructureAdapterPtr stru = toAdapter(m);
    calc.eval(boost::static_pointer_cast<sr::StructureAdapter>(stru));
    int n = m.atoms.size();
    vector<int> v(n);
    vector<string> bare(n);
    VD vals;
    for (int i = 0; i < n; ++i)
    {
        v[i] = valenceOf(ref, m.atoms[i].type);
        bare[i] = ionOf(m.atoms[i].type).bare;
        vals.push_back(v[i]);
    }
    double reach = 0;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
    {
        const BVVal* w = ref.lookup(bare[i], v[i], bare[j], v[j]);
        if (w)  reach = std::max(reach, w->Ro - w->B * std::log(eps));
    }
    double used = std::min(rmax, reach);
    checkNear("C10:rmaxused", calc.getDoubleAttr("rmaxused"), used, 1e-13, 1e-12, where);
    checkNear("C10:rmaxused", calc.getRmaxUsed(), used, 1e-13, 1e-12, where);
    vector<vector<Image> > im = allImages(m);
    VD want(n, 0.0);
    bool ambiguous = false;
    long nb = 0;
    for (int i = 0; i < n; ++i)
    for (auto& p : neighborsOf(m, i, std::max(0.0, rmin - 1e-5), used + 1e-5, &im))
    {
        if (!pm(p.i, p.j))  continue;
        const BVVal* w = ref.lookup(bare[p.i], v[p.i], bare[p.j], v[p.j]);
        if (!w || w->B <= 0)  continue;
        if (fabs(p.d - rmin) < 2e-6 || fabs(p.d - used) < 2e-6)  ambiguous = true;
        if (p.d < rmin || p.d > used)  continue;
        want[i] += (v[i] >= 0 ? 1 : -1) * m.atoms[p.j].occ * std::exp((w->Ro - p.d) / w->B);
        ++nb;
    }
    if (ambiguous)  { ctx().count("skipped ambiguous"); return; }
    VD got = calc.value();
    checkArray("C10:valence sums", got, want, 1e-11, 1e-12, where);
    checkArray("C10:expected valences", calc.valences(), vals, 0, 0, where);
    VD diff(n);
    double ms = 0, tot = 0;
    for (int i = 0; i < n; ++i)
    {
        diff[i] = fabs(vals[i]) - fabs(want[i]);
        double w = m.atoms[i].occ * im[i].size();
        ms += w * diff[i] * diff[i];
        tot += w;
    }
    if (tot > 0)  ms /= tot;
    checkArray("C10:valence differences", calc.bvdiff(), diff, 1e-10, 1e-11, where);
    checkNear("C10:mean square difference", calc.bvmsdiff(), ms, 1e-9, 1e-12, where);
    checkNear("C10:root mean square difference", calc.bvrmsdiff(), std::sqrt(ms), 1e-9, 1e-9, where);
    evaluated("valence sums against definition");
    if (nb)
    {
        ctx().count(string("nonzero ") + (m.kind == ATOMIC ? "atomic" : m.kind == PERIODIC ? "periodic" : "crystal"));
        if (pm.any)  ctx().count("nonzero masked");
        if (ref.custom.size())  ctx().count("nonzero with custom parameters");
        ctx().distinct(hcomb(hvec(want), m.hash()));
    }
    ctx().count("reference bonds", nb);
    checkLookups(g, ref, *tbl, where);
}

int main(int argc, char* argv[])
{
    if (standardBV().size() < 1000)  { fprintf(stderr, "cannot read bond valence parameters\n"); return 3; }
    return runCases(argc, argv, [](long, Rng& g)  { oneCase(g); });
}
