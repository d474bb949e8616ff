// C18: structure differences, equality, hashing and cloning
#include "states.hpp"
#include "bvtable.hpp"
#include <diffpy/serialization.hpp>
#include <diffpy/srreal/StructureDifference.hpp>
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>
#include <diffpy/srreal/NoSymmetryStructureAdapter.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
using namespace dpv;

// --- atoms ----------------------------------------------------------------------------
static bool sameAtom(const sr::Atom& a, const sr::Atom& b)
{
    if (a.atomtype != b.atomtype || a.occupancy != b.occupancy || a.anisotropy != b.anisotropy)  return false;
    for (int i = 0; i < 3; ++i)
    {
        if (a.xyz_cartn[i] != b.xyz_cartn[i])  return false;
        for (int j = 0; j < 3; ++j)  if (a.uij_cartn(i, j) != b.uij_cartn(i, j))  return false;
    }
    return true;
}
// neighbor of an atom in one field
static sr::Atom tweakAtom(Rng& g, sr::Atom a)
{
    static const vector<string> types = {"C", "C1", "Ca", "", "B", "c"};
    switch (g.i(0, 5))
    {
        case 0:  a.atomtype = g.pick(types); break;
        case 1:
        {
            double& x = a.xyz_cartn[g.i(0, 2)];
            x = g.pick({0.0, -0.0, 1.0, -1.0, std::nextafter(x, 9), std::nextafter(x, -9), x});
            break;
        }
        case 2:  a.occupancy = g.pick({0.0, -0.0, 1.0, 0.5, std::nextafter(a.occupancy, 2)}); break;
        case 3:  a.anisotropy = !a.anisotropy; break;
        case 4:
        {
            double& u = a.uij_cartn(g.i(0, 2), g.i(0, 2));
            u = g.pick({0.0, -0.0, 0.01, std::nextafter(u, 1)});
            break;
        }
        default:  break;
    }
    return a;
}
static void atoms(Rng& g)
{
    vector<sr::Atom> v(1);
    v[0].atomtype = "C";
    if (g.chance(0.5))  v[0].xyz_cartn = sr::R3::Vector(g.gauss(), g.gauss(), g.gauss());
    int n = g.i(3, 14);
    while (int(v.size()) < n)
    {
        sr::Atom a = tweakAtom(g, g.pick(v));
        if (g.chance(0.4))  a = tweakAtom(g, a);
        v.push_back(a);
    }
    for (auto& a : v)  for (auto& b : v)
    {
        string w = atomStr(a) + " / " + atomStr(b);
        bool eq = sameAtom(a, b);
        checkTrue("C18:equality of atoms", (a == b) == eq && (a != b) == !eq, w);
        if (eq)  { checkTrue("C18:hash of equal atoms", hash_value(a) == hash_value(b), w); ctx().count("equal atoms"); }
        bool lt = a < b, gt = b < a;
        checkTrue("C18:order of two atoms", int(lt) + int(gt) + int(eq) == 1, w);
        checkTrue("C18:comparison operators of atoms", (a > b) == gt && (a <= b) == !gt && (a >= b) == !lt, w);
        if (lt)  for (auto& c : v)
            if (b < c)  checkTrue("C18:order of atoms is transitive", a < c && !(c < a), w + " / " + atomStr(c));
    }
    vector<sr::Atom> s = v;
    std::sort(s.begin(), s.end());
    for (size_t i = 1; i < s.size(); ++i)  checkTrue("C18:sorted atoms", !(s[i] < s[i - 1]), atomStr(s[i]));
    evaluated("order and equality of atoms");
    ctx().distinct(hstr(atomStr(s[0]) + atomStr(s.back())));

    // bond valence parameters
    vector<sr::BVParam> p;
    for (int i = 0; i < 6; ++i)
    {
        static const vector<string> el = {"Na", "Cl", "O", "N"};
        string a = g.pick(el), b = g.pick(el);
        int va = g.i(-2, 2), vb = g.i(-2, 2);
        double r = g.pick({0, 1.5, 2}), bb = g.pick({0, 0.37});
        string ref = g.chance(0.5) ? "" : "x";
        p.push_back(sr::BVParam(a, va, b, vb, r, bb, ref));
        p.push_back(sr::BVParam(b, vb, a, va, r, bb, ref));
        checkTrue("C18:equality of bond valence parameters", p[2 * i] == p[2 * i + 1], a + b);
    }
    sr::BVParam::BondEqual be;
    sr::BVParam::BondHash bh;
    for (auto& a : p)  for (auto& b : p)
    {
        bool k = a.matom0 == b.matom0 && a.matom1 == b.matom1 && a.mvalence0 == b.mvalence0 && a.mvalence1 == b.mvalence1;
        bool e = k && a.mRo == b.mRo && a.mB == b.mB && a.mref_id == b.mref_id;
        checkTrue("C18:equality of bond valence parameters", (a == b) == e && (a != b) == !e && be(a, b) == k, a.matom0 + b.matom0);
        if (k)  checkTrue("C18:hash of bond valence parameters", bh(a) == bh(b), a.matom0 + b.matom0);
    }
}

// --- structures -------------------------------------------------------------------------
struct Node
{
    SPtr s;                 // the structure
    Model m;                // model of its source
    APtr src;               // adapter with the atoms
    int wrap;               // 0 none, 1 nometa, 2 nosymmetry, 3 nosymmetry(nometa), 4 nometa(nosymmetry)
};

static void wrapNode(Node& n, int wrap)
{
    n.wrap = wrap;
    switch (wrap)
    {
        case 0:  n.s = n.src; break;
        case 1:  n.s = sr::nometa(n.src); break;
        case 2:  n.s = sr::nosymmetry(n.src); break;
        case 3:  n.s = sr::nosymmetry(sr::nometa(n.src)); break;
        default:  n.s = sr::nometa(sr::nosymmetry(n.src));
    }
}
static bool symmetric(int wrap)  { return wrap < 2; }
static bool sameLat(const Model& a, const Model& b)
{
    return a.lat.a == b.lat.a && a.lat.b == b.lat.b && a.lat.c == b.lat.c && a.lat.al == b.lat.al && a.lat.be == b.lat.be && a.lat.ga == b.lat.ga;
}
static bool sameOps(const Model& a, const Model& b)
{
    if (a.ops.size() != b.ops.size())  return false;
    for (size_t i = 0; i < a.ops.size(); ++i)  if (a.ops[i].R != b.ops[i].R || a.ops[i].t != b.ops[i].t)  return false;
    return true;
}
// cell, symmetry and kind of the sources
static bool sameFrame(const Model& a, const Model& b)
{
    if (a.kind != b.kind)  return false;
    if (a.kind != ATOMIC && !sameLat(a, b))  return false;
    return a.kind != CRYSTAL || (sameOps(a, b) && a.symeps == b.symeps);
}
static vector<sr::Atom> atomsOf(const Model& m)
{
    vector<sr::Atom> v;
    for (auto& a : m.atoms)  v.push_back(toAtom(a));
    return v;
}
static bool sameAtoms(const Model& a, const Model& b)
{
    vector<sr::Atom> u = atomsOf(a), v = atomsOf(b);
    if (u.size() != v.size())  return false;
    for (size_t i = 0; i < u.size(); ++i)  if (!sameAtom(u[i], v[i]))  return false;
    return true;
}
static bool equalBy(const sr::StructureAdapter& a, const sr::StructureAdapter& b, bool* known, bool* ne)
{
    typedef sr::CrystalStructureAdapter C;
    typedef sr::PeriodicStructureAdapter P;
    typedef sr::AtomicStructureAdapter A;
    *known = true;
    const C *ca = dynamic_cast<const C*>(&a), *cb = dynamic_cast<const C*>(&b);
    if (ca && cb)  { *ne = *ca != *cb; return *ca == *cb; }
    const P *pa = dynamic_cast<const P*>(&a), *pb = dynamic_cast<const P*>(&b);
    if (pa && pb && !ca && !cb)  { *ne = *pa != *pb; return *pa == *pb; }
    const A *aa = dynamic_cast<const A*>(&a), *ab = dynamic_cast<const A*>(&b);
    if (aa && ab && !pa && !pb)  { *ne = *aa != *ab; return *aa == *ab; }
    *known = false;
    return false;
}

static void checkDiff(const Node& a, const Node& b, const string& where)
{
    sr::StructureDifference d = a.s->diff(b.s);
    string w = where + fmt(" method %d pop", int(d.diffmethod));
    for (int i : d.pop0)  w += fmt(" %d", i);
    w += " add";
    for (int i : d.add1)  w += fmt(" %d", i);
    w += "; " + a.m.str() + " / " + b.m.str();
    checkTrue("C18:structures of the difference", d.stru0 == a.s && d.stru1 == b.s, w);
    int n0 = a.s->countSites(), n1 = b.s->countSites();
    std::set<int> pop(d.pop0.begin(), d.pop0.end()), add(d.add1.begin(), d.add1.end());
    bool ok = pop.size() == d.pop0.size() && add.size() == d.add1.size() &&
        (pop.empty() || (*pop.begin() >= 0 && *pop.rbegin() < n0)) && (add.empty() || (*add.begin() >= 0 && *add.rbegin() < n1));
    if (!checkTrue("C18:indices of the difference", ok, w))  return;
    // removal and addition gives atoms of the other structure
    vector<sr::Atom> va = atomsOf(a.m), vb = atomsOf(b.m), got;
    for (int i = 0; i < n0; ++i)  if (!pop.count(i))  got.push_back(va[i]);
    for (int i : add)  got.push_back(vb[i]);
    std::sort(got.begin(), got.end());
    std::sort(vb.begin(), vb.end());
    bool same = got.size() == vb.size();
    for (size_t i = 0; same && i < vb.size(); ++i)  same = sameAtom(got[i], vb[i]);
    checkTrue("C18:difference turns one structure to another", same, w);
    bool fast = d.allowsfastupdate();
    bool frames = sameFrame(a.m, b.m) && a.wrap == b.wrap;
    // structures without symmetry that differ in unused cell may be updated
    bool compatible = frames || (!symmetric(a.wrap) && !symmetric(b.wrap));
    if (fast)
    {
        ctx().count("fast updates offered");
        checkTrue("C18:fast update between incompatible structures", compatible, w);
        checkTrue("C18:fast update of few atoms", int(pop.size()) < n0 || n0 == 0, w);
    }
    bool known, ne;
    bool eq = equalBy(*a.s, *b.s, &known, &ne);
    if (known)
    {
        bool ref = sameFrame(a.m, b.m) && sameAtoms(a.m, b.m);
        checkTrue("C18:equality of structures", eq == ref && ne == !ref, w);
        bool k2, ne2;
        checkTrue("C18:equality of structures", equalBy(*b.s, *a.s, &k2, &ne2) == eq, w);
        if (eq)
        {
            ctx().count("equal structures");
            checkTrue("C18:difference of equal structures", pop.empty() && add.empty(), w);
        }
    }
    if (frames && sameAtoms(a.m, b.m))
    {
        checkTrue("C18:difference of equal structures", pop.empty() && add.empty(), w);
        if (n0)  checkTrue("C18:no fast update of equal structures", fast, w);
    }
    if (!pop.empty() && pop.size() < size_t(n0))  ctx().count("partial differences");
    if (d.diffmethod == sr::StructureDifference::Method::SORTED)  ctx().count("sorted differences");
    if (d.diffmethod == sr::StructureDifference::Method::SIDEBYSIDE)  ctx().count("side by side differences");
    evaluated("difference applied to atoms");
    ctx().distinct(hstr(w));
}

static void structures(Rng& g)
{
    GenOpt o;
    o.types = {"C", "O", "Na"};
    o.nmin = 0;
    o.nmax = g.chance(0.2) ? 12 : 5;
    o.maximages = 24;
    vector<Node> v;
    Node n;
    n.m = genModel(g, genKind(g), o);
    n.src = toAdapter(n.m);
    wrapNode(n, g.chance(0.6) ? 0 : g.i(1, 4));
    v.push_back(n);
    int num = g.i(1, 4);
    string hist;
    for (int k = 0; k < num; ++k)
    {
        Node b = g.pick(v);
        int ne = g.i(0, 3);
        for (int e = 0; e < ne; ++e)  hist += mutateModel(g, b.m, o, true);
        if (g.chance(0.15))
        {
            hist += "kind ";
            b.m.kind = Kind(g.i(0, 2));
            if (b.m.kind != CRYSTAL)  b.m.ops.clear();
        }
        if (g.chance(0.1) && b.m.kind == CRYSTAL)  { b.m.symeps = g.pick({5e-5, 1e-4, 1e-3}); hist += "symeps "; }
        if (g.chance(0.1) && b.m.kind == CRYSTAL && b.m.ops.size() > 1)  { std::swap(b.m.ops[0], b.m.ops[1]); hist += "op order "; }
        b.src = toAdapter(b.m);
        int w = g.chance(0.7) ? b.wrap : g.i(0, 4);
        wrapNode(b, w);
        hist += fmt("wrap%d; ", w);
        v.push_back(b);
    }
    for (auto& a : v)
    {
        for (auto& b : v)  checkDiff(a, b, hist);
        sr::StructureDifference d = a.s->diff(a.s);
        checkTrue("C18:difference from itself", d.pop0.empty() && d.add1.empty() && d.stru0 == a.s && d.stru1 == a.s, hist);
        // empty structure has nothing to remove or add
        SPtr e = sr::emptyStructureAdapter();
        d = a.s->diff(e);
        checkTrue("C18:difference from empty structure", int(d.pop0.size()) == a.s->countSites() && d.add1.empty() && !(d.allowsfastupdate() && a.s->countSites()), hist);
        d = e->diff(a.s);
        checkTrue("C18:difference from empty structure", int(d.add1.size()) == a.s->countSites() && d.pop0.empty(), hist);
    }
    ctx().sample(hist);
}

static void clones(Rng& g)
{
    GenOpt o;
    o.types = {"C", "O", "Na"};
    o.nmin = 1;
    o.nmax = 4;
    o.maximages = 16;
    Node a;
    a.m = genModel(g, genKind(g), o);
    a.src = toAdapter(a.m);
    wrapNode(a, g.chance(0.6) ? 0 : g.i(1, 4));
    double rm = 4;
    if (g.chance(0.5))  stateOf(*a.s);          // symmetry positions are known before cloning
    SPtr c = a.s->clone();
    string s0 = stateOf(*a.s), b0 = bondsOf(a.s, rm);
    string w = fmt("wrap%d ", a.wrap) + a.m.str();
    checkTrue("C18:clone is another object", c != a.s, w);
    checkTrue("C18:clone equals its origin", stateOf(*c) == s0 && bondsOf(c, rm) == b0, w);
    sr::StructureDifference d = a.s->diff(c);
    checkTrue("C18:difference of a clone", d.pop0.empty() && d.add1.empty() && (a.m.atoms.empty() || d.allowsfastupdate()), w);
    d = c->diff(a.s);
    checkTrue("C18:difference of a clone", d.pop0.empty() && d.add1.empty(), w);
    bool known, ne;
    bool eq = equalBy(*a.s, *c, &known, &ne);
    if (known)  checkTrue("C18:clone equals its origin", eq && !ne, w);
    // later edits
    int n = g.i(1, 4);
    Model cur = a.m, curc = a.m;
    APtr csrc;
    if (a.wrap == 0)  csrc = boost::dynamic_pointer_cast<sr::AtomicStructureAdapter>(c);
    else
    {
        csrc = sourceOf(c);
    }
    checkTrue("C18:source of a clone", csrc && csrc != a.src, w);
    if (!csrc)  return;
    for (int k = 0; k < n; ++k)
    {
        bool orig = g.chance(0.5);
        Model& m = orig ? cur : curc;
        Model nm = m;
        string e = mutateModel(g, nm, o);
        if (nm.kind != m.kind)  continue;
        w += (orig ? "origin:" : "clone:") + e + "; ";
        SPtr untouched = orig ? c : a.s;
        string was = stateOf(*untouched), bw = bondsOf(untouched, rm);
        editInPlace(g, orig ? *a.src : *csrc, m, nm);
        m = nm;
        checkTrue("C18:clone is independent of edits", stateOf(*untouched) == was && bondsOf(untouched, rm) == bw, w);
        // edited one is as if built from scratch
        Node f;
        f.m = m;
        f.src = toAdapter(m);
        wrapNode(f, a.wrap);
        SPtr edited = orig ? a.s : c;
        checkTrue("C18:edited structure equals a fresh one", stateOf(*edited) == stateOf(*f.s) && bondsOf(edited, rm) == bondsOf(f.s, rm), w);
        Node x;
        x.m = cur; x.s = a.s; x.wrap = a.wrap;
        Node y;
        y.m = curc; y.s = c; y.wrap = a.wrap;
        checkDiff(x, y, w);
        checkDiff(y, x, w);
    }
    evaluated("clones and later edits");
    ctx().distinct(hstr(w));
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, [](long, Rng& g)
    {
        double x = g.u();
        if (x < 0.3)  atoms(g);
        else if (x < 0.7)  structures(g);
        else  clones(g);
    });
}
