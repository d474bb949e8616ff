// C21: structures imported from ObjCryst and wrappers that drop symmetry or metadata
#include "states.hpp"
#include <diffpy/serialization.ipp>
#include <ObjCryst/ObjCryst/Crystal.h>
#include <ObjCryst/ObjCryst/Atom.h>
#include <ObjCryst/ObjCryst/Molecule.h>
#include <ObjCryst/ObjCryst/ScatteringPower.h>
#include <diffpy/srreal/ObjCrystStructureAdapter.hpp>
using namespace dpv;
namespace oc = ObjCryst;

static void quiet(const string&)  { }

// settings that differ from the reference ones of the tables
static const vector<string> settings = {
    "F d -3 m:1", "F d -3 m:2", "F d -3:1", "F d d d:1", "F d d d:2", "R -3 m:H", "R -3 m:R", "R 3:R", "R 3:H", "R -3 c:H", "R -3 c:R",
    "P 1 21/n 1", "P 1 21/a 1", "A 1 2/a 1", "I 1 2/a 1", "P 1 1 21/b", "B 1 1 2/b", "P b n m", "P n m a", "P m c n", "B b c b:1",
    "I 41/a m d:1", "I 41/a m d:2", "P 4/n:1", "P 4/n:2", "P 4/n m m:1", "P n -3:1", "P n -3 n:1", "P n n n:1", "P n -3 m:1", "I 41/a c d:1",
    "P 42/n c m:1", "A b a 2", "C 1 2/c 1", "I 1 2/c 1", "P b c a", "I m -3 m", "F m -3 m", "F -4 3 m", "P 63/m m c", "P 63 m c",
    "P -1", "P 1", "C 1 c 1", "I 4 m m", "I -4 2 d", "P 31 2 1", "P 65 2 2", "I a -3 d", "I 41 3 2", "F d -3 c:1", "F d -3 c:2", "P a -3"};

struct Imported { string sg; int nops; vector<Op> ops; };

static void setLat(const oc::Crystal& c, Model& m)
{
    const double d = 180 / M_PI;
    m.lat = Lat(c.GetLatticePar(0), c.GetLatticePar(1), c.GetLatticePar(2), d * c.GetLatticePar(3), d * c.GetLatticePar(4), d * c.GetLatticePar(5));
    // exact angles keep exact symmetry
    for (double* x : {&m.lat.al, &m.lat.be, &m.lat.ga})  if (std::fabs(*x - std::round(*x)) < 1e-9)  *x = std::round(*x);
}

// symmetry operations observed on images of four points
static vector<Op> observedOps(const oc::SpaceGroup& sg)
{
    CrystMatrix_REAL p[4];
    p[0] = sg.GetAllSymmetrics(0, 0, 0);
    p[1] = sg.GetAllSymmetrics(1, 0, 0);
    p[2] = sg.GetAllSymmetrics(0, 1, 0);
    p[3] = sg.GetAllSymmetrics(0, 0, 1);
    vector<Op> r;
    for (int k = 0; k < p[0].rows(); ++k)
    {
        Op o;
        for (int i = 0; i < 3; ++i)
        {
            o.t[i] = p[0](k, i);
            for (int j = 0; j < 3; ++j)  o.R[i][j] = std::round(p[j + 1](k, i) - p[0](k, i));
        }
        r.push_back(o);
    }
    return r;
}
static bool consistent(const Lat& L, const vector<Op>& ops)
{
    for (auto& o : ops)
    {
        M3 C = cartRot(L, o.R), I = mul(C, trans(C));
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  if (std::fabs(I[i][j] - (i == j)) > 1e-8)  return false;
    }
    return true;
}

// structure with its own configuration of calculators
template <class B> struct Custom : public B
{
    double scale;
    Custom(const B& b, double s) : B(b), scale(s)  { }
    SPtr clone() const  { return boost::make_shared<Custom>(*this); }
    void customPQConfig(sr::PairQuantity* pq) const
    {
        if (auto c = dynamic_cast<sr::PDFCalculator*>(pq))  { c->setDoubleAttr("scale", scale); c->setPeakWidthModelByType("constant"); c->setDoubleAttr("width", 0.2); }
        else if (auto c = dynamic_cast<sr::DebyePDFCalculator*>(pq))  c->setDoubleAttr("scale", scale);
        else  pq->setRmax(scale);
    }
};
static APtr custom(APtr a, double s)
{
    if (auto c = boost::dynamic_pointer_cast<sr::CrystalStructureAdapter>(a))  return boost::make_shared<Custom<sr::CrystalStructureAdapter> >(*c, s);
    if (auto c = boost::dynamic_pointer_cast<sr::PeriodicStructureAdapter>(a))  return boost::make_shared<Custom<sr::PeriodicStructureAdapter> >(*c, s);
    return boost::make_shared<Custom<sr::AtomicStructureAdapter> >(*a, s);
}

// everything about sites
static void compareSites(const string& key, const sr::StructureAdapter& got, const sr::StructureAdapter& want, const string& log, bool multi=true)
{
    checkTrue(key + " number of sites", got.countSites() == want.countSites(), fmt("%d and %d ", got.countSites(), want.countSites()) + log);
    if (got.countSites() != want.countSites())  return;
    for (int i = 0; i < got.countSites(); ++i)
    {
        checkTrue(key + " type", got.siteAtomType(i) == want.siteAtomType(i), log);
        checkNear(key + " occupancy", got.siteOccupancy(i), want.siteOccupancy(i), 0, 0, log);
        checkTrue(key + " anisotropy", got.siteAnisotropy(i) == want.siteAnisotropy(i), log);
        if (multi)  checkTrue(key + " multiplicity", got.siteMultiplicity(i) == want.siteMultiplicity(i), fmt("site %d %d and %d ", i, got.siteMultiplicity(i), want.siteMultiplicity(i)) + log);
        for (int k = 0; k < 3; ++k)  checkNear(key + " position", got.siteCartesianPosition(i)[k], want.siteCartesianPosition(i)[k], 1e-10, 1e-9, log);
        for (int k = 0; k < 9; ++k)  checkNear(key + " displacement tensor", got.siteCartesianUij(i)(k / 3, k % 3), want.siteCartesianUij(i)(k / 3, k % 3), 1e-9, 1e-10, log);
    }
    if (!multi)  return;
    checkNear(key + " number density", got.numberDensity(), want.numberDensity(), 1e-9, 0, log);
    checkNear(key + " total occupancy", got.totalOccupancy(), want.totalOccupancy(), 1e-12, 0, log);
}

// calculators on both structures
static void compareCalcs(Rng& g, const string& key, SPtr a, SPtr b, const string& log, bool bvs, const std::function<PQPtr(PQPtr)>& evala=nullptr)
{
    static const int ks[] = {PDF, PDF, BONDS, PAIRCOUNT, OVERLAP, BVS, DEBYE};
    int kind = ks[g.i(0, 6)];
    if (kind == BVS && !bvs)  kind = BONDS;
    AnyCfg cfg = genAnyCfg(g, kind, 2, kind == DEBYE ? 3 : 4.5);
    cfg.rmax = std::min(cfg.rmax, 4.5);
    cfg.pdf.maxext = std::min(cfg.pdf.maxext, kind == DEBYE ? 1.0 : 2.5);
    cfg.pdf.rstep = std::max(cfg.pdf.rstep, 0.03);
    if (cfg.pdf.rad == "electron")  cfg.pdf.rad = "xray";
    if (kind == DEBYE)  cfg.pdf.qmax = std::min(cfg.pdf.qmax, 6.0);
    PQPtr p = makeCalc(kind), q = makeCalc(kind);
    cfg.apply(*p);
    cfg.apply(*q);
    if (evala)  evala(p);
    else  p->eval(a);
    q->eval(b);
    Results want = resultsOf(kind, *q), got = resultsOf(kind, *p);
    if (want.magnitude() > 0)  ctx().count(string("nonzero ") + calcName(kind));
    ctx().distinct(want.hash());
    compareResults(key + " " + calcName(kind), got, want, 1e-8, 1e-8, cfg.str() + " | " + log);
    evaluated("calculator on imported structure");
}

static void crystal(Rng& g)
{
    string sg = g.chance(0.55) ? g.pick(settings) : fmt("%d", g.i(1, 230));
    // the group decides on usable cells
    vector<Op> ops;
    boost::shared_ptr<oc::Crystal> c;
    Model m;
    m.kind = CRYSTAL;
    bool ok = false;
    for (int tries = 0; tries < 80 && !ok; ++tries)
    {
        double lo = 3.5, hi = 7;
        Lat l = tries < 70 ? genLatSys(g, Sys(tries % 7), lo, hi) : genLat(g, lo, hi);
        if (!ops.empty() && !consistent(l, ops))  continue;
        c = boost::make_shared<oc::Crystal>(l.a, l.b, l.c, l.al * M_PI / 180, l.be * M_PI / 180, l.ga * M_PI / 180, sg);
        if (ops.empty())  ops = observedOps(c->GetSpaceGroup());
        setLat(*c, m);
        ok = consistent(m.lat, ops) && std::fabs(m.lat.volume() - c->GetVolume()) < 1e-6 * c->GetVolume();
    }
    if (!ok)  { ctx().count("no cell for the group"); return; }
    m.ops = ops;
    m.symeps = sr::CrystalStructureAdapter().getSymmetryPrecision();
    string log = sg + " " + fmt("%zu ops ", ops.size());
    // scattering powers, some shared by several atoms
    const bool ions = g.chance(0.5);
    vector<string> types = ions ? vector<string>{"Na1+", "Cl1-", "O2-", "Fe3+"} : vector<string>{"C", "Na", "Cl", "O", "Fe", "Si"};
    struct Pow { oc::ScatteringPowerAtom* p; string type; bool aniso; M3 U; };
    vector<Pow> pows;
    M3 B = m.lat.base();
    // rows scaled by reciprocal lengths
    M3 Binv = inv(B);
    M3 N;
    for (int i = 0; i < 3; ++i)
    {
        double r = std::sqrt(Binv[0][i] * Binv[0][i] + Binv[1][i] * Binv[1][i] + Binv[2][i] * Binv[2][i]);
        for (int j = 0; j < 3; ++j)  N[i][j] = B[i][j] * r;
    }
    const int np = g.i(1, 3);
    for (int k = 0; k < np; ++k)
    {
        Pow p;
        p.type = g.pick(types);
        double biso = g.u(0.1, 2.5);
        p.p = new oc::ScatteringPowerAtom(fmt("sp%d", k), p.type, biso);
        p.aniso = g.chance(0.5);
        double u = biso / (8 * M_PI * M_PI);
        p.U = m3(u,0,0, 0,u,0, 0,0,u);
        if (p.aniso)
        {
            // tensor in crystal coordinates
            M3 Uc = genU(g, 0.002, 0.03, false);
            M3 Ni = inv(N), Ul = mul(mul(trans(Ni), Uc), Ni);
            for (int i = 0; i < 3; ++i) for (int j = 0; j <= i; ++j)
            {
                double b = Ul[i][j] * 8 * M_PI * M_PI;
                g.chance(0.5) ? p.p->SetBij(i + 1, j + 1, b) : p.p->SetBij(j + 1, i + 1, b);
            }
            p.U = Uc;
        }
        c->AddScatteringPower(p.p);
        pows.push_back(p);
        log += p.type + (p.aniso ? "A " : " ");
    }
    auto put = [&](const V3& f, double occ, const Pow& p)
    {
        SA a;
        a.type = p.type;
        a.xyz = m.lat.cart(f);
        a.occ = occ;
        a.aniso = p.aniso;
        a.U = p.U;
        m.atoms.push_back(a);
    };
    int maxat = std::max<int>(1, 60 / int(ops.size()));
    const int na = g.chance(0.04) ? 0 : g.i(1, std::min(4, maxat));
    bool dummies = false;
    for (int k = 0; k < na; ++k)
    {
        if (g.chance(0.15))
        {
            c->AddScatterer(new oc::Atom(g.u(0, 1), g.u(0, 1), g.u(0, 1), fmt("dummy%d", k), 0));
            dummies = true;
            ctx().count("dummy atoms");
        }
        const Pow& p = g.pick(pows);
        V3 f = genFrac(g, g.chance(0.6));
        if (g.chance(0.3))  f = f + v3(g.i(-2, 2), g.i(-2, 2), g.i(-2, 2));
        double occ = g.chance(0.5) ? 1 : g.pick({0, 0.25, 0.5, 0.75, 0.333});
        c->AddScatterer(new oc::Atom(f[0], f[1], f[2], fmt("at%d", k), p.p, occ));
        put(f, occ, p);
        log += fmt("(%.9g,%.9g,%.9g)o%.3g ", f[0], f[1], f[2], occ);
    }
    if (g.chance(0.12) && ops.size() <= 24)
    {
        // a molecule in the crystal, positions as reported by the library
        oc::Molecule* mol = new oc::Molecule(*c, "mol");
        vector<const Pow*> used;
        vector<double> occ;
        int nm = g.i(1, 4);
        for (int k = 0; k < nm; ++k)
        {
            const Pow& p = g.pick(pows);
            mol->AddAtom(1.4 * k, g.u(-0.4, 0.4), g.u(-0.4, 0.4), p.p, fmt("m%d", k));
            used.push_back(&p);
            occ.push_back(g.chance(0.6) ? 1 : 0.5);
            mol->GetAtom(k).SetOccupancy(occ.back());
        }
        c->AddScatterer(mol);
        mol->SetX(g.u(0, 1)); mol->SetY(g.u(0, 1)); mol->SetZ(g.u(0, 1));
        const oc::ScatteringComponentList& l = mol->GetScatteringComponentList();
        for (int k = 0; k < nm; ++k)  put(v3(l(k).mX, l(k).mY, l(k).mZ), occ[k], *used[k]);
        ctx().count("molecules in crystals");
    }
    log = m.lat.str() + " " + log;
    boost::shared_ptr<sr::StructureAdapter> st;
    st = g.chance(0.5) ? sr::createStructureAdapter(*c) : sr::convertToStructureAdapter(*c);
    sr::CrystalStructureAdapterPtr ca = boost::dynamic_pointer_cast<sr::CrystalStructureAdapter>(st);
    checkTrue("C21:crystal adapter", bool(ca), log);
    if (!ca)  return;
    evaluated("imported crystal");
    ctx().distinct(hstr(log));
    ctx().count("groups " + string(ops.size() == 1 ? "P1" : ops.size() < 9 ? "small" : ops.size() < 49 ? "medium" : "large"));
    // cell
    const double lv[6] = {ca->getLattice().a(), ca->getLattice().b(), ca->getLattice().c(), ca->getLattice().alpha(), ca->getLattice().beta(), ca->getLattice().gamma()};
    const double wv[6] = {m.lat.a, m.lat.b, m.lat.c, m.lat.al, m.lat.be, m.lat.ga};
    for (int k = 0; k < 6; ++k)  checkNear("C21:cell", lv[k], wv[k], 1e-12, 0, log);
    checkNear("C21:cell volume", ca->getLattice().volume(), c->GetVolume(), 1e-9, 0, log);
    // symmetry operations
    checkTrue("C21:number of symmetry operations", ca->countSymOps() == int(ops.size()), fmt("%d ", ca->countSymOps()) + log);
    vector<bool> found(ops.size(), false);
    for (int k = 0; k < ca->countSymOps(); ++k)
    {
        Op o;
        o.R = fromR3(ca->getSymOp(k).R);
        o.t = fromR3(ca->getSymOp(k).t);
        bool hit = false;
        for (size_t j = 0; j < ops.size() && !hit; ++j)
            if (!found[j] && o.R == ops[j].R)
            {
                V3 d = o.t - ops[j].t;
                for (int i = 0; i < 3; ++i)  d[i] -= std::round(d[i]);
                if (norm(d) < 1e-6)  { found[j] = true; hit = true; }
            }
        checkTrue("C21:symmetry operation", hit, fmt("%d ", k) + log);
    }
    evaluated("symmetry operations");
    // the same structure entered by hand
    APtr hand = toAdapter(m);
    compareSites("C21:crystal", *st, *hand, log);
    // images as listed by the source library
    for (size_t i = 0; i < m.atoms.size() && int(i) < st->countSites(); ++i)
    {
        V3 f = m.lat.frac(m.atoms[i].xyz);
        CrystMatrix_REAL all = c->GetSpaceGroup().GetAllSymmetrics(f[0], f[1], f[2]);
        vector<V3> img;
        for (int k = 0; k < all.rows(); ++k)
        {
            V3 h = v3(all(k, 0), all(k, 1), all(k, 2));
            bool dup = false;
            for (auto& x : img)  dup = dup || latDist(m.lat, x, h) < 2e-5;
            if (!dup)  img.push_back(h);
        }
        const vector<sr::Atom>& eq = ca->getEquivalentAtoms(i);
        checkTrue("C21:number of images", eq.size() == img.size(), fmt("site %zu %zu and %zu ", i, eq.size(), img.size()) + log);
        size_t hits = 0;
        for (auto& x : img)
            for (auto& e : eq)  if (latDist(m.lat, x, m.lat.frac(fromR3(e.xyz_cartn))) < 2e-5)  { ++hits; break; }
        checkTrue("C21:symmetry images", hits == img.size(), fmt("site %zu %zu of %zu ", i, hits, img.size()) + log);
        for (auto& e : eq)
            checkTrue("C21:attributes of images", e.atomtype == m.atoms[i].type && e.occupancy == m.atoms[i].occ && e.anisotropy == m.atoms[i].aniso, log);
        evaluated("symmetry images");
        // displacement tensors of images at general positions
        if (img.size() == ops.size())
            for (auto& im : imagesOf(m, m.atoms[i]))
                for (auto& e : eq)
                    if (latDist(m.lat, im.f, m.lat.frac(fromR3(e.xyz_cartn))) < 1e-6)
                        for (int k = 0; k < 9; ++k)  checkNear("C21:displacement tensors of images", e.uij_cartn(k / 3, k % 3), im.U[k / 3][k % 3], 1e-8, 1e-9, log);
    }
    (void) dummies;
    // pair enumeration
    {
        double rmax = g.u(1, 4);
        typedef std::pair<std::pair<int, int>, double> Rec;
        auto list = [&](SPtr s)
        {
            vector<Rec> v;
            sr::BaseBondGeneratorPtr b = s->createBondGenerator();
            b->setRmin(0.1);
            b->setRmax(rmax);
            for (int i = 0; i < s->countSites(); ++i)
            {
                b->selectAnchorSite(i);
                b->selectSiteRange(0, s->countSites());
                for (b->rewind(); !b->finished(); b->next())
                {
                    double x = b->distance();
                    if (std::fabs(x - rmax) < 1e-6 || std::fabs(x - 0.1) < 1e-6)  continue;
                    v.push_back(Rec(std::make_pair(b->site0(), b->site1()), x + 1e3 * b->msd()));
                }
            }
            std::sort(v.begin(), v.end(), [](const Rec& p, const Rec& q) { return p.first != q.first ? p.first < q.first : p.second < q.second; });
            return v;
        };
        vector<Rec> x = list(st), y = list(hand);
        bool same = x.size() == y.size();
        for (size_t k = 0; same && k < x.size(); ++k)  same = x[k].first == y[k].first && std::fabs(x[k].second - y[k].second) < 1e-6;
        checkTrue("C21:pairs of imported crystal", same, fmt("%zu and %zu rmax %.17g ", x.size(), y.size(), rmax) + log);
        ctx().count("pairs", x.size());
        evaluated("pair enumeration");
    }
    if (g.chance(0.5))
    {
        if (g.chance(0.5))  compareCalcs(g, "C21:crystal", st, hand, log, ions);
        else  compareCalcs(g, "C21:crystal", st, hand, log, ions, [&](PQPtr p) { p->eval(*c); return p; });
    }
    // imported structure is independent of later changes in the source
    if (na && g.chance(0.3))
    {
        string before = stateOf(*st);
        c->GetScatt("at0").SetX(0.123);
        pows[0].p->SetBiso(3.3);
        checkTrue("C21:imported structure follows its source", stateOf(*st) == before, log);
    }
    ctx().sample(log);
}

static void molecule(Rng& g)
{
    oc::Crystal c(g.u(4, 9), g.u(4, 9), g.u(4, 9), "P1");
    oc::Molecule* mol = new oc::Molecule(c, "m");
    c.AddScatterer(mol);
    Model m;
    m.kind = ATOMIC;
    const bool ions = g.chance(0.5);
    vector<string> types = ions ? vector<string>{"Na1+", "Cl1-", "O2-", "Fe3+"} : vector<string>{"C", "Na", "Cl", "O", "Fe", "Si"};
    struct Pow { oc::ScatteringPowerAtom* p; string type; bool aniso; M3 U; };
    vector<Pow> pows;
    string log = "molecule ";
    for (int k = g.i(1, 3); k > 0; --k)
    {
        Pow p;
        p.type = g.pick(types);
        double biso = g.u(0.1, 2.5), u = biso / (8 * M_PI * M_PI);
        p.p = new oc::ScatteringPowerAtom(fmt("sp%d", k), p.type, biso);
        p.aniso = g.chance(0.4);
        p.U = m3(u,0,0, 0,u,0, 0,0,u);
        if (p.aniso)
        {
            p.U = genU(g, 0.002, 0.03, false);
            for (int i = 0; i < 3; ++i) for (int j = 0; j <= i; ++j)  p.p->SetBij(i + 1, j + 1, p.U[i][j] * 8 * M_PI * M_PI);
        }
        c.AddScatteringPower(p.p);
        pows.push_back(p);
    }
    int n = g.chance(0.05) ? 0 : g.i(1, 9);
    for (int k = 0; k < n; ++k)
    {
        V3 x = v3(g.u(-4, 4), g.u(-4, 4), g.u(-4, 4));
        if (g.chance(0.15))
        {
            mol->AddAtom(x[0], x[1], x[2], 0, fmt("X%d", k));
            log += "dummy ";
            ctx().count("dummy atoms");
            continue;
        }
        const Pow& p = g.pick(pows);
        SA a;
        a.type = p.type;
        a.xyz = x;
        a.occ = g.chance(0.5) ? 1 : g.pick({0.0, 0.25, 0.5, 0.75, 0.333, 1.25, 2.0});
        a.aniso = p.aniso;
        a.U = p.U;
        mol->AddAtom(x[0], x[1], x[2], p.p, fmt("a%d", k));
        mol->GetAtom(k).SetOccupancy(a.occ);
        m.atoms.push_back(a);
    }
    log += m.str();
    SPtr st = g.chance(0.5) ? sr::createStructureAdapter(*mol) : sr::convertToStructureAdapter(*mol);
    APtr hand = toAdapter(m);
    evaluated("imported molecule");
    ctx().distinct(hstr(log));
    checkTrue("C21:molecule is not periodic", !boost::dynamic_pointer_cast<sr::PeriodicStructureAdapter>(st), log);
    compareSites("C21:molecule", *st, *hand, log);
    string dp = diffNum(bondsOf(st, 6), bondsOf(hand, 6), 1e-9);
    checkTrue("C21:pairs of a molecule", dp.empty(), dp + log);
    string key = "C21:molecule";
    if (g.chance(0.5))  compareCalcs(g, key, st, hand, log, ions);
    else  compareCalcs(g, key, st, hand, log, ions, [&](PQPtr p) { p->eval(*mol); return p; });
    ctx().sample(log);
}

static void wrappers(Rng& g)
{
    static const int ks[] = {PDF, PDF, BONDS, PAIRCOUNT, OVERLAP, BVS, DEBYE};
    const int kind = ks[g.i(0, 6)];
    GenOpt o;
    o.types = typesFor(kind);
    o.nmin = g.chance(0.9) ? 1 : 0;
    o.nmax = 6;
    o.maximages = 20;
    o.latlo = 3.5;
    o.minsep = 0.4;
    Model m = genModel(g, genKind(g), o);
    const double cs = kind == PDF || kind == DEBYE ? g.u(1.5, 3) : g.u(1, 3);
    const bool cust = g.chance(0.6);
    APtr src = toAdapter(m);
    if (cust)  src = custom(src, cs);
    string log = m.str() + (cust ? fmt(" custom %.6g", cs) : string()) + " : ";
    // random stack
    SPtr w = src;
    bool nosym = false, nometa = false;
    for (int k = g.i(1, 3); k > 0; --k)
    {
        SPtr was = w;
        if (g.chance(0.5))
        {
            w = g.chance(0.7) ? sr::nometa(w) : boost::make_shared<sr::NoMetaStructureAdapter>(w);
            nometa = true;
            log += "nometa ";
        }
        else
        {
            w = g.chance(0.7) ? sr::nosymmetry(w) : boost::make_shared<sr::NoSymmetryStructureAdapter>(w);
            nosym = true;
            log += "nosymmetry ";
        }
        if (g.chance(0.3))  { w = w->clone(); log += "clone "; }
        if (g.chance(0.15) && !cust)  { SPtr x; diffpy::serialization_fromstring(x, diffpy::serialization_tostring(w)); w = x; log += "restored "; }
    }
    // model of the same contents
    Model d = m;
    if (nosym)  { d.kind = ATOMIC; d.ops.clear(); }
    APtr plain = toAdapter(d);
    APtr meta = cust && !nometa ? custom(plain, cs) : plain;
    auto check = [&](const string& key)
    {
        compareSites(key, *w, *plain, log);
        checkTrue(key + " anisotropy", true, log);
        string x = bondsOf(w, 3.3), y = bondsOf(plain, 3.3);
        string df = diffNum(x, y, 1e-9);
        checkTrue(key + " pairs", df.empty(), df + log);
        if (nosym)
        {
            checkTrue(key + " density without symmetry", w->numberDensity() == 0, log);
            for (int i = 0; i < w->countSites(); ++i)  checkTrue(key + " multiplicity without symmetry", w->siteMultiplicity(i) == 1, log);
        }
        AnyCfg cfg = genAnyCfg(g, kind, 2, kind == DEBYE ? 3 : 4.5);
        cfg.rmax = std::min(cfg.rmax, 4.5);
        cfg.pdf.maxext = std::min(cfg.pdf.maxext, kind == DEBYE ? 1.0 : 2.5);
        cfg.pdf.rstep = std::max(cfg.pdf.rstep, 0.03);
        if (cfg.pdf.rad == "electron")  cfg.pdf.rad = "xray";
        if (kind == DEBYE)  cfg.pdf.qmax = std::min(cfg.pdf.qmax, 6.0);
        cfg.pdf.hasscale = true;
        PQPtr p = makeCalc(kind), q = makeCalc(kind);
        cfg.apply(*p);
        cfg.apply(*q);
        p->eval(w);
        q->eval(meta);
        Results want = resultsOf(kind, *q), got = resultsOf(kind, *p);
        if (want.magnitude() > 0)  ctx().count(string("wrapped nonzero ") + calcName(kind));
        ctx().distinct(want.hash());
        compareResults(key + " " + calcName(kind), got, want, 1e-9, 1e-9, cfg.str() + " | " + log);
        if (cust)
        {
            bool applied = kind == PDF || kind == DEBYE ? p->getDoubleAttr("scale") == cs : p->getRmax() == cs;
            checkTrue(key + " custom configuration", applied == !nometa, log);
            evaluated("custom configuration of wrapped structure");
        }
        evaluated("wrapped structure");
    };
    check("C21:wrapper");
    // wrapped source followed
    APtr low = sourceOf(w);
    checkTrue("C21:wrapper source", bool(low), log);
    if (low && g.chance(0.5))
    {
        Model was = m;
        log += mutateModel(g, m, o, false);
        editInPlace(g, *low, was, m);
        d = m;
        if (nosym)  { d.kind = ATOMIC; d.ops.clear(); }
        plain = toAdapter(d);
        meta = cust && !nometa ? custom(plain, cs) : plain;
        check("C21:wrapper of edited structure");
    }
    ctx().sample(log);
}

int main(int argc, char* argv[])
{
    oc::fpObjCrystInformUser = quiet;
    return runCases(argc, argv, [](long, Rng& g)
    {
        int what = g.i(0, 9);
        if (what < 5)  crystal(g);
        else if (what < 7)  molecule(g);
        else  wrappers(g);
        SPtr e = sr::nometa(SPtr()), f = sr::nosymmetry(SPtr());
        if (what == 9)  checkTrue("C21:wrapper of nothing", e->countSites() == 0 && f->countSites() == 0 && f->numberDensity() == 0, "");
    });
}
