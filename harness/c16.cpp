// C16: random programs of valid and rejected public calls with extreme arguments, boundary sizes, aliased
// arguments and unusual orders; the verdict is left to sanitizers, valgrind and internal assertions
#include "states.hpp"
#include "proc.hpp"
#include <sstream>
#include <diffpy/serialization.ipp>
#include <diffpy/runtimepath.hpp>
#include <diffpy/EventTicker.hpp>
#include <diffpy/srreal/PDFUtils.hpp>
#include <diffpy/srreal/AtomUtils.hpp>
#include <diffpy/srreal/PointsInSphere.hpp>
#include <diffpy/srreal/scatteringfactordata.hpp>
using namespace dpv;

static volatile uint64_t sink;
static void use(double x)  { sink = sink * 31 + (x > 0.5 ? 1 : x == x ? 2 : 3); }
static void use(const VD& v)  { for (double x : v)  use(x); }
static void use(const string& s)  { sink = sink * 31 + hstr(s); }
static void use(const sr::R3::Vector& v)  { for (int i = 0; i < 3; ++i)  use(v[i]); }

static double extreme(Rng& g)
{
    return g.pick({0.0, 0.0, 1e-300, 1e-12, 1e-9, 1e-4, 0.01, 0.5, 1.0, M_PI, 10.0, 100.0, 1e4, 1e9, 1e300, HUGE_VAL, -1e-9, -1.0, -1e9, -HUGE_VAL});
}
static string oddString(Rng& g)
{
    static const vector<string> fixed = {"", " ", "C", "C4+", "C4-", "Na1+", "O2-", "D", "12-C", "13-C1+", "4+", "+", "-", "9+", "99 +", " Na ", "Na 1+", "NA", "na1+",
        "all", "ALL", "All", "Cval", "Siva", "\xff\xfe", "\xc3\xa5" "C", string("C\0x", 3), "C:1.5", "C:1.5,O:0.7", "C:,O", ",,,", ":", "1e400", "Fe10+", "Fe2147483648+", "238-U", "U6+"};
    if (g.chance(0.75))  return g.pick(fixed);
    string r;
    for (int k = g.i(0, g.chance(0.1) ? 3000 : 12); k > 0; --k)  r += char(g.chance(0.8) ? g.i(32, 126) : g.i(1, 255));
    return r;
}

struct World
{
    Rng& g;
    string log;
    vector<APtr> stru;
    vector<SPtr> wrapped;
    struct Calc { PQPtr p; int kind; int sites; };
    vector<Calc> calcs;
    vector<string> parts;
    GenOpt o;
    int evals = 0;
    World(Rng& r) : g(r)
    {
        o.nmin = 0;
        o.nmax = 5;
        o.maximages = 12;
        o.latlo = 3.5;
        o.minsep = 0.3;
    }
    APtr anyStructure()
    {
        if (stru.empty() || g.chance(0.15))
        {
            o.types = typesFor(g.chance(0.5) ? BVS : PDF);
            stru.push_back(toAdapter(genModel(g, genKind(g), o)));
            if (stru.size() > 4)  stru.erase(stru.begin());
        }
        return g.pick(stru);
    }
    SPtr anySource()
    {
        if (!wrapped.empty() && g.chance(0.3))  return g.pick(wrapped);
        if (g.chance(0.05))  return sr::emptyStructureAdapter();
        return anyStructure();
    }
    sr::Atom anyAtom(sr::AtomicStructureAdapter& s)
    {
        sr::Atom a;
        if (s.countSites() && g.chance(0.5))  a = s[g.i(0, s.countSites() - 1)];
        else
        {
            a.atomtype = g.chance(0.9) ? g.pick(o.types.empty() ? typesFor(PDF) : o.types) : oddString(g);
            a.xyz_cartn = sr::R3::Vector(g.u(-5, 5), g.u(-5, 5), g.u(-5, 5));
            a.occupancy = g.pick({0.0, 0.5, 1.0, 1.0});
            double u = g.chance(0.2) ? 0 : g.u(0.001, 0.05);
            for (int i = 0; i < 3; ++i)  a.uij_cartn(i, i) = u;
            a.anisotropy = g.chance(0.3);
        }
        return a;
    }
    void structureOp()
    {
        APtr p = anyStructure();
        sr::AtomicStructureAdapter& s = *p;
        int n = s.countSites();
        int what = g.i(0, 17);
        log += fmt("s%d ", what);
        switch (what)
        {
            case 0:  if (n && n < 12) s.append(s[g.i(0, n - 1)]); break;
            case 1:  if (n < 12) s.append(anyAtom(s)); break;
            case 2:  if (n < 12) s.insert(g.i(0, n), anyAtom(s)); break;
            case 3:  if (n && n < 12) s.insert(s.begin() + g.i(0, n), s[g.i(0, n - 1)]); break;
            case 4:  if (n) s.erase(g.i(0, n - 1)); break;
            case 5:  { int i = g.i(0, n), j = g.i(i, n); s.erase(s.begin() + i, s.begin() + j); break; }
            case 6:  s.clear(); break;
            case 7:  s.reserve(g.i(0, 200)); break;
            case 8:  if (n) { sr::Atom& a = s.at(g.i(0, n - 1)); s.assign(size_t(g.i(0, 6)), a); } break;
            case 9:
            {
                APtr q = anyStructure();
                if (q != p)  s.assign(q->begin(), q->end());
                break;
            }
            case 10:
            {
                APtr q = anyStructure();
                if (q != p && n + q->countSites() < 12)  s.insert(s.begin() + g.i(0, n), q->begin(), q->end());
                break;
            }
            case 11:  std::reverse(s.begin(), s.end()); break;
            case 12:  std::sort(s.begin(), s.end()); break;
            case 13:  for (auto& a : s) { use(a.occupancy); use(a.atomtype); use(a.xyz_cartn); } for (auto it = s.rbegin(); it != s.rend(); ++it)  use(it->occupancy); break;
            case 14:
            {
                APtr q = boost::dynamic_pointer_cast<sr::AtomicStructureAdapter>(s.clone());
                checkTrue("C16:clone differs", stateOf(*q) == stateOf(s), log);
                stru.push_back(q);
                break;
            }
            case 15:
            {
                auto d = s.diff(anySource());
                use(double(d.pop0.size() + d.add1.size()) + d.allowsfastupdate());
                break;
            }
            case 16:
            {
                SPtr x;
                SPtr y = p;
                diffpy::serialization_fromstring(x, diffpy::serialization_tostring(y));
                wrapped.push_back(x);
                break;
            }
            default:
                if (n && g.chance(0.5))  { sr::Atom& a = s[g.i(0, n - 1)]; a = s[g.i(0, n - 1)]; }
                else  use(s.totalOccupancy() + s.numberDensity());
        }
        if (auto c = dynamic_cast<sr::PeriodicStructureAdapter*>(p.get()))
        {
            int w = g.i(0, 8);
            log += fmt("p%d ", w);
            n = s.countSites();
            if (w == 0)
            {
                Lat l = genLat(g, 3.5, 7);
                if (dynamic_cast<sr::CrystalStructureAdapter*>(c))
                {
                    // keep the cell compatible with symmetry operations
                    const sr::Lattice& L = c->getLattice();
                    double k = std::min(7.0, std::max(3.5, L.a() * g.u(0.8, 1.2))) / L.a();
                    l = Lat(k * L.a(), k * L.b(), k * L.c(), L.alpha(), L.beta(), L.gamma());
                }
                c->setLatPar(l.a, l.b, l.c, l.al, l.be, l.ga);
            }
            else if (w == 1 && n)  { sr::Atom& a = s[g.i(0, n - 1)]; c->toFractional(a); c->toCartesian(a); }
            else if (w == 2)
            {
                const sr::Lattice& L = c->getLattice();
                sr::R3::Vector v(g.u(-3, 3), g.u(-3, 3), g.u(-3, 3));
                // returned references used as arguments
                use(L.cartesian(L.fractional(v)));
                use(L.ucvCartesian(L.ucvFractional(L.fractional(v))));
                use(L.cartesianMatrix(L.fractionalMatrix(L.metrics()))(1, 1));
                use(L.dot(L.fractional(v), L.ucvFractional(v)));
                use(L.ucMaxDiagonal());
                use(sr::R3::mxvecproduct(sr::R3::inverse(sr::R3::inverse(L.base())), sr::R3::floor(sr::R3::floor(v))));
                sr::Lattice K(L.va(), L.vb(), L.vc());
                K.setLatBase(K.vc(), K.va(), K.vb());
                use(double(K == L));
                raises([&]() { K.setLatBase(K.va(), K.va(), K.vc()); });
            }
        }
        if (auto c = dynamic_cast<sr::CrystalStructureAdapter*>(p.get()))
        {
            int w = g.i(0, 9);
            log += fmt("c%d ", w);
            n = s.countSites();
            switch (w)
            {
                case 0:  raises([&]() { c->setSymmetryPrecision(g.pick({1e-9, 1e-5, 1e-3, 0.0, -1.0, 0.5})); }); break;
                case 1:  if (c->countSymOps() && c->countSymOps() < 10)  c->addSymOp(c->getSymOp(g.i(0, c->countSymOps() - 1))); break;
                case 2:  c->clearSymOps(); break;
                case 3:  c->updateSymmetryPositions(); break;
                case 4:  for (int i = 0; i < n; ++i) for (auto& a : c->getEquivalentAtoms(i))  use(a.xyz_cartn); break;
                case 5:  if (n)  { auto& eq = c->getEquivalentAtoms(g.i(0, n - 1)); if (!eq.empty())  for (auto& a : c->expandLatticeAtom(eq[0]))  use(a.occupancy); } break;
                case 6:  if (c->countSymOps() < 8)  c->addSymOp(sr::R3::identity(), sr::R3::Vector(0.5, 0.0, 0.0)); break;
                case 7:  if (n)  use(double(c->siteMultiplicity(g.i(0, n - 1)))); break;
                default:  break;
            }
        }
    }
    void wrapOp()
    {
        SPtr s = anySource();
        log += "w ";
        SPtr w = g.chance(0.5) ? sr::nometa(s) : sr::nosymmetry(s);
        if (g.chance(0.3))  w = w->clone();
        auto d = w->diff(anySource());
        use(double(d.allowsfastupdate()));
        wrapped.push_back(w);
        if (wrapped.size() > 4)  wrapped.erase(wrapped.begin());
        use(stateOf(*w));
    }
    void bondOp()
    {
        SPtr s = anySource();
        int n = s->countSites();
        log += "b ";
        sr::BaseBondGeneratorPtr b = s->createBondGenerator();
        if (g.chance(0.3))  s.reset();
        int steps = 0;
        sr::SiteIndices si;
        for (int k = g.i(1, 10); k > 0; --k)
        {
            switch (g.i(0, 6))
            {
                case 0:  b->setRmin(g.pick({0.0, 0.5, 3.0, 1e-12, 7.0, -1.0})); break;
                case 1:  b->setRmax(g.pick({0.0, 1.0, 5.0, 3.0, 1e-9, -2.0})); break;
                case 2:  if (n)  b->selectAnchorSite(g.i(0, n - 1)); break;
                case 3:  { int i = g.i(0, n), j = g.i(i, n); b->selectSiteRange(i, j); break; }
                case 4:
                {
                    // the generator keeps iterators to the list
                    si.clear();
                    for (int j = g.i(0, n ? 6 : 0); j > 0; --j)  si.push_back(g.i(0, n - 1));
                    b->selectSites(si);
                    if (!si.empty() && g.chance(0.4))  b->selectSites(si.begin(), si.begin() + g.i(0, si.size()));
                    break;
                }
                default:  break;
            }
            if (!n)  continue;
            b->rewind();
            for (int j = g.i(0, 40); j > 0 && !b->finished(); --j, b->next())
            {
                use(b->distance()); use(b->msd()); use(b->r0()); use(b->r1()); use(b->r01());
                use(double(b->site0() + b->site1() + b->multiplicity()));
                use(b->Ucartesian0()(0, 1) + b->Ucartesian1()(2, 2));
                ++steps;
            }
        }
        ctx().count("bond steps", steps);
    }
    // results that refer to sites are valid as long as the structure keeps its sites
    void settled(Calc& c)  { c.sites = c.p->getStructure()->countSites(); }
    void sweep(Calc& c)
    {
        bool bysite = c.kind == BVS || c.kind == BONDS || c.kind == OVERLAP;
        if (bysite && c.sites != c.p->getStructure()->countSites())  return;
        const sr::PairQuantity& q = *c.p;
        use(q.value());
        use(double(q.getEvaluatorTypeUsed()));
        if (auto p = dynamic_cast<const sr::PDFCalculator*>(&q))
        {
            switch (g.i(0, 3))
            {
                case 0:  use(p->getPDF()); use(p->getRDF()); use(p->getRDFperR()); break;
                case 1:  use(p->getF()); use(p->getQgrid()); use(p->getRgrid()); break;
                case 2:  use(p->getExtendedPDF()); use(p->getExtendedRDF()); use(p->getExtendedRDFperR()); use(p->getExtendedF()); use(p->getExtendedRgrid()); break;
                default:
                    use(p->getExtendedRmin()); use(p->getExtendedRmax()); use(p->getQstep());
                    use(p->applyBaseline(p->getExtendedRgrid(), p->getExtendedRDF()));
                    // the r-grid can be newer than the values evaluated before
                    if (p->getRgrid().size() == p->getPDF().size())  use(p->applyEnvelopes(p->getRgrid(), p->getPDF()));
            }
        }
        else if (auto p = dynamic_cast<const sr::DebyePDFCalculator*>(&q))
        {
            switch (g.i(0, 2))
            {
                case 0:  use(p->getPDF()); break;
                case 1:  use(p->getRDF()); use(p->getRDFperR()); use(p->getRgrid()); break;
                default:  use(p->getF()); use(p->getQgrid());
            }
        }
        else if (auto p = dynamic_cast<const sr::BondCalculator*>(&q))
        {
            use(p->distances());
            for (auto& v : p->directions())  use(v);
            for (int i : p->sites0())  use(double(i));
            for (auto& t : p->types0())  use(t);
            for (auto& t : p->types1())  use(t);
            use(double(p->sites1().size()));
        }
        else if (auto p = dynamic_cast<const sr::BVSCalculator*>(&q))
        {
            use(p->valences());
            if (p->value().size() == p->valences().size())  { use(p->bvdiff()); use(p->bvmsdiff()); use(p->bvrmsdiff()); }
            use(p->getRmaxUsed());
        }
        else if (auto p = dynamic_cast<const sr::OverlapCalculator*>(&q))
        {
            use(p->overlaps()); use(p->distances());
            for (auto& v : p->directions())  use(v);
            for (auto& t : p->types0())  use(t);
            for (auto& t : p->types1())  use(t);
            use(double(p->sites0().size() + p->sites1().size()));
            use(p->siteSquareOverlaps()); use(p->totalSquareOverlap()); use(p->meanSquareOverlap());
            use(p->coordinations());
            int n = p->siteSquareOverlaps().size();
            for (auto& v : p->gradients())  use(v);
            for (auto& h : p->neighborhoods())  use(double(h.size()));
            for (int i : {0, n - 1, n, -1, n / 2})
            {
                if (i >= 0 && i < n)  { use(double(p->getNeighborSites(i).size())); use(double(p->coordinationByTypes(i).size())); }
                for (int j : {0, n - 1, n, -1})  raises([&]() { use(p->flipDiffTotal(i, j) + p->flipDiffMean(i, j)); });
            }
            use(p->getRmaxUsed());
        }
        ctx().count("result sweeps");
    }
    // grids stay affordable
    bool affordable(const Calc& c)
    {
        if (c.p->getStructure() && c.p->getStructure()->countSites() > 12)  return false;
        if (auto p = dynamic_cast<const sr::PDFCalculator*>(c.p.get()))
        {
            if (!(p->getRmax() < 60 && p->getRmax() / p->getRstep() < 2e4 && p->getMaxExtension() < 20))  return false;
            if (!(p->getQmax() < 1e4))  return p->getQmax() == HUGE_VAL;
            double ex = p->getExtendedRmax();
            return ex < 60 && ex / p->getRstep() < 2e4;
        }
        if (auto p = dynamic_cast<const sr::DebyePDFCalculator*>(c.p.get()))
        {
            if (!(p->getRmax() < 8 && p->getRmax() / p->getRstep() < 1e4 && p->getMaxExtension() < 4 && p->getQmax() < 40))  return false;
            if (!(p->getQmax() / p->getQstep() < 1500))  return false;
            return p->getDoubleAttr("extendedrmax") < 12;
        }
        if (!(c.p->getRmax() < 8))  return dynamic_cast<sr::OverlapCalculator*>(c.p.get()) && boost::dynamic_pointer_cast<sr::ConstantRadiiTable>(dynamic_cast<sr::OverlapCalculator&>(*c.p).getAtomRadiiTable())->getDefault() < 5;
        return true;
    }
    void configure(Calc& c)
    {
        if (g.chance(0.6))
        {
            AnyCfg cfg = genAnyCfg(g, c.kind, 2, 4);
            cfg.rmax = std::min(cfg.rmax, 5.0);
            if (c.kind == DEBYE)  { cfg.pdf.qmax = std::min(cfg.pdf.qmax, 6.0); cfg.pdf.maxext = std::min(cfg.pdf.maxext, 1.0); }
            cfg.pdf.rstep = std::max(cfg.pdf.rstep, 0.02);
            if (c.kind == PDF && cfg.pdf.rad == "electron")  cfg.pdf.rad = "neutron";
            cfg.apply(*c.p);
            log += "cfg ";
            return;
        }
        auto names = c.p->namesOfDoubleAttributes();
        vector<string> ns(names.begin(), names.end());
        for (int k = g.i(1, 4); k > 0; --k)
        {
            string nm = g.chance(0.9) ? g.pick(ns) : oddString(g);
            double v = extreme(g);
            // extreme values stay within grids that fit in the memory
            static const std::set<string> wide = {"scale", "qdamp", "slope", "spdiameter", "stepcut", "qmin", "rmin"};
            if (nm == "debyeprecision" || nm == "peakprecision")  v = g.pick({1e-4, 1e-6, 0.1, 0.0, -1.0, 0.9, 1.0, 2.0});
            else if (nm == "rmax")  v = g.pick({-1.0, 0.0, 1e-9, 0.5, 3.0, 5.0, 59.0});
            else if (nm == "rstep")  v = g.pick({-1.0, 0.0, 1e-9, 3e-3, 0.01, 0.3, 7.0, 1e6, 1e300});
            else if (nm == "maxextension")  v = g.pick({-1.0, 0.0, 1e-9, 1.0, 4.0, 19.0});
            else if (nm == "qstep")  v = g.pick({-1.0, 0.0, 1e-9, 0.02, 0.3, 5.0, 1e5});
            else if (nm == "qmax" && c.kind != PDF)  v = g.pick({-1.0, 0.0, 1e-9, 5.0, 30.0, 157.0, 1e300});
            else if (nm == "qmax")  ;
            else if (nm == "scale" || nm == "slope" || nm == "qdamp")  v = std::max(-1e100, std::min(v, 1e100));
            else if (!wide.count(nm))  v = std::max(-1e3, std::min(v, 1e3));
            log += fmt("%s=%g ", nm.substr(0, 20).c_str(), v);
            double was = c.p->hasDoubleAttr(nm) ? c.p->getDoubleAttr(nm) : 0;
            raises([&]() { c.p->setDoubleAttr(nm, v); });
            if (!affordable(c))
                raises([&]() { c.p->setDoubleAttr(nm, was); });
        }
    }
    void note(Calc& c)
    {
        ctx().alive();
        if (getenv("DPV_NOTE"))  fprintf(stderr, "%s %s %d\n", calcName(c.kind), configOf(*c.p, false).c_str(), c.p->getStructure()->countSites());
    }
    void calcOp()
    {
        if (calcs.empty() || g.chance(0.15))
        {
            Calc c;
            c.kind = g.i(0, NCALC - 1);
            c.p = makeCalc(c.kind);
            if (c.kind != OVERLAP)  c.p->setRmax(4);
            if (auto d = dynamic_cast<sr::DebyePDFCalculator*>(c.p.get()))  { d->setQmax(6); d->setMaxExtension(1); }
            settled(c);
            calcs.push_back(c);
            if (calcs.size() > 4)  calcs.erase(calcs.begin());
            log += fmt("new%d ", c.kind);
            if (g.chance(0.4))  { log += "r "; sweep(calcs.back()); }
        }
        Calc& c = calcs[g.i(0, int(calcs.size()) - 1)];
        int what = g.i(0, 15);
        log += fmt("q%d.%d ", c.kind, what);
        switch (what)
        {
            case 0:
                if (!affordable(c))  break;
                raises([&]() { note(c); c.p->eval(); ++evals; });
                settled(c);
                break;
            case 1: case 2: case 3: case 4:
                if (!affordable(c))  break;
                raises([&]() { note(c); c.p->eval(anySource()); ++evals; });
                settled(c);
                break;
            case 5:  sweep(c); break;
            case 6:  configure(c); break;
            case 7:  raises([&]() { c.p->setStructure(g.chance(0.3) ? c.p->getStructure() : anySource()); }); settled(c); break;
            case 8:  { static const vector<sr::PQEvaluatorType> t = {sr::NONE, sr::BASIC, sr::OPTIMIZED, sr::CHECK}; auto e = g.pick(t); raises([&]() { c.p->setEvaluatorType(e); }); break; }
            case 9:
                for (int k = g.i(1, 4); k > 0; --k)
                    switch (g.i(0, 4))
                    {
                        case 0:  c.p->setPairMask(g.pick({0, 1, 3, 1000, -1}), g.pick({0, 2, 5, 4000, -2}), g.chance(0.5)); break;
                        case 1:  c.p->setTypeMask(oddString(g), oddString(g), g.chance(0.5)); break;
                        case 2:  c.p->invertMask(); break;
                        case 3:  c.p->maskAllPairs(g.chance(0.7)); break;
                        default:  use(double(c.p->getPairMask(g.i(0, 9), g.i(0, 9)) + c.p->getTypeMask(oddString(g), oddString(g))));
                    }
                break;
            case 10:
            {
                int n = g.pick({1, 2, 3, 7, 0, -1});
                raises([&]() { c.p->setupParallelRun(n > 0 ? g.i(0, n - 1) : 0, n); });
                break;
            }
            case 11:
                parts.push_back(c.p->getParallelData());
                if (parts.size() > 5)  parts.erase(parts.begin());
                break;
            case 12:
                // partial data of calculators of the same kind and another size
                for (int k = g.i(1, 3); k > 0; --k)
                {
                    PQPtr q = makeCalc(c.kind);
                    if (c.kind != OVERLAP)  q->setRmax(3);
                    if (auto d = dynamic_cast<sr::DebyePDFCalculator*>(q.get()))  { d->setQmax(6); d->setMaxExtension(0.5); }
                    string data;
                    bool same = c.kind == BONDS || c.kind == OVERLAP || g.chance(0.3);
                    if (same && (c.sites != c.p->getStructure()->countSites() || c.sites > 12))  break;
                    if (raises([&]() { q->eval(same ? c.p->getStructure() : anySource()); data = q->getParallelData(); }))  break;
                    raises([&]() { c.p->mergeParallelData(data, g.i(0, 3)); });
                    raises([&]() { sweep(c); });
                }
                break;
            case 13:
            {
                PQPtr x;
                if (c.kind != PAIRCOUNT)
                {
                    diffpy::serialization_fromstring(x, diffpy::serialization_tostring(c.p));
                    c.p = x;
                }
                break;
            }
            case 14:
            {
                if (auto p = dynamic_cast<sr::PDFCalculator*>(c.p.get()))
                {
                    // own components given back
                    p->setPeakProfile(p->getPeakProfile());
                    p->setBaseline(p->getBaseline());
                    p->setPeakWidthModel(p->getPeakWidthModel());
                    p->setScatteringFactorTable(p->getScatteringFactorTable());
                    for (auto& t : p->usedEnvelopeTypes())  { p->addEnvelope(p->getEnvelopeByType(t)); if (g.chance(0.2))  p->popEnvelope(p->getEnvelopeByType(t)); }
                    if (g.chance(0.2))  p->clearEnvelopes();
                    raises([&]() { p->addEnvelopeByType(oddString(g)); });
                    p->setPeakWidthModelByType(p->getPeakWidthModel()->type());
                    p->setPeakProfileByType(p->getPeakProfile()->type());
                    p->setBaselineByType(p->getBaseline()->type());
                }
                if (auto p = dynamic_cast<sr::OverlapCalculator*>(c.p.get()))
                {
                    auto t = p->getAtomRadiiTable();
                    raises([&]() { t->setCustom(oddString(g), g.u(-1, 2)); });
                    raises([&]() { t->fromString(oddString(g)); });
                    string s = t->toString(oddString(g));
                    raises([&]() { t->fromString(s); });
                    raises([&]() { t->fromString(t->toString()); });
                    use(t->lookup(oddString(g)));
                    if (g.chance(0.5))  t->resetAll();
                    p->setAtomRadiiTable(p->getAtomRadiiTable());
                }
                if (auto p = dynamic_cast<sr::BVSCalculator*>(c.p.get()))
                {
                    auto t = p->getBVParamTable();
                    raises([&]() { t->setAtomValence(oddString(g), g.i(-3, 3)); });
                    use(double(t->getAtomValence(oddString(g))));
                    const sr::BVParam& b = t->lookup("Na1+", "Cl1-");
                    raises([&]() { t->setCustom(b); });
                    raises([&]() { t->setCustom(t->lookup(oddString(g), oddString(g))); });
                    raises([&]() { t->setCustom(oddString(g), g.i(-9, 9), oddString(g), g.i(-9, 9), g.u(0, 3), g.u(0, 1)); });
                    auto all = t->getAllCustom();
                    if (!all.empty())  t->resetCustom(*t->getAllCustom().begin());
                    if (g.chance(0.1))  use(double(t->getAll().size()));
                    if (g.chance(0.3))  t->resetAll();
                    t->resetAtomValences();
                    p->setBVParamTable(p->getBVParamTable());
                }
                if (auto p = dynamic_cast<sr::BondCalculator*>(c.p.get()))
                {
                    auto dirs = p->directions();
                    for (int k = g.i(0, 3); k > 0; --k)
                        raises([&]() { p->filterCone(dirs.empty() ? sr::R3::Vector(1, 0, 0) : g.pick(dirs), g.pick({0.0, 1e-9, 45.0, 180.0, 400.0, -5.0, HUGE_VAL})); });
                    if (g.chance(0.3))  p->filterOff();
                }
                break;
            }
            default:
                // structure changes below an evaluated calculator
                structureOp();
                if (g.chance(0.5) && affordable(c))  { raises([&]() { note(c); c.p->eval(); ++evals; }); settled(c); }
                raises([&]() { sweep(c); });
        }
        if (g.chance(0.3))  { log += "r "; raises([&]() { sweep(c); }); }
        if (g.chance(0.1))  stru.clear();
        if (g.chance(0.05))  calcs.erase(calcs.begin() + g.i(0, int(calcs.size()) - 1));
    }
    void valueOp()
    {
        int what = g.i(0, 11);
        log += fmt("v%d ", what);
        switch (what)
        {
            case 0:
            {
                VD x(g.pick({0, 1, 2, 3, 4, 5, 8, 9, 17, 64, 65}));
                for (auto& v : x)  v = g.u(-1, 1);
                raises([&]() { use(sr::fftgtof(x, g.u(0.01, 1), g.chance(0.5) ? 0 : g.u(0, 3))); });
                raises([&]() { use(sr::fftftog(x, g.u(0.01, 1), g.chance(0.5) ? 0 : g.u(0, 3))); });
                break;
            }
            case 1:
            {
                sr::PeakProfilePtr p = sr::PeakProfile::createByType(g.chance(0.5) ? "gaussian" : "croppedgaussian");
                raises([&]() { p->setPrecision(g.pick({0.0, 1e-300, 1e-6, 0.5, 1.0, 2.0, -1.0})); });
                for (double w : {0.0, 1e-300, 0.1, 1e300})  { use(p->xboundlo(w)); use(p->xboundhi(w)); use((*p)(0.0, w)); use((*p)(extreme(g), w)); }
                sr::PeakProfilePtr q = p->clone();
                use(q->getPrecision());
                break;
            }
            case 2:
            {
                for (auto& t : sr::PDFEnvelope::getRegisteredTypes())
                {
                    sr::PDFEnvelopePtr e = sr::PDFEnvelope::createByType(t);
                    for (auto& n : e->namesOfWritableDoubleAttributes())  raises([&]() { e->setDoubleAttr(n, extreme(g)); });
                    for (int k = 0; k < 5; ++k)  use((*e)(std::fabs(extreme(g))));
                    use(e->clone()->type());
                }
                for (auto& t : sr::PDFBaseline::getRegisteredTypes())
                {
                    sr::PDFBaselinePtr e = sr::PDFBaseline::createByType(t);
                    for (auto& n : e->namesOfWritableDoubleAttributes())  raises([&]() { e->setDoubleAttr(n, extreme(g)); });
                    use((*e)(extreme(g)));
                }
                break;
            }
            case 3:
            {
                double lo = g.pick({0.0, 1.0, 3.0, -1.0, 5.0}), hi = g.pick({0.0, 2.0, 6.0, -3.0, 1e-9});
                sr::PointsInSphere s(lo, hi, g.u(1, 4), g.u(1, 4), g.u(1, 4), 90, g.u(80, 100), 90);
                int k = 0;
                for (s.rewind(); !s.finished() && k < 500; s.next(), ++k)  { use(s.r()); use(double(s.m() + s.n() + s.o() + s.mno()[2])); }
                sr::PointsInSphere t(s);
                for (t.rewind(); !t.finished() && k < 900; t.next(), ++k)  use(t.r());
                sr::ReflectionsInQminQmax q(std::fabs(lo), std::fabs(hi), 3, 4, g.u(2, 5), 90, 90, 120);
                for (q.rewind(); !q.finished() && k < 2000; q.next(), ++k)  { use(q.Q()); use(double(q.h() + q.k() + q.l())); if (q.Q() > 0)  use(q.d()); }
                sr::ReflectionsInDmaxDmin r(6, 1.5, 3, 4, g.u(2, 5), 90, 90, 120);
                for (r.rewind(); !r.finished() && k < 3000; r.next(), ++k)  use(r.d());
                ctx().count("lattice points", k);
                break;
            }
            case 4:
            {
                string s = oddString(g);
                use(sr::atomBareSymbol(s));
                use(double(sr::atomValence(s)));
                for (auto& t : {"xray", "neutron", "electron", "electronnumber"})
                {
                    auto tb = sr::ScatteringFactorTable::createByType(t);
                    raises([&]() { use(tb->lookup(s, std::fabs(extreme(g)))); });
                    raises([&]() { use(tb->standardLookup(s, 1)); });
                    raises([&]() { tb->setCustomAs(s, oddString(g)); });
                    raises([&]() { tb->setCustomAs(s, g.chance(0.5) ? s : string("C"), g.u(0, 3), g.u(0, 2)); });
                    raises([&]() { use(tb->lookup(s, 0.5)); });
                    for (auto& x : tb->getCustomSymbols())  use(x);
                    tb->resetCustom(oddString(g));
                    if (g.chance(0.5))  tb->resetAll();
                }
                break;
            }
            case 5:
            {
                sr::BVParam p;
                raises([&]() { p.setFromCifLine(oddString(g)); });
                raises([&]() { p.setFromCifLine("Na 1 Cl -1 2.15 0.37 a junk at 'the end'"); });
                use(p.bondvalence(extreme(g)) + p.bondvalenceToDistance(extreme(g)));
                sr::BVParam q = p;
                use(double(q == p));
                break;
            }
            case 6:
            {
                string text;
                for (int k = g.i(0, 5); k > 0; --k)  text += oddString(g) + g.pick(vector<string>{"\n", "\r\n", "", "\n\n", ";", "# x\n"});
                std::istringstream is(text);
                diffpy::runtimepath::LineReader r;
                if (g.chance(0.5))  r.separator = ";";
                if (g.chance(0.5))  r.commentmark = "#";
                int k = 0;
                while ((is >> r) && k++ < 50)
                {
                    use(double(r.isblank() + r.iscomment() + r.isignored() + r.wcount() + r.lineno));
                    for (auto& w : r.words)  use(w);
                    use(string(r.format_error("f", "x").what()));
                }
                break;
            }
            case 7:
            {
                diffpy::eventticker::EventTicker a, b, c(a);
                for (int k = 0; k < 20; ++k)  switch (g.i(0, 4))
                {
                    case 0:  a.click(); break;
                    case 1:  b.updateFrom(a); break;
                    case 2:  b = c; break;
                    case 3:  c.updateFrom(c); break;
                    default:  use(double((a < b) + (b <= c) + (a == c) + (c != b) + (a > c) + (a >= b)));
                }
                break;
            }
            case 8:
            {
                for (auto& t : {sr::PeakWidthModel::createByType("jeong"), sr::PeakWidthModel::createByType("constant"), sr::PeakWidthModel::createByType("debye-waller")})
                {
                    for (auto& n : t->namesOfWritableDoubleAttributes())  raises([&]() { t->setDoubleAttr(n, g.pick({0.0, 0.01, 2.0, 1e3})); });
                    SPtr s = anySource();
                    use(t->maxWidth(s, g.pick({0.0, 1.0}), g.pick({0.5, 5.0})));
                    sr::BaseBondGeneratorPtr b = s->createBondGenerator();
                    b->setRmax(3);
                    if (!s->countSites())  continue;
                    b->selectAnchorSite(0);
                    b->selectSiteRange(0, s->countSites());
                    int k = 0;
                    for (b->rewind(); !b->finished() && k < 20; b->next(), ++k)  use(t->calculate(*b));
                }
                break;
            }
            case 9:
            {
                PQPtr c = makeCalc(g.i(0, NCALC - 1));
                sr::PairQuantity& p = *c;
                string s;
                raises([&]() { p.getDoubleAttr(oddString(g)); }, &s);
                raises([&]() { p.setDoubleAttr(oddString(g), 1); }, &s);
                for (auto& n : p.namesOfDoubleAttributes())  use(p.getDoubleAttr(n));
                break;
            }
            case 10:
            {
                for (auto& x : {g.chance(0.5) ? oddString(g) : string("scale"), oddString(g)})
                {
                    raises([&]() { sr::PDFEnvelope::createByType(x); });
                    raises([&]() { sr::PeakProfile::createByType(x); });
                    raises([&]() { sr::AtomRadiiTable::createByType(x); });
                    raises([&]() { sr::ScatteringFactorTable::createByType(x); });
                }
                for (auto& t : sr::ScatteringFactorTable::getAliasedTypes())  use(t.first + t.second);
                break;
            }
            default:
            {
                string s = g.chance(0.5) ? oddString(g) : "Fe";
                for (double q : {0.0, 1.0, 30.0, 1e6})
                {
                    raises([&]() { use(sr::fxrayatq(s, q)); });
                    raises([&]() { use(sr::felectronatq(s, q)); });
                    raises([&]() { use(sr::bcneutron(s)); });
                }
                raises([&]() { diffpy::runtimepath::datapath(oddString(g)); });
            }
        }
    }
    void run()
    {
        int n = ctx().thorough() ? g.i(5, 60) : g.i(5, 30);
        for (int k = 0; k < n; ++k)
        {
            int w = g.i(0, 99);
            if (w < 22)  structureOp();
            else if (w < 28)  wrapOp();
            else if (w < 36)  bondOp();
            else if (w < 85)  calcOp();
            else  valueOp();
        }
        ctx().count("calls", n);
        ctx().count("evaluations of calculators", evals);
        evaluated("random program");
        ctx().distinct(hstr(log));
        ctx().sample(log);
        // destruction in random order
        for (int k = 0; k < 3; ++k)  switch (g.i(0, 2))
        {
            case 0:  stru.clear(); break;
            case 1:  calcs.clear(); break;
            default:  wrapped.clear();
        }
    }
};

// the factor of electrons is not finite at Q=0 where the real space calculator takes it
static void electrons()
{
    int st = 0;
    string r = forked([]()
    {
        APtr s(new sr::AtomicStructureAdapter);
        sr::Atom a;
        a.atomtype = "C";
        a.xyz_cartn = sr::R3::Vector(0, 0, 0);
        a.uij_cartn = 0.01 * sr::R3::identity();
        s->append(a);
        a.xyz_cartn = sr::R3::Vector(1.5, 0, 0);
        s->append(a);
        sr::PDFCalculator c;
        c.setScatteringFactorTableByType("electron");
        c.eval(s);
        use(c.getRDF());
        use(c.getF());
        return string("ok");
    }, &st);
    checkTrue("C16:PDFCalculator with electron scattering factors", st == 0 && r == "ok", fmt("status %d ", st) + r);
    evaluated("electron factors in real space");
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, [](long k, Rng& g)
    {
        if (k == 0)  electrons();
        World(g).run();
    });
}
