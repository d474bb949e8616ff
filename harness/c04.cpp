// C04: crystals with symmetry operations compared with their explicit expansion
#include "anycalc.hpp"
using namespace dpv;

typedef diffpy::srreal::CrystalStructureAdapter CSA;

// positions equal up to a lattice translation
static double modDist(const Model& m, const V3& a, const V3& b)
{
    return latDist(m.lat, m.lat.frac(a), m.lat.frac(b));
}

static bool insideCell(const Model& m, const V3& x)
{
    V3 f = m.lat.frac(x);
    for (int i = 0; i < 3; ++i)  if (f[i] < -1e-9 || f[i] > 1 + 1e-9)  return false;
    return true;
}

// description of sites, equivalent positions, densities
static void checkAdapter(const Model& m, const CSA& s, const string& where)
{
    evaluated("symmetry sites against expansion");
    double occ = 0;
    for (size_t i = 0; i < m.atoms.size(); ++i)
    {
        const SA& a = m.atoms[i];
        vector<Image> want = imagesOf(m, a);
        occ += a.occ * want.size();
        checkTrue("C04:multiplicity", s.siteMultiplicity(i) == int(want.size()),
                fmt("site %zu got %d expected %zu ", i, s.siteMultiplicity(i), want.size()) + where);
        if (want.size() < m.ops.size())  ctx().count("special positions");
        CSA::AtomVector ea = s.getEquivalentAtoms(i);
        sr::Atom fa = toAtom(a);
        const sr::Lattice& L = s.getLattice();
        fa.xyz_cartn = L.fractional(fa.xyz_cartn);
        fa.uij_cartn = L.fractionalMatrix(fa.uij_cartn);
        CSA::AtomVector xa = s.expandLatticeAtom(fa);
        if (!checkTrue("C04:number of equivalent atoms", ea.size() == want.size() && xa.size() == want.size(),
                    fmt("site %zu got %zu, %zu expected %zu ", i, ea.size(), xa.size(), want.size()) + where))  continue;
        vector<char> used(want.size(), 0);
        for (size_t k = 0; k < ea.size(); ++k)
        {
            V3 r = fromR3(ea[k].xyz_cartn);
            size_t best = 0;
            double bd = 1e9;
            for (size_t q = 0; q < want.size(); ++q)
            {
                double d = modDist(m, r, want[q].xyz);
                if (d < bd)  { bd = d; best = q; }
            }
            checkTrue("C04:equivalent position", bd < 2e-7 && !used[best], fmt("site %zu image %zu off by %.3g ", i, k, bd) + where);
            used[best] = 1;
            checkTrue("C04:image in the unit cell", insideCell(m, r), where);
            bool same = ea[k].atomtype == a.type && ea[k].occupancy == a.occ && ea[k].anisotropy == a.aniso;
            checkTrue("C04:image attributes", same, where);
            M3 U = fromR3(ea[k].uij_cartn);
            for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q)
                checkNear("C04:image Uij", U[p][q], want[best].U[p][q], 1e-7, 1e-9, fmt("site %zu image %zu ", i, k) + where);
            // expansion in fractional coordinates
            sr::Atom x = xa[k];
            checkTrue("C04:expanded lattice atom",
                    modDist(m, fromR3(L.cartesian(x.xyz_cartn)), r) < 2e-7 && x.atomtype == a.type && x.occupancy == a.occ, where);
            M3 UX = fromR3(L.cartesianMatrix(x.uij_cartn));
            for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q)
                checkNear("C04:expanded Uij", UX[p][q], U[p][q], 1e-7, 1e-9, where);
        }
        ctx().count("images checked", want.size());
    }
    checkNear("C04:total occupancy", s.totalOccupancy(), occ, 1e-12, 1e-12, where);
    double v = m.lat.volume();
    checkNear("C04:number density", s.numberDensity(), occ / v, 1e-10, 1e-12, where);
    checkTrue("C04:number of sites", s.countSites() == int(m.atoms.size()), where);
    checkTrue("C04:number of operations", s.countSymOps() == int(m.ops.size()), where);
    for (size_t k = 0; k < m.ops.size(); ++k)
    {
        const sr::SymOpRotTrans& o = s.getSymOp(k);
        bool same = fromR3(o.R) == m.ops[k].R && fromR3(o.t) == m.ops[k].t;
        checkTrue("C04:symmetry operation", same, where);
    }
}

// calculator on the crystal against the same on its expansion
static void compareExpanded(const string& key, const AnyCfg& cfg, sr::PairQuantity& pq, const Model& m,
        sr::StructureAdapterPtr st, const PairMask& pm, const string& where)
{
    vector<int> parent;
    Model x = expandP1(m, &parent);
    vector<int> first(m.atoms.size(), -1);
    for (int k = parent.size() - 1; k >= 0; --k)  first[parent[k]] = k;
    PairMask px(x.atoms.size());
    for (int i = 0; i < px.n; ++i) for (int j = 0; j < px.n; ++j)
        px.on[i * px.n + j] = pm(parent[i], parent[j]);
    PQPtr f = freshCalc(cfg, &px);
    sr::StructureAdapterPtr sx = toAdapter(x);
    f->setStructure(sx);
    if (cfg.kind == DEBYE)  matchDebyeRange(*f, pq, cfg.pdf, sx);
    f->eval(sx);
    Results want = resultsOf(cfg.kind, *f), got = resultsOf(cfg.kind, pq);
    evaluated("calculator against expansion");
    ctx().count("result sets compared");
    ctx().distinct(hcomb(want.hash(), hstr(cfg.str())));
    if (want.magnitude() > 0)  ctx().count(string("nonzero ") + calcName(cfg.kind));
    // the margin for peaks beyond the range is a bound from the listed displacements
    bool ext = cfg.kind == PDF && got.exact["extendedRgrid"].size() != want.exact["extendedRgrid"].size();
    if (ext)
    {
        ctx().count("PDF of different margins");
        for (const char* nm : {"extendedRgrid", "qgrid"})  want.exact.erase(nm);
        for (const char* nm : {"extendedRDF", "extendedPDF", "F", "PDF"})  want.global.erase(nm);
    }
    for (auto& e : want.exact)  if (!checkArray(key + e.first, got.exact[e.first], e.second, 1e-12, 1e-9, where))  return;
    double rtol = 1e-6 + (cfg.kind == PDF ? 20 * cfg.pdf.prec : 0);
    for (auto& e : want.global)  checkArray(key + e.first, got.global[e.first], e.second, rtol, 1e-8, where);
    for (auto& e : want.persite)
    {
        const VD& v = got.persite[e.first];
        VD w(parent.size(), 1e300);
        if (v.size() == m.atoms.size())  for (size_t k = 0; k < parent.size(); ++k)  w[k] = v[parent[k]];
        checkArray(key + e.first, w, e.second, rtol, 1e-8, where);
    }
    for (const char* nm : {"bonds", "overlaps", "coordinationByTypes"})
    {
        if (!want.lists.count(nm))  continue;
        // bonds are listed from the first image of each site
        vector<Tup> w;
        for (auto& t : want.lists[nm])
        {
            if (first[parent[t.i]] != t.i)  continue;
            Tup u = t;
            u.i = parent[t.i];
            u.j = parent[t.j];
            w.push_back(u);
        }
        compareLists(key + nm, got.lists[nm], w, 5e-7, where);
    }
    if (cfg.kind == OVERLAP)
    {
        std::set<std::pair<int, int> > sg, sw;
        for (auto& t : got.lists["neighborsites"])  sg.insert(std::make_pair(t.i, t.j));
        for (auto& t : want.lists["neighborsites"])  sw.insert(std::make_pair(parent[t.i], parent[t.j]));
        checkTrue(key + "neighbor sites", sg == sw, fmt("%zu entries expected %zu ", sg.size(), sw.size()) + where);
    }
}

static void oneCase(long, Rng& g)
{
    static const int kinds[] = {PDF, PDF, DEBYE, BONDS, BVS, OVERLAP, PAIRCOUNT};
    int kind = kinds[g.i(0, 6)];
    GenOpt o;
    o.types = typesFor(kind);
    o.nmin = 1;
    o.nmax = ctx().thorough() ? 7 : 5;
    o.maximages = kind == DEBYE ? 24 : 56;
    o.latlo = 3.5;
    o.minsep = kind == OVERLAP ? 0.4 : 0.9;
    Model m = genModel(g, CRYSTAL, o);
    if (g.chance(0.15))  m.symeps = g.pick({1e-5, 5e-4, 2e-3});
    double rhi = kind == DEBYE ? 4.5 : 5.5;
    AnyCfg cfg = genAnyCfg(g, kind, 2, rhi);
    auto trim = [&]()
    {
        if (kind != PDF && kind != DEBYE)  return;
        if (cfg.pdf.prec > 1e-4)  cfg.pdf.prec = 1e-8;
        cfg.pdf.debyeprec = std::min(cfg.pdf.debyeprec, 1e-9);
        cfg.pdf.maxext = std::min(cfg.pdf.maxext, 2.5);
        cfg.pdf.rstep = std::max(cfg.pdf.rstep, 0.03);
        if (kind == DEBYE)  cfg.pdf.qmax = g.u(3, 10);
    };
    trim();
    // a site near a symmetry element but outside of the tolerance
    if (g.chance(0.06) && m.ops.size() > 1)
    {
        Model q = m;
        q.atoms.clear();
        SA a = genAtom(g, q, o, true);
        double e = 60 * q.symeps;
        V3 d = v3(g.gauss(), g.gauss(), g.gauss());
        a.xyz = a.xyz + (e / norm(d)) * d;
        // membership must not depend on rounding
        bool clear = true;
        vector<V3> fs;
        for (auto& op : q.ops)  fs.push_back(mul(op.R, q.lat.frac(a.xyz)) + op.t);
        for (auto& f : fs) for (auto& h : fs)
        {
            double x = latDist(q.lat, f, h);
            if (x > 0.05 * q.symeps && x < 20 * q.symeps)  clear = false;
        }
        if (clear)
        {
            symmetrizeU(q, a);
            q.atoms.push_back(a);
            ctx().count("sites just off symmetry elements");
            checkAdapter(q, dynamic_cast<CSA&>(*toAdapter(q)), "near special " + q.str());
            // tolerance changed back and forth on the same structure
            q.atoms[0].aniso = false;
            q.atoms[0].U = m3(0.01,0,0, 0,0.01,0, 0,0,0.01);
            double big = 30 * e, small = q.symeps;
            for (auto& f : fs) for (auto& h : fs)
            {
                double x = latDist(q.lat, f, h);
                if (x > 0.1 * big && x < 3 * big)  clear = false;
            }
            if (clear)
            {
                auto st = toAdapter(q);
                CSA& c = dynamic_cast<CSA&>(*st);
                string how = "tolerance ";
                for (int k = g.i(2, 5); k > 0; --k)
                {
                    q.symeps = g.chance(0.5) ? big : small;
                    how += fmt("%g ", q.symeps);
                    c.setSymmetryPrecision(q.symeps);
                    if (g.chance(0.8))  checkAdapter(q, c, how + q.str());
                }
                ctx().count("tolerances changed");
            }
        }
    }
    string log = cfg.str() + " | " + m.str() + fmt(" symeps=%g : ", m.symeps);
    sr::AtomicStructureAdapterPtr live = toAdapter(m);
    if (g.chance(0.3))
    {
        // atoms given by fractional coordinates
        CSA& c = dynamic_cast<CSA&>(*live);
        c.clear();
        for (auto& a : m.atoms)
        {
            sr::Atom b = toAtom(a);
            b.xyz_cartn = toR3(m.lat.frac(a.xyz));
            b.uij_cartn = c.getLattice().fractionalMatrix(b.uij_cartn);
            c.toCartesian(b);
            c.append(b);
        }
        log += "fractional ";
    }
    PQPtr pq = makeCalc(kind);
    if (canOptimize(kind) && g.chance(0.4))  pq->setEvaluatorType(sr::BASIC);
    cfg.apply(*pq);
    int steps = g.i(0, 4);
    int opsbudget = 3;
    for (int s = 0; s <= steps; ++s)
    {
        if (s)
        {
            int what = g.i(0, 9);
            if (what == 0 && m.ops.size() > 1)
            {
                g.shuffle(m.ops);
                CSA& c = dynamic_cast<CSA&>(*live);
                c.clearSymOps();
                // operations are added to a structure in use
                Model part = m;
                part.ops.clear();
                const bool use = g.chance(0.5);
                for (auto& op : m.ops)
                {
                    if (use && !part.ops.empty() && g.chance(0.3))
                    {
                        checkAdapter(part, c, "some operations " + part.str());
                        ctx().count("structures with some operations");
                    }
                    part.ops.push_back(op);
                    if (g.chance(0.5))  c.addSymOp(toR3(op.R), toR3(op.t));
                    else  { sr::SymOpRotTrans x = {toR3(op.R), toR3(op.t)}; c.addSymOp(x); }
                }
                log += "reordered ";
                // the first operation gives the anchor image
            }
            else if (what == 1 && !m.ops.empty())
            {
                // translations by lattice vectors
                CSA& c = dynamic_cast<CSA&>(*live);
                c.clearSymOps();
                for (auto& op : m.ops)
                {
                    op.t = op.t + v3(g.i(-1, 1), g.i(-1, 1), g.i(-1, 1));
                    c.addSymOp(toR3(op.R), toR3(op.t));
                }
                log += "shifted operations ";
            }
            else if (what == 2 && !m.atoms.empty())
            {
                // site moved by lattice vectors
                int i = g.i(0, m.atoms.size() - 1);
                m.atoms[i].xyz = m.atoms[i].xyz + m.lat.cart(v3(g.i(-2, 2), g.i(-2, 2), g.i(-2, 2)));
                (*live)[i] = toAtom(m.atoms[i]);
                log += "outside ";
            }
            else if (what == 3 && !m.atoms.empty() && --opsbudget > 0)
            {
                // site replaced by one of its images
                int i = g.i(0, m.atoms.size() - 1);
                vector<Image> im = imagesOf(m, m.atoms[i]);
                const Image& x = g.pick(im);
                m.atoms[i].xyz = x.xyz;
                m.atoms[i].U = x.U;
                (*live)[i] = toAtom(m.atoms[i]);
                log += "image ";
            }
            else
            {
                Model was = m;
                string d = mutateModel(g, m, o, false);
                // keep clear of positions where the tolerance decides
                bool bad = false;
                for (auto& a : m.atoms)
                {
                    vector<V3> fs;
                    for (auto& op : m.ops)  fs.push_back(mul(op.R, m.lat.frac(a.xyz)) + op.t);
                    for (size_t p = 0; p < fs.size() && !bad; ++p) for (size_t q = 0; q < p; ++q)
                    {
                        double x = latDist(m.lat, fs[p], fs[q]);
                        if (x > 0.3 * m.symeps && x < 0.1)  { bad = true; break; }
                    }
                }
                if (bad)  { m = was; continue; }
                editInPlace(g, *live, was, m);
                if (g.chance(0.1) && m.ops.size())
                {
                    m.symeps = g.pick({1e-5, 5e-5, 5e-4});
                    dynamic_cast<CSA&>(*live).setSymmetryPrecision(m.symeps);
                    bool amb = false;
                    for (auto& a : m.atoms)
                    {
                        vector<V3> fs;
                        for (auto& op : m.ops)  fs.push_back(mul(op.R, m.lat.frac(a.xyz)) + op.t);
                        for (size_t p = 0; p < fs.size(); ++p) for (size_t q = 0; q < p; ++q)
                        {
                            double x = latDist(m.lat, fs[p], fs[q]);
                            if (x > 0.1 * m.symeps && x < 0.1)  amb = true;
                        }
                    }
                    if (amb)
                    {
                        m.symeps = 5e-5;
                        dynamic_cast<CSA&>(*live).setSymmetryPrecision(m.symeps);
                    }
                }
                log += "edit{" + d + "} ";
            }
            ctx().count("edits");
        }
        if (imagesOf(m, m.atoms.empty() ? SA() : m.atoms[0]).empty())  continue;
        size_t total = 0;
        for (auto& a : m.atoms)  total += imagesOf(m, a).size();
        if (total > 120)  { ctx().count("large cells skipped"); return; }
        bool before = g.chance(0.5);
        if (before)  checkAdapter(m, dynamic_cast<CSA&>(*live), log);
        if (g.chance(0.75))
        {
            PairMask pm(m.atoms.size());
            if (s == 0 && g.chance(0.25))
            {
                for (int k = g.i(1, 3); k > 0 && pm.n; --k)  { int i = g.i(0, pm.n - 1), j = g.i(0, pm.n - 1); pq->setPairMask(i, j, false); }
            }
            pq->eval(sr::StructureAdapterPtr(live));
            pm = readMask(*pq, m.atoms.size());
            compareExpanded(string("C04:") + calcName(kind) + " ", cfg, *pq, m, live, pm, log);
        }
        if (!before)  checkAdapter(m, dynamic_cast<CSA&>(*live), log);
    }
    ctx().sample(log);
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, oneCase);
}
