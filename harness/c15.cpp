// C15: results compared between physically equivalent descriptions of a structure
#include "anycalc.hpp"
using namespace dpv;

// another description of the same structure
struct Desc
{
    Model m;
    vector<int> par;        // original site of each site
    M3 Q;                   // v' = v Q for vectors
    double repeat;          // number of original cells in the new one
    bool split;             // some sites are divided into partial ones
    string log;
};

static M3 rotU(const M3& U, const M3& Q)  { return mul(trans(Q), mul(U, Q)); }

static void symU(M3& U)
{
    for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j)  U[i][j] = U[j][i] = 0.5 * (U[i][j] + U[j][i]);
}

static bool transformOnce(Rng& g, Desc& d, bool splitok, bool repeatok)
{
    Model& m = d.m;
    switch (g.i(0, 7))
    {
        case 0:
        {
            // rotation of a cluster
            if (m.kind != ATOMIC)  return false;
            M3 Q = randomRotation(g);
            for (auto& a : m.atoms)
            {
                a.xyz = rmul(a.xyz, Q);
                if (a.aniso || g.chance(0.5))  { a.U = rotU(a.U, Q); symU(a.U); }
            }
            d.Q = mul(d.Q, Q);
            d.log += "rotated ";
            return true;
        }
        case 1:
        {
            // translation
            V3 t = v3(g.u(-9, 9), g.u(-9, 9), g.u(-9, 9));
            for (auto& a : m.atoms)  a.xyz = a.xyz + t;
            if (m.kind == CRYSTAL)
            {
                V3 s = m.lat.frac(t);
                for (auto& o : m.ops)  o.t = o.t + s - mul(o.R, s);
            }
            d.log += "translated ";
            return true;
        }
        case 2:
        {
            // order of atoms
            vector<int> idx;
            for (size_t k = 0; k < m.atoms.size(); ++k)  idx.push_back(k);
            g.shuffle(idx);
            vector<SA> a;
            vector<int> p;
            for (int k : idx)  { a.push_back(m.atoms[k]); p.push_back(d.par[k]); }
            m.atoms = a;
            d.par = p;
            d.log += "reordered ";
            return true;
        }
        case 3:
        {
            if (m.kind == ATOMIC)  return false;
            for (auto& a : m.atoms)
                if (g.chance(0.6))  a.xyz = a.xyz + m.lat.cart(v3(g.i(-2, 2), g.i(-2, 2), g.i(-2, 2)));
            d.log += "lattice vectors ";
            return true;
        }
        case 4: case 5:
        {
            // other lattice basis
            if (m.kind == ATOMIC)  return false;
            M3 M = intUnimodular(g);
            M3 B = mul(M, m.lat.base());
            Lat L = latOf(B);
            if (L.vnormal() < 0.12 || std::max(L.a, std::max(L.b, L.c)) > 16)  return false;
            M3 Q = mul(inv(B), L.base());
            for (auto& a : m.atoms)
            {
                a.xyz = rmul(a.xyz, Q);
                a.U = rotU(a.U, Q);
                symU(a.U);
                if (!a.aniso)  a.U = m3(a.U[0][0],0,0, 0,a.U[0][0],0, 0,0,a.U[0][0]);
            }
            if (m.kind == CRYSTAL)
            {
                changeBasis(m.ops, M);
            }
            m.lat = L;
            d.Q = mul(d.Q, Q);
            d.log += "basis ";
            return true;
        }
        case 6:
        {
            if (!splitok || m.atoms.empty())  return false;
            int i = g.i(0, m.atoms.size() - 1);
            SA a = m.atoms[i];
            double f = g.pick({0.5, 0.25, 0.3, 0.875});
            SA b = a;
            a.occ *= f;
            b.occ *= 1 - f;
            m.atoms[i] = a;
            int at = g.i(0, m.atoms.size());
            m.atoms.insert(m.atoms.begin() + at, b);
            int p = d.par[i];
            d.par.insert(d.par.begin() + at, p);
            d.split = true;
            d.log += "split ";
            return true;
        }
        default:
        {
            if (!repeatok || m.kind != PERIODIC)  return false;
            int n[3] = {g.i(1, 3), g.i(1, 2), g.i(1, 3)};
            int nn = n[0] * n[1] * n[2];
            if (nn == 1 || nn * int(m.atoms.size()) > 40)  return false;
            M3 B = m.lat.base();
            Model x = m;
            x.atoms.clear();
            vector<int> p;
            for (size_t k = 0; k < m.atoms.size(); ++k)
                for (int a = 0; a < n[0]; ++a) for (int b = 0; b < n[1]; ++b) for (int c = 0; c < n[2]; ++c)
                {
                    SA s = m.atoms[k];
                    s.xyz = s.xyz + rmul(v3(a, b, c), B);
                    x.atoms.push_back(s);
                    p.push_back(d.par[k]);
                }
            x.lat.a *= n[0];
            x.lat.b *= n[1];
            x.lat.c *= n[2];
            m = x;
            d.par = p;
            d.repeat *= nn;
            d.log += "supercell ";
            return true;
        }
    }
}

static void scale(VD& v, double f)  { for (double& x : v)  x *= f; }

static void oneCase(long, Rng& g)
{
    static const int kinds[] = {PDF, PDF, DEBYE, BONDS, BVS, OVERLAP, PAIRCOUNT};
    int kind = kinds[g.i(0, 6)];
    GenOpt o;
    o.types = typesFor(kind);
    o.nmin = 1;
    o.nmax = ctx().thorough() ? 9 : 6;
    o.maximages = kind == DEBYE ? 18 : 40;
    o.latlo = 3.5;
    o.minsep = kind == OVERLAP ? 0.4 : 0.9;
    Model m = genModel(g, genKind(g), o);
    double rhi = kind == DEBYE ? 4.5 : 5.5;
    AnyCfg cfg = genAnyCfg(g, kind, 2, rhi);
    if (kind == PDF || kind == DEBYE)
    {
        if (cfg.pdf.prec > 1e-4)  cfg.pdf.prec = 1e-8;
        cfg.pdf.debyeprec = std::min(cfg.pdf.debyeprec, 1e-9);
        cfg.pdf.maxext = std::min(cfg.pdf.maxext, 2.5);
        cfg.pdf.rstep = std::max(cfg.pdf.rstep, 0.03);
        if (kind == DEBYE)  cfg.pdf.qmax = g.u(3, 10);
    }
    // sums weighted by occupancies
    bool splitok = kind == PDF || kind == DEBYE || kind == BVS;
    int n = m.atoms.size();
    PairMask pm(n);
    PQPtr pq = makeCalc(kind);
    if (canOptimize(kind) && g.chance(0.5))  pq->setEvaluatorType(sr::BASIC);
    cfg.apply(*pq);
    if (n && g.chance(0.2))
        for (int k = g.i(1, 3); k > 0; --k)
        {
            int i = g.i(0, n - 1), j = g.i(0, n - 1);
            pq->setPairMask(i, j, false);
            pm.set(i, j, false);
        }
    pq->eval(sr::StructureAdapterPtr(toAdapter(m)));
    const Results R0 = resultsOf(kind, *pq);
    if (R0.magnitude() > 0)  ctx().count(string("nonzero ") + calcName(kind));
    int variants = g.i(1, 3);
    Desc d;
    d.m = m;
    for (int i = 0; i < n; ++i)  d.par.push_back(i);
    d.Q = m3id();
    d.repeat = 1;
    d.split = false;
    d.log = cfg.str() + " " + m.str() + " : ";
    for (int v = 0; v < variants; ++v)
    {
        int todo = g.i(1, 3);
        string before = d.log;
        for (int tries = 0; tries < 12 && todo > 0; ++tries)
            if (transformOnce(g, d, splitok, d.repeat == 1 && (int) d.m.atoms.size() < 20))  --todo;
        if (d.log == before)  return;
        std::istringstream words(d.log.substr(before.size()));
        string w;
        while (words >> w)  if (w != "vectors")  ctx().count("transformed: " + w);
        int nn = d.m.atoms.size();
        AnyCfg c2 = cfg;
        for (auto& c : c2.cones)  c.first = rmul(c.first, d.Q);
        PairMask px(nn);
        for (int i = 0; i < nn; ++i) for (int j = 0; j < nn; ++j)  px.on[i * nn + j] = pm(d.par[i], d.par[j]);
        PQPtr p2;
        if (g.chance(0.4) && kind != DEBYE)
        {
            p2 = pq;
            c2.apply(*p2);
            p2->maskAllPairs(true);
            writeMask(*p2, px);
        }
        else  p2 = freshCalc(c2, &px);
        p2->eval(sr::StructureAdapterPtr(toAdapter(d.m)));
        Results got = resultsOf(kind, *p2);
        Results want = R0;
        string key = string("C15:") + calcName(kind) + " ";
        const string& where = d.log;
        evaluated("result of an equivalent description");
        ctx().count("result sets compared");
        ctx().distinct(hcomb(want.hash(), hstr(d.log)));
        bool ext = kind == PDF && got.exact["extendedRgrid"].size() != want.exact["extendedRgrid"].size();
        if (ext)
        {
            ctx().count("PDF of different margins");
            for (const char* nm : {"extendedRgrid", "qgrid"})  want.exact.erase(nm);
            for (const char* nm : {"extendedRDF", "extendedPDF", "F", "PDF"})  want.global.erase(nm);
        }
        bool ok = true;
        for (auto& e : want.exact)  ok = checkArray(key + e.first, got.exact[e.first], e.second, 1e-12, 1e-9, where) && ok;
        if (!ok)  return;
        double rtol = 1e-6 + (kind == PDF ? 20 * cfg.pdf.prec : 0);
        for (auto& e : want.global)
        {
            VD x = e.second;
            if (kind == PAIRCOUNT || e.first == "totalSquareOverlap")  scale(x, d.repeat);
            checkArray(key + e.first, got.global[e.first], x, rtol, 1e-8, where);
        }
        for (auto& e : want.persite)
        {
            VD x;
            for (int k = 0; k < nn; ++k)  x.push_back(e.second[d.par[k]]);
            checkArray(key + e.first, got.persite[e.first], x, rtol, 1e-8, where);
        }
        if (d.split)  continue;
        for (const char* nm : {"bonds", "overlaps", "coordinationByTypes", "gradients"})
        {
            if (!want.lists.count(nm))  continue;
            string s = nm;
            if (s == "gradients" && m.kind == CRYSTAL)  continue;
            vector<Tup> wl, gl;
            for (int k = 0; k < nn; ++k)
                for (auto& t : want.lists[nm])
                {
                    if (t.i != d.par[k])  continue;
                    Tup u = t;
                    u.i = k;
                    if (s == "coordinationByTypes" || s == "gradients")  u.j = k;
                    int at = s == "bonds" ? 1 : s == "overlaps" ? 2 : s == "gradients" ? 0 : -1;
                    if (at >= 0)
                    {
                        V3 r = rmul(v3(u.v[at], u.v[at + 1], u.v[at + 2]), d.Q);
                        for (int q = 0; q < 3; ++q)  u.v[at + q] = r[q];
                    }
                    wl.push_back(u);
                }
            for (auto& t : got.lists[nm])
            {
                Tup u = t;
                if (s != "coordinationByTypes" && s != "gradients")  u.j = d.par[u.j];
                gl.push_back(u);
            }
            compareLists(key + nm, gl, wl, 1e-6, where);
        }
    }
    ctx().sample(d.log);
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, oneCase);
}
