// Independent structure model, random structure generators, brute force pair
// lists and conversion to libdiffpy adapters.
#ifndef DPV_STRUCTURES_HPP
#define DPV_STRUCTURES_HPP
#include "common.hpp"
#include <boost/make_shared.hpp>
#include <diffpy/srreal/AtomicStructureAdapter.hpp>
#include <diffpy/srreal/PeriodicStructureAdapter.hpp>
#include <diffpy/srreal/CrystalStructureAdapter.hpp>
#include <diffpy/srreal/PointsInSphere.hpp>

namespace dpv {
namespace sr = diffpy::srreal;

struct Lat
{
    double a, b, c, al, be, ga;
    Lat(double a_=1, double b_=1, double c_=1, double al_=90, double be_=90, double ga_=90)
        : a(a_), b(b_), c(c_), al(al_), be(be_), ga(ga_)  { }
    static ld cosd(ld x)
    {
        if (x == 90)  return 0;
        if (x == 60)  return 0.5L;
        if (x == 120)  return -0.5L;
        return cosl(x * M_PIl / 180);
    }
    // rows are the base vectors, c along z, b in the yz plane
    M3 base() const
    {
        ld ca = cosd(al), cb = cosd(be), cg = cosd(ga);
        ld sa = sqrtl(1 - ca * ca);
        ld az = a * cb;
        ld ay = a * (cg - cb * ca) / sa;
        ld ax2 = a * (ld) a - ay * ay - az * az;
        ld ax = sqrtl(ax2 > 0 ? ax2 : 0);
        return m3(ax, ay, az, 0, b * sa, b * ca, 0, 0, c);
    }
    double vnormal() const
    {
        ld ca = cosd(al), cb = cosd(be), cg = cosd(ga);
        ld v2 = 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg;
        return v2 > 0 ? double(sqrtl(v2)) : 0;
    }
    double volume() const  { return vnormal() * a * b * c; }
    V3 cart(const V3& f) const  { return rmul(f, base()); }
    V3 frac(const V3& r) const  { return rmul(r, inv(base())); }
    string str() const  { return fmt("lat(%.6g,%.6g,%.6g,%.5g,%.5g,%.5g)", a, b, c, al, be, ga); }
};

struct SA
{
    string type;
    V3 xyz;         // Cartesian
    double occ;
    bool aniso;
    M3 U;           // Cartesian
    SA() : type("C"), xyz(v3(0,0,0)), occ(1), aniso(false), U(m3zero())  { }
};

struct Op  { M3 R; V3 t; };

enum Kind { ATOMIC, PERIODIC, CRYSTAL };

struct Model
{
    Kind kind;
    Lat lat;
    vector<SA> atoms;
    vector<Op> ops;
    double symeps;
    Model() : kind(ATOMIC), symeps(5e-5)  { }
    string str() const
    {
        string s = (kind == ATOMIC ? "atomic " : kind == PERIODIC ? "periodic " : "crystal ");
        if (kind != ATOMIC)  s += lat.str();
        if (kind == CRYSTAL)  s += fmt(" ops=%zu", ops.size());
        for (size_t i = 0; i < atoms.size() && i < 8; ++i)
        {
            const SA& a = atoms[i];
            s += fmt(" %s(%.8g,%.8g,%.8g)o%.4g%s u%.3g", a.type.c_str(), a.xyz[0], a.xyz[1], a.xyz[2], a.occ,
                    a.aniso ? "A" : "", a.U[0][0]);
        }
        return s;
    }
    uint64_t hash() const  { return hstr(str()); }
};

inline sr::R3::Vector toR3(const V3& v)  { return sr::R3::Vector(v[0], v[1], v[2]); }
inline sr::R3::Matrix toR3(const M3& m)
{
    return sr::R3::Matrix(m[0][0],m[0][1],m[0][2], m[1][0],m[1][1],m[1][2], m[2][0],m[2][1],m[2][2]);
}
inline V3 fromR3(const sr::R3::Vector& v)  { return v3(v[0], v[1], v[2]); }
inline M3 fromR3(const sr::R3::Matrix& m)
{
    return m3(m(0,0),m(0,1),m(0,2), m(1,0),m(1,1),m(1,2), m(2,0),m(2,1),m(2,2));
}

inline sr::Atom toAtom(const SA& a)
{
    sr::Atom b;
    b.atomtype = a.type;
    b.xyz_cartn = toR3(a.xyz);
    b.occupancy = a.occ;
    b.anisotropy = a.aniso;
    b.uij_cartn = toR3(a.U);
    return b;
}

inline sr::AtomicStructureAdapterPtr toAdapter(const Model& m)
{
    sr::AtomicStructureAdapterPtr rv;
    if (m.kind == ATOMIC)  rv = boost::make_shared<sr::AtomicStructureAdapter>();
    else if (m.kind == PERIODIC)
    {
        sr::PeriodicStructureAdapterPtr p = boost::make_shared<sr::PeriodicStructureAdapter>();
        p->setLatPar(m.lat.a, m.lat.b, m.lat.c, m.lat.al, m.lat.be, m.lat.ga);
        rv = p;
    }
    else
    {
        sr::CrystalStructureAdapterPtr p = boost::make_shared<sr::CrystalStructureAdapter>();
        p->setLatPar(m.lat.a, m.lat.b, m.lat.c, m.lat.al, m.lat.be, m.lat.ga);
        p->setSymmetryPrecision(m.symeps);
        for (auto& op : m.ops)  p->addSymOp(toR3(op.R), toR3(op.t));
        rv = p;
    }
    for (auto& a : m.atoms)  rv->append(toAtom(a));
    return rv;
}

// --- symmetry ----------------------------------------------------------------------
inline double wrap1(double x)
{
    double y = x - std::floor(x);
    if (y >= 1 - 1e-9)  y = 0;
    if (y < 1e-9)  y = 0;
    return y;
}
inline bool sameOp(const Op& p, const Op& q)
{
    for (int i = 0; i < 3; ++i)
    {
        double d = p.t[i] - q.t[i];
        d -= std::round(d);
        if (std::fabs(d) > 1e-6)  return false;
        for (int j = 0; j < 3; ++j)  if (std::fabs(p.R[i][j] - q.R[i][j]) > 1e-6)  return false;
    }
    return true;
}
inline double cleanFrac(double x)
{
    x = x - std::floor(x);
    double y = std::round(x * 24) / 24;
    if (std::fabs(x - y) < 1e-9)  x = y;
    if (x >= 1)  x -= 1;
    return x;
}
inline Op compose(const Op& p, const Op& q)
{
    Op r;
    r.R = mul(p.R, q.R);
    r.t = mul(p.R, q.t) + p.t;
    for (int i = 0; i < 3; ++i)  r.t[i] = cleanFrac(r.t[i]);
    return r;
}
// closure of the generators, empty when it exceeds the limit
inline vector<Op> closeGroup(const vector<Op>& gens, size_t limit=192)
{
    Op id = {m3id(), v3(0,0,0)};
    vector<Op> g(1, id);
    for (size_t i = 0; i < g.size(); ++i)
        for (auto& q : gens)
        {
            Op n = compose(q, g[i]);
            bool have = false;
            for (auto& o : g)  if (sameOp(o, n))  { have = true; break; }
            if (have)  continue;
            g.push_back(n);
            if (g.size() > limit)  return vector<Op>();
        }
    return g;
}
inline Op op(double a, double b, double c, double d, double e, double f, double g, double h, double i,
        double t0=0, double t1=0, double t2=0)
{
    Op o = {m3(a,b,c,d,e,f,g,h,i), v3(t0,t1,t2)};
    return o;
}
enum Sys { TRICLINIC, MONOCLINIC, ORTHO, TETRA, HEXA, RHOMBO, CUBIC };

inline Lat genLatSys(Rng& g, Sys s, double lo=3, double hi=7)
{
    double a = g.u(lo, hi), b = g.u(lo, hi), c = g.u(lo, hi);
    switch (s)
    {
        case MONOCLINIC:  return Lat(a, b, c, 90, g.u(75, 125), 90);
        case ORTHO:  return Lat(a, b, c, 90, 90, 90);
        case TETRA:  return Lat(a, a, c, 90, 90, 90);
        case HEXA:  return Lat(a, a, c, 90, 90, 120);
        case RHOMBO:  { double al = g.u(50, 110); return Lat(a, a, a, al, al, al); }
        case CUBIC:  return Lat(a, a, a, 90, 90, 90);
        default:  break;
    }
    for (;;)
    {
        Lat L(a, b, c, g.u(60, 120), g.u(60, 120), g.u(60, 120));
        if (L.vnormal() > 0.35)  return L;
    }
}
inline vector<Op> genGroup(Rng& g, Sys s)
{
    vector<Op> gens;
    Op inv = op(-1,0,0, 0,-1,0, 0,0,-1);
    auto cent = [&](double x, double y, double z)  { gens.push_back(op(1,0,0,0,1,0,0,0,1,x,y,z)); };
    auto half = [&]()  { return g.chance(0.35) ? 0.5 : 0.0; };
    switch (s)
    {
        case TRICLINIC:
            if (g.chance(0.8))
            {
                Op o = inv;
                if (g.chance(0.3))  o.t = v3(half(), half(), half());
                gens.push_back(o);
            }
            break;
        case MONOCLINIC:
            if (g.chance(0.7))  gens.push_back(op(-1,0,0, 0,1,0, 0,0,-1, 0, half(), half()));
            if (g.chance(0.6))  gens.push_back(op(1,0,0, 0,-1,0, 0,0,1, 0, 0, half()));
            if (g.chance(0.3))  cent(.5, .5, 0);
            break;
        case ORTHO:
            gens.push_back(op(-1,0,0, 0,-1,0, 0,0,1, half(), 0, half()));
            if (g.chance(0.7))  gens.push_back(op(-1,0,0, 0,1,0, 0,0,-1, 0, half(), half()));
            if (g.chance(0.5))  gens.push_back(inv);
            if (g.chance(0.2))  cent(.5, .5, .5);
            else if (g.chance(0.2))  { cent(0, .5, .5); cent(.5, 0, .5); }
            else if (g.chance(0.2))  cent(.5, .5, 0);
            break;
        case TETRA:
            gens.push_back(op(0,-1,0, 1,0,0, 0,0,1, 0, 0, g.chance(0.3) ? 0.25 * g.i(1, 3) : 0));
            if (g.chance(0.5))  gens.push_back(inv);
            if (g.chance(0.4))  gens.push_back(op(1,0,0, 0,-1,0, 0,0,-1));
            if (g.chance(0.3))  cent(.5, .5, .5);
            break;
        case HEXA:
            if (g.chance(0.7))  gens.push_back(op(0,-1,0, 1,-1,0, 0,0,1, 0, 0, g.chance(0.25) ? 1.0/3 : 0));
            else  gens.push_back(op(1,-1,0, 1,0,0, 0,0,1, 0, 0, g.chance(0.3) ? 0.5 : 0));
            if (g.chance(0.5))  gens.push_back(inv);
            if (g.chance(0.4))  gens.push_back(op(0,1,0, 1,0,0, 0,0,-1));
            if (g.chance(0.3))  cent(2.0/3, 1.0/3, 1.0/3);
            break;
        case RHOMBO:
            gens.push_back(op(0,0,1, 1,0,0, 0,1,0));
            if (g.chance(0.5))  gens.push_back(inv);
            if (g.chance(0.4))  gens.push_back(op(0,1,0, 1,0,0, 0,0,1, half(), half(), half()));
            break;
        case CUBIC:
            gens.push_back(op(0,0,1, 1,0,0, 0,1,0));
            gens.push_back(op(-1,0,0, 0,-1,0, 0,0,1));
            if (g.chance(0.12))
            {
                // diamond group
                gens.push_back(op(0,1,0, 1,0,0, 0,0,1));
                cent(0, .5, .5); cent(.5, 0, .5);
                gens.push_back(op(-1,0,0, 0,-1,0, 0,0,-1, .25, .25, .25));
                break;
            }
            if (g.chance(0.4))  gens.push_back(inv);
            if (g.chance(0.3))  gens.push_back(op(0,1,0, 1,0,0, 0,0,1));
            if (g.chance(0.3))  cent(.5, .5, .5);
            else if (g.chance(0.3))  { cent(0, .5, .5); cent(.5, 0, .5); }
            break;
    }
    vector<Op> ops = closeGroup(gens);
    if (ops.empty())  ops = closeGroup(vector<Op>());
    return ops;
}

// Cartesian rotation of a fractional operation
inline M3 cartRot(const Lat& L, const M3& R)
{
    M3 B = L.base();
    M3 Bt = trans(B);
    return mul(mul(Bt, R), inv(Bt));
}

inline double latDist(const Lat& L, const V3& f, const V3& h)
{
    V3 d = f - h;
    for (int i = 0; i < 3; ++i)  d[i] -= std::round(d[i]);
    return norm(L.cart(d));
}

// explicit list of symmetry images of an atom, positions wrapped to the cell
struct Image  { V3 f; V3 xyz; M3 U; };
inline vector<Image> imagesOf(const Model& m, const SA& a)
{
    vector<Image> rv;
    if (m.kind != CRYSTAL || m.ops.empty())
    {
        Image im;
        im.xyz = a.xyz;
        im.U = a.U;
        im.f = (m.kind == ATOMIC) ? v3(0,0,0) : m.lat.frac(a.xyz);
        rv.push_back(im);
        return rv;
    }
    V3 f0 = m.lat.frac(a.xyz);
    vector<V3> sum;
    vector<int> n;
    for (auto& o : m.ops)
    {
        V3 f = mul(o.R, f0) + o.t;
        size_t k = 0;
        for (; k < rv.size(); ++k)  if (latDist(m.lat, f, rv[k].f) <= m.symeps)  break;
        if (k == rv.size())
        {
            Image im;
            im.f = f;
            M3 C = cartRot(m.lat, o.R);
            im.U = mul(mul(C, a.U), trans(C));
            rv.push_back(im);
            sum.push_back(v3(0,0,0));
            n.push_back(0);
        }
        V3 d = f - rv[k].f;
        for (int i = 0; i < 3; ++i)  d[i] -= std::round(d[i]);
        sum[k] = sum[k] + d;
        n[k] += 1;
    }
    for (size_t k = 0; k < rv.size(); ++k)
    {
        rv[k].f = rv[k].f + (1.0 / n[k]) * sum[k];
        rv[k].xyz = m.lat.cart(rv[k].f);
    }
    return rv;
}

// crystal written out as a periodic structure with all atoms of the cell
inline Model expandP1(const Model& m, vector<int>* parent=0)
{
    Model r;
    r.kind = PERIODIC;
    r.lat = m.lat;
    for (size_t i = 0; i < m.atoms.size(); ++i)
        for (auto& im : imagesOf(m, m.atoms[i]))
        {
            SA a = m.atoms[i];
            a.xyz = im.xyz;
            a.U = im.U;
            r.atoms.push_back(a);
            if (parent)  parent->push_back(i);
        }
    return r;
}

// --- generators ------------------------------------------------------------------------
inline Lat genLat(Rng& g, double lo=3, double hi=7)
{
    int k = g.i(0, 9);
    if (k < 7)  return genLatSys(g, Sys(k), lo, hi);
    double a = g.u(lo, hi), b = g.u(lo, hi), c = g.u(lo, hi);
    if (k == 7)
    {
        // needle or plate
        int w = g.i(0, 2);
        double s = g.chance(0.5) ? 0.4 : 2.5;
        (w == 0 ? a : w == 1 ? b : c) *= s;
    }
    for (int n = 0; n < 1000; ++n)
    {
        Lat L(a, b, c, g.u(35, 145), g.u(35, 145), g.u(35, 145));
        if (L.vnormal() > 0.12)  return L;
    }
    return Lat(a, b, c);
}

inline M3 genU(Rng& g, double umin, double umax, bool iso)
{
    if (iso)
    {
        double u = g.u(umin, umax);
        return m3(u,0,0, 0,u,0, 0,0,u);
    }
    M3 Q = randomRotation(g);
    M3 D = m3(g.u(umin, umax),0,0, 0,g.u(umin, umax),0, 0,0,g.u(umin, umax));
    M3 U = mul(mul(Q, D), trans(Q));
    // exact symmetry
    for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j)  U[i][j] = U[j][i] = 0.5 * (U[i][j] + U[j][i]);
    return U;
}

struct GenOpt
{
    vector<string> types;
    int nmin, nmax;
    double umin, umax;      // displacement parameters
    bool aniso, partial, outside;
    double minsep;
    double latlo, lathi;
    double box;             // size of non-periodic cluster
    int maximages;          // limit on atoms in the expanded cell
    double uconst;          // if positive, use this isotropic U for all atoms
    GenOpt() : nmin(1), nmax(6), umin(0.002), umax(0.02), aniso(true), partial(true), outside(true),
        minsep(0.6), latlo(3), lathi(7), box(6), maximages(48), uconst(0)
    {
        types = {"C", "Na", "Cl", "O", "Si", "Fe", "Ba", "Pb"};
    }
};

inline double genCoord(Rng& g, bool special)
{
    if (special && g.chance(0.7))  return g.pick({0, 0, 0.5, 0.25, 0.75, 1.0/3, 2.0/3, 0.125});
    return g.u(0, 1);
}

inline V3 genFrac(Rng& g, bool special)
{
    V3 f = v3(genCoord(g, special), genCoord(g, special), genCoord(g, special));
    if (special && g.chance(0.3))
    {
        double x = f[0];
        switch (g.i(0, 4))
        {
            case 0:  f = v3(x, x, x); break;
            case 1:  f = v3(x, x, f[2]); break;
            case 2:  f = v3(x, 1 - x, f[2]); break;
            case 3:  f = v3(x, 2 * x, f[2]); break;
            default:  f = v3(x, 0, 0); break;
        }
    }
    return f;
}

inline void symmetrizeU(const Model& m, SA& a)
{
    if (m.kind != CRYSTAL || m.ops.empty())  return;
    V3 f0 = m.lat.frac(a.xyz);
    M3 s = m3zero();
    int n = 0;
    for (size_t k = 0; k < m.ops.size(); ++k)
    {
        const Op& o = m.ops[k];
        bool repeated = false;
        for (size_t l = 0; l < k && !repeated; ++l)  repeated = sameOp(o, m.ops[l]);
        if (repeated)  continue;
        V3 f = mul(o.R, f0) + o.t;
        if (latDist(m.lat, f, f0) > m.symeps)  continue;
        M3 C = cartRot(m.lat, o.R);
        M3 U = mul(mul(C, a.U), trans(C));
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  s[i][j] += U[i][j];
        ++n;
    }
    if (!n)  return;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  a.U[i][j] = 0.5 * (s[i][j] + s[j][i]) / n;
}

inline SA genAtom(Rng& g, const Model& m, const GenOpt& o, bool special=false)
{
    SA a;
    a.type = g.pick(o.types);
    if (m.kind == ATOMIC)
    {
        a.xyz = v3(g.u(0, o.box), g.u(0, o.box), g.u(0, o.box));
        if (o.outside && g.chance(0.1))  a.xyz = a.xyz + v3(-20, 30, 11);
    }
    else
    {
        V3 f = genFrac(g, special);
        if (o.outside && g.chance(0.3))
            f = f + v3(g.i(-2, 2), g.i(-2, 2), g.i(-2, 2));
        a.xyz = m.lat.cart(f);
    }
    a.occ = (o.partial && g.chance(0.35)) ? g.pick({0.25, 0.5, 0.75, 0.9, 0.1, 0.333, 0.25, 0.5, 0.9, 1.5, 2, 0}) : 1.0;
    a.aniso = o.aniso && g.chance(0.4);
    if (o.uconst > 0)  { a.aniso = false; a.U = m3(o.uconst,0,0, 0,o.uconst,0, 0,0,o.uconst); }
    else  a.U = genU(g, o.umin, o.umax, !a.aniso);
    symmetrizeU(m, a);
    return a;
}

inline double minDistanceTo(const Model& m, const SA& a)
{
    double d = 1e9;
    if (m.kind == ATOMIC)
    {
        for (auto& b : m.atoms)  d = std::min(d, norm(a.xyz - b.xyz));
        return d;
    }
    vector<Image> ia = imagesOf(m, a);
    for (size_t k = 1; k < ia.size(); ++k)  d = std::min(d, latDist(m.lat, ia[0].f, ia[k].f));
    for (auto& b : m.atoms)
        for (auto& im : imagesOf(m, b))  d = std::min(d, latDist(m.lat, ia[0].f, im.f));
    return d;
}

inline bool hasRepeatedOps(const Model& m)
{
    for (size_t k = 0; k < m.ops.size(); ++k) for (size_t l = 0; l < k; ++l)
        if (sameOp(m.ops[k], m.ops[l]))  return true;
    return false;
}

// add random atoms, respecting the separation where possible
inline void fillAtoms(Rng& g, Model& m, const GenOpt& o, int n)
{
    int total = 0;
    for (auto& a : m.atoms)  total += imagesOf(m, a).size();
    for (int k = 0; k < n; ++k)
    {
        for (int tries = 0; tries < 60; ++tries)
        {
            bool special = m.kind != ATOMIC && g.chance(m.kind == CRYSTAL ? 0.6 : 0.3);
            SA a = genAtom(g, m, o, special);
            if (special && m.kind == CRYSTAL && !hasRepeatedOps(m) && g.chance(0.15))
            {
                // off a special position within the symmetry tolerance
                // (mean position is symmetric when no operation is repeated)
                double e = 0.02 * m.symeps;
                SA b = a;
                b.xyz = b.xyz + v3(g.u(-e, e), g.u(-e, e), g.u(-e, e));
                symmetrizeU(m, b);
                // keep off coordinates that get rounded up to a cell boundary
                bool rounded = false;
                for (auto& im : imagesOf(m, b)) for (double f : im.f)
                {
                    double x = f - std::floor(f);
                    rounded = rounded || (x > 1 - 3e-8 && x < 1 - 1e-13);
                }
                if (!rounded)  a = b;
            }
            if (minDistanceTo(m, a) < o.minsep)  continue;
            int ni = imagesOf(m, a).size();
            if (total + ni > o.maximages && !(m.atoms.empty() && tries > 40))  continue;
            total += ni;
            m.atoms.push_back(a);
            break;
        }
    }
}

inline Lat latOf(const M3& B)
{
    auto ang = [](const V3& x, const V3& y)
    {
        double c = dot(x, y) / norm(x) / norm(y);
        if (std::fabs(c) < 1e-13)  return 90.0;
        return std::acos(c) * 180 / M_PI;
    };
    return Lat(norm(B[0]), norm(B[1]), norm(B[2]), ang(B[1], B[2]), ang(B[0], B[2]), ang(B[0], B[1]));
}

inline M3 intUnimodular(Rng& g)
{
    M3 M = m3id();
    for (int k = g.i(1, 4); k > 0; --k)
    {
        M3 E = m3id();
        if (g.chance(0.3))  E = m3(0,1,0, 0,0,1, 1,0,0);
        else if (g.chance(0.2))  E = m3(0,-1,0, 1,0,0, 0,0,1);
        else
        {
            int i = g.i(0, 2), j = (i + g.i(1, 2)) % 3;
            E[i][j] = g.chance(0.5) ? 1 : -1;
        }
        M = mul(E, M);
    }
    return M;
}


// operations in the lattice basis M B
inline void changeBasis(vector<Op>& ops, const M3& M)
{
    // f' = N f with N the transposed inverse of M
    M3 N = trans(inv(M)), NI = trans(M);
    for (auto& o : ops)
    {
        o.R = mul(N, mul(o.R, NI));
        for (auto& r : o.R) for (double& x : r)  x = std::round(x);
        o.t = mul(N, o.t);
    }
}

inline Model genModel(Rng& g, Kind kind, const GenOpt& o)
{
    Model m;
    m.kind = kind;
    if (kind == PERIODIC)  m.lat = genLat(g, o.latlo, o.lathi);
    if (kind == CRYSTAL)
    {
        Sys s = Sys(g.i(0, 6));
        m.lat = genLatSys(g, s, o.latlo, o.lathi);
        m.ops = genGroup(g, s);
        if (g.chance(0.05))  m.ops.clear();
        if (g.chance(0.12) && m.ops.size() > 1)
        {
            // unconventional basis
            M3 M = intUnimodular(g);
            Lat L = latOf(mul(M, m.lat.base()));
            if (L.vnormal() > 0.3 && std::max(L.a, std::max(L.b, L.c)) < 2 * o.lathi)
            {
                m.lat = L;
                changeBasis(m.ops, M);
            }
        }
        if (g.chance(0.3) && m.ops.size() > 1)
        {
            // rotate the list so that identity is not the first
            g.shuffle(m.ops);
        }
        if (g.chance(0.15) && !m.ops.empty())
        {
            // operation repeated up to a lattice translation
            Op x = g.pick(m.ops);
            x.t = x.t + v3(g.i(-1, 1), g.i(-1, 1), g.i(-1, 1));
            if (m.ops.size() < 192)  m.ops.push_back(x);
        }
    }
    fillAtoms(g, m, o, g.i(o.nmin, o.nmax));
    return m;
}

inline Kind genKind(Rng& g)  { return Kind(g.i(0, 2)); }

// --- brute force pairs ------------------------------------------------------------------
struct Pair
{
    int i, j;           // anchor and neighbor site
    double d;
    V3 r01;             // from anchor to neighbor
    M3 Ui, Uj;
    int mi;             // multiplicity of the anchor site
};

// all neighbors of anchor site i within the closed range
inline vector<Pair> neighborsOf(const Model& m, int i, double rmin, double rmax,
        const vector<vector<Image> >* cache=0)
{
    vector<Pair> rv;
    vector<Image> ia = cache ? (*cache)[i] : imagesOf(m, m.atoms[i]);
    V3 r0 = ia[0].xyz;
    M3 B = m.lat.base();
    M3 IB = inv(B);
    V3 rec[3];
    for (int k = 0; k < 3; ++k)  rec[k] = v3(IB[0][k], IB[1][k], IB[2][k]);
    for (size_t j = 0; j < m.atoms.size(); ++j)
    {
        vector<Image> ij = cache ? (*cache)[j] : imagesOf(m, m.atoms[j]);
        for (size_t q = 0; q < ij.size(); ++q)
        {
            V3 r1 = ij[q].xyz;
            int lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0};
            if (m.kind != ATOMIC)
            {
                V3 f = rmul(r1 - r0, IB);
                for (int k = 0; k < 3; ++k)
                {
                    double ext = rmax * norm(rec[k]) + 1e-6;
                    lo[k] = int(std::floor(-ext - f[k]));
                    hi[k] = int(std::ceil(ext - f[k]));
                }
            }
            for (int a = lo[0]; a <= hi[0]; ++a)
            for (int b = lo[1]; b <= hi[1]; ++b)
            for (int c = lo[2]; c <= hi[2]; ++c)
            {
                V3 d = r1 - r0;
                if (m.kind != ATOMIC)  d = d + rmul(v3(a, b, c), B);
                double dist = norm(d);
                if (dist > rmax || dist < rmin || dist < 1e-6)  continue;
                Pair p;
                p.i = i;
                p.j = j;
                p.d = dist;
                p.r01 = d;
                p.Ui = ia[0].U;
                p.Uj = ij[q].U;
                p.mi = ia.size();
                rv.push_back(p);
            }
        }
    }
    return rv;
}

inline vector<vector<Image> > allImages(const Model& m)
{
    vector<vector<Image> > rv;
    for (auto& a : m.atoms)  rv.push_back(imagesOf(m, a));
    return rv;
}

// full sum list of pairs from every site
inline vector<Pair> allPairs(const Model& m, double rmin, double rmax)
{
    vector<vector<Image> > im = allImages(m);
    vector<Pair> rv;
    for (size_t i = 0; i < m.atoms.size(); ++i)
    {
        vector<Pair> p = neighborsOf(m, i, rmin, rmax, &im);
        rv.insert(rv.end(), p.begin(), p.end());
    }
    return rv;
}

// mean square displacement along the pair direction
inline double pairMsd(const Model& m, const Pair& p)
{
    auto one = [&](const SA& a, const M3& U)
    {
        if (!a.aniso)  return U[0][0];
        V3 s = (1.0 / p.d) * p.r01;
        return dot(s, mul(U, s));
    };
    return one(m.atoms[p.i], p.Ui) + one(m.atoms[p.j], p.Uj);
}

// smallest distance of any pair length from the given values, used to keep
// random bounds away from pair lengths where rounding decides membership
inline double clearance(const vector<double>& ds, double r)
{
    double c = 1e9;
    for (double d : ds)  c = std::min(c, std::fabs(d - r));
    return c;
}

inline double multiplicitySum(const Model& m)
{
    double s = 0;
    for (auto& a : m.atoms)  s += a.occ * imagesOf(m, a).size();
    return s;
}

}   // namespace dpv
#endif
