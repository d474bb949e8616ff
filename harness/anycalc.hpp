// Uniform access to all pair-sum calculators: random configurations, complete
// collections of results and their tolerant comparison, random mask operations.
#ifndef DPV_ANYCALC_HPP
#define DPV_ANYCALC_HPP
#include "calcs.hpp"
#include <diffpy/srreal/PairCounter.hpp>
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>

namespace dpv {

enum CalcKind { PAIRCOUNT, BONDS, BVS, OVERLAP, PDF, DEBYE, NCALC };
inline const char* calcName(int k)
{
    static const char* nm[] = {"PairCounter", "BondCalculator", "BVSCalculator", "OverlapCalculator",
        "PDFCalculator", "DebyePDFCalculator"};
    return nm[k];
}
inline bool canOptimize(int k)  { return k == BONDS || k == PDF || k == DEBYE; }

typedef boost::shared_ptr<sr::PairQuantity> PQPtr;

inline PQPtr makeCalc(int kind)
{
    switch (kind)
    {
        case PAIRCOUNT:  return boost::make_shared<sr::PairCounter>();
        case BONDS:  return boost::make_shared<sr::BondCalculator>();
        case BVS:  return boost::make_shared<sr::BVSCalculator>();
        case OVERLAP:  return boost::make_shared<sr::OverlapCalculator>();
        case PDF:  return boost::make_shared<sr::PDFCalculator>();
        default:  return boost::make_shared<sr::DebyePDFCalculator>();
    }
}

struct BvEntry { string a0, a1; int v0, v1; double ro, b; };

struct AnyCfg
{
    int kind;
    double rmin, rmax;
    PdfCfg pdf;
    vector<std::pair<V3, double> > cones;
    double vprec;
    vector<BvEntry> bv;
    double rdefault;
    std::map<string, double> radii;
    AnyCfg() : kind(0), rmin(0), rmax(5), vprec(1e-5), rdefault(1)  { }

    string str() const
    {
        string s = calcName(kind);
        if (kind == PDF || kind == DEBYE)  return s + " " + pdf.str();
        s += fmt(" r=[%.10g,%.10g]", rmin, rmax);
        for (auto& c : cones)  s += fmt(" cone(%.4g,%.4g,%.4g)%.5g", c.first[0], c.first[1], c.first[2], c.second);
        if (kind == BVS)
        {
            s += fmt(" vprec=%.6g", vprec);
            for (auto& b : bv)  s += fmt(" %s%+d%s%+d(%.4g,%.4g)", b.a0.c_str(), b.v0, b.a1.c_str(), b.v1, b.ro, b.b);
        }
        if (kind == OVERLAP)
        {
            s += fmt(" rad=%.5g", rdefault);
            for (auto& r : radii)  s += fmt(" %s=%.5g", r.first.c_str(), r.second);
        }
        return s;
    }
    double minr() const  { return kind == PDF || kind == DEBYE ? pdf.rmin : rmin; }
    double maxr() const  { return kind == PDF || kind == DEBYE ? pdf.rmax : rmax; }

    void apply(sr::PairQuantity& pq) const
    {
        switch (kind)
        {
            case PDF:  pdf.apply(dynamic_cast<sr::PDFCalculator&>(pq)); return;
            case DEBYE:  pdf.apply(dynamic_cast<sr::DebyePDFCalculator&>(pq)); return;
            case BONDS:
            {
                sr::BondCalculator& c = dynamic_cast<sr::BondCalculator&>(pq);
                c.filterOff();
                for (auto& f : cones)  c.filterCone(toR3(f.first), f.second);
                break;
            }
            case BVS:
            {
                sr::BVSCalculator& c = dynamic_cast<sr::BVSCalculator&>(pq);
                c.getBVParamTable()->resetAll();
                for (auto& b : bv)  c.getBVParamTable()->setCustom(b.a0, b.v0, b.a1, b.v1, b.ro, b.b);
                c.setValencePrecision(vprec);
                break;
            }
            case OVERLAP:
            {
                sr::OverlapCalculator& c = dynamic_cast<sr::OverlapCalculator&>(pq);
                sr::AtomRadiiTablePtr t = c.getAtomRadiiTable();
                std::unordered_map<string, double> had = t->getAllCustom();
                for (auto& x : had)  if (!radii.count(x.first))  t->resetCustom(x.first);
                boost::dynamic_pointer_cast<sr::ConstantRadiiTable>(t)->setDefault(rdefault);
                for (auto& x : radii)  t->setCustom(x.first, x.second);
                break;
            }
            default:  break;
        }
        pq.setRmin(rmin);
        pq.setRmax(rmax);
    }
};

// types usable with all calculators (ions for the bond valence sums)
inline vector<string> typesFor(int kind)
{
    if (kind == BVS)  return {"Na1+", "Cl1-", "O2-", "Fe3+", "Fe2+", "Si4+", "Pb2+", "O"};
    return {"C", "Na", "Cl", "O", "Si", "Fe"};
}

inline AnyCfg genAnyCfg(Rng& g, int kind, double rlo=2, double rhi=6)
{
    AnyCfg c;
    c.kind = kind;
    CfgOpt o;
    o.debye = kind == DEBYE;
    o.rmaxlo = rlo;
    o.rmaxhi = rhi;
    c.pdf = genCfg(g, o);
    c.rmax = g.u(rlo, rhi);
    c.rmin = g.chance(0.6) ? 0 : g.u(0, c.rmax);
    if (g.chance(0.25))
        for (int k = g.i(1, 2); k > 0; --k)
            c.cones.push_back(std::make_pair(v3(g.gauss(), g.gauss(), g.gauss()), g.u(20, 120)));
    c.vprec = std::pow(10, g.u(-7, -1.5));
    if (g.chance(0.4))
    {
        static const vector<std::pair<string, int> > cat = {{"Na", 1}, {"Fe", 3}, {"Fe", 2}, {"Si", 4}, {"Pb", 2}};
        static const vector<std::pair<string, int> > an = {{"Cl", -1}, {"O", -2}};
        for (int k = g.i(1, 3); k > 0; --k)
        {
            auto p = g.pick(cat), q = g.pick(an);
            BvEntry b = {p.first, q.first, p.second, q.second, g.u(1.4, 2.4), g.u(0.3, 0.5)};
            c.bv.push_back(b);
        }
    }
    c.rdefault = g.chance(0.2) ? 0 : g.u(0.3, 1.6);
    static const vector<string> ts = {"C", "Na", "Cl", "O", "Fe"};
    for (int k = g.i(0, 3); k > 0; --k)  c.radii[g.pick(ts)] = g.u(0, 1.8);
    if (kind == OVERLAP && g.chance(0.5))  { c.rmin = 0; c.rmax = 100; }
    return c;
}

// change one or two settings
inline void mutateCfg(Rng& g, AnyCfg& c, double rlo=2, double rhi=6)
{
    AnyCfg x = genAnyCfg(g, c.kind, rlo, rhi);
    // another value or a small adjustment of the present one
    auto chg = [&](double& old, double val)
    {
        if (old != 0 && g.chance(0.35))  old *= 1 + (g.chance(0.5) ? 1 : -1) * std::pow(10.0, g.u(-5, -1.5));
        else  old = val;
    };
    for (int k = g.i(1, 2); k > 0; --k)
    {
        if (c.kind == PDF || c.kind == DEBYE)
        {
            PdfCfg& p = c.pdf;
            switch (g.i(0, 23))
            {
                case 0:  chg(p.rmin, x.pdf.rmin); break;
                case 1: case 2:  chg(p.rmax, x.pdf.rmax); break;
                case 3:  chg(p.rstep, x.pdf.rstep); break;
                case 4:  chg(p.qmin, x.pdf.qmin); break;
                case 5:  chg(p.qmax, x.pdf.qmax); break;
                case 6:  chg(p.maxext, x.pdf.maxext); break;
                case 7:  p.pwm = x.pdf.pwm; break;
                case 8:  chg(p.delta1, x.pdf.delta1); break;
                case 9:  chg(p.delta2, x.pdf.delta2); break;
                case 10:  chg(p.qbroad, x.pdf.qbroad); break;
                case 11:  chg(p.width, x.pdf.width); break;
                case 12:  p.profile = x.pdf.profile; break;
                case 13:  chg(p.prec, x.pdf.prec); break;
                case 14:  p.baseline = x.pdf.baseline; break;
                case 15:  p.hasscale = x.pdf.hasscale; chg(p.scale, x.pdf.scale); break;
                case 16:  p.hasqdamp = x.pdf.hasqdamp; chg(p.qdamp, x.pdf.qdamp); break;
                case 17:  p.hassphere = x.pdf.hassphere; chg(p.spd, x.pdf.spd); break;
                case 18:  p.hasstep = x.pdf.hasstep; chg(p.stepcut, x.pdf.stepcut); break;
                case 19:  p.rad = x.pdf.rad; p.custom = x.pdf.custom; break;
                case 20:  p.custom = x.pdf.custom; if (p.rad == "electron")  p.custom.clear(); break;
                case 21:  chg(p.qstep, x.pdf.qstep); p.optimum = x.pdf.optimum; break;
                case 22:  chg(p.debyeprec, x.pdf.debyeprec); break;
                default:  chg(p.qbsep, x.pdf.qbsep); break;
            }
            if (p.rmin > p.rmax)  p.rmin = p.rmax * 0.3;
            continue;
        }
        switch (g.i(0, 5))
        {
            case 0:  chg(c.rmin, x.rmin); break;
            case 1:  chg(c.rmax, x.rmax); break;
            case 2:  c.cones = x.cones; c.radii = x.radii; c.bv = x.bv; break;
            case 3:  chg(c.vprec, x.vprec); chg(c.rdefault, x.rdefault); break;
            case 4:  c.rmax = c.rmax * g.u(0.8, 1.2); break;
            default:  c.radii = x.radii; c.bv = x.bv; break;
        }
    }
}

// --- results ------------------------------------------------------------------------
struct Tup { int i, j; VD v; };

struct Results
{
    std::map<string, VD> global;                // scalars and arrays
    std::map<string, VD> persite;               // one value per site
    std::map<string, vector<Tup> > lists;       // pairs of sites with values, in no particular order
    std::map<string, VD> exact;                 // grids and configuration dependent values
    double magnitude() const
    {
        double m = 0;
        for (auto& x : global)  for (double v : x.second)  if (std::isfinite(v))  m = std::max(m, std::fabs(v));
        for (auto& x : persite)  for (double v : x.second)  if (std::isfinite(v))  m = std::max(m, std::fabs(v));
        for (auto& x : lists)  m = std::max(m, double(x.second.size()));
        return m;
    }
    uint64_t hash() const
    {
        uint64_t h = 7;
        for (auto& x : global)  { h = hcomb(h, x.second.size()); for (size_t k = 0; k < x.second.size(); k += 1 + x.second.size() / 16) h = hcomb(h, hdbl(float(x.second[k]))); }
        for (auto& x : persite)  h = hcomb(h, hvec(x.second));
        for (auto& x : lists)  h = hcomb(h, x.second.size());
        return h;
    }
};

inline Results resultsOf(int kind, const sr::PairQuantity& pq)
{
    Results R;
    switch (kind)
    {
        case PAIRCOUNT:  R.global["value"] = pq.value(); break;
        case BONDS:
        {
            const sr::BondCalculator& c = dynamic_cast<const sr::BondCalculator&>(pq);
            VD d = c.distances();
            vector<sr::R3::Vector> u = c.directions();
            sr::SiteIndices a = c.sites0(), b = c.sites1();
            vector<string> t0 = c.types0(), t1 = c.types1();
            vector<Tup>& l = R.lists["bonds"];
            if (d.size() != u.size() || d.size() != a.size() || d.size() != b.size() || d.size() != t0.size() || d.size() != t1.size())
                throw std::logic_error("bond arrays of different lengths");
            for (size_t k = 0; k < d.size(); ++k)
            {
                Tup t = {a[k], b[k], {d[k], u[k][0], u[k][1], u[k][2], double(hstr(t0[k]) % 1000), double(hstr(t1[k]) % 1000)}};
                l.push_back(t);
                if (k && d[k] < d[k - 1])  throw std::logic_error("bonds are not sorted");
            }
            break;
        }
        case BVS:
        {
            const sr::BVSCalculator& c = dynamic_cast<const sr::BVSCalculator&>(pq);
            R.persite["value"] = c.value();
            R.persite["valences"] = c.valences();
            R.persite["bvdiff"] = c.bvdiff();
            R.global["bvmsdiff"] = VD(1, c.bvmsdiff());
            R.global["bvrmsdiff"] = VD(1, c.bvrmsdiff());
            R.exact["rmaxused"] = VD(1, c.getRmaxUsed());
            break;
        }
        case OVERLAP:
        {
            const sr::OverlapCalculator& c = dynamic_cast<const sr::OverlapCalculator&>(pq);
            R.persite["siteSquareOverlaps"] = c.siteSquareOverlaps();
            R.persite["coordinations"] = c.coordinations();
            R.global["totalSquareOverlap"] = VD(1, c.totalSquareOverlap());
            R.global["meanSquareOverlap"] = VD(1, c.meanSquareOverlap());
            R.exact["rmaxused"] = VD(1, c.getRmaxUsed());
            VD o = c.overlaps(), d = c.distances();
            sr::SiteIndices a = c.sites0(), b = c.sites1();
            vector<sr::R3::Vector> u = c.directions();
            vector<Tup>& l = R.lists["overlaps"];
            for (size_t k = 0; k < o.size(); ++k)
            {
                Tup t = {a[k], b[k], {o[k], d[k], u[k][0], u[k][1], u[k][2]}};
                l.push_back(t);
            }
            vector<sr::R3::Vector> gr = c.gradients();
            vector<Tup>& lg = R.lists["gradients"];
            int n = gr.size();
            for (int k = 0; k < n; ++k)
            {
                Tup t = {k, k, {gr[k][0], gr[k][1], gr[k][2]}};
                lg.push_back(t);
            }
            vector<Tup>& ln = R.lists["neighborsites"];
            for (int k = 0; k < n; ++k)
                for (int j : c.getNeighborSites(k))  { Tup t = {k, j, {}}; ln.push_back(t); }
            vector<Tup>& lt = R.lists["coordinationByTypes"];
            for (int k = 0; k < n; ++k)
                for (auto& x : c.coordinationByTypes(k))
                {
                    Tup t = {k, k, {double(hstr(x.first) % 1000), x.second}};
                    lt.push_back(t);
                }
            vector<Tup>& lh = R.lists["neighborhoods"];
            for (auto& h : c.neighborhoods())
            {
                for (int x : h) for (int y : h)  { Tup t = {x, y, {}}; lh.push_back(t); }
            }
            vector<Tup>& lf = R.lists["flips"];
            for (int k = 0; k < n; ++k)
            {
                int j = (k + 1) % n;
                Tup t = {k, j, {c.flipDiffTotal(k, j), c.flipDiffMean(k, j)}};
                lf.push_back(t);
            }
            break;
        }
        case PDF:
        {
            const sr::PDFCalculator& c = dynamic_cast<const sr::PDFCalculator&>(pq);
            R.global["RDF"] = c.getRDF();
            R.global["RDFperR"] = c.getRDFperR();
            R.global["PDF"] = c.getPDF();
            R.global["F"] = c.getF();
            R.global["extendedRDF"] = c.getExtendedRDF();
            R.global["extendedPDF"] = c.getExtendedPDF();
            R.exact["rgrid"] = c.getRgrid();
            R.exact["qgrid"] = c.getQgrid();
            R.exact["extendedRgrid"] = c.getExtendedRgrid();
            break;
        }
        default:
        {
            const sr::DebyePDFCalculator& c = dynamic_cast<const sr::DebyePDFCalculator&>(pq);
            R.global["F"] = c.getF();
            R.global["PDF"] = c.getPDF();
            R.exact["qgrid"] = c.getQgrid();
            R.exact["rgrid"] = c.getRgrid();
            break;
        }
    }
    return R;
}

inline bool compareLists(const string& key, const vector<Tup>& got, const vector<Tup>& want, double tol,
        const string& where)
{
    ctx().count("comparisons", 1 + want.size());
    if (got.size() != want.size())
    {
        ctx().fail(key, fmt("%zu entries expected %zu ", got.size(), want.size()) + where);
        return false;
    }
    std::multimap<std::pair<int, int>, const Tup*> left;
    for (auto& t : got)  left.insert(std::make_pair(std::make_pair(t.i, t.j), &t));
    for (auto& w : want)
    {
        auto rg = left.equal_range(std::make_pair(w.i, w.j));
        bool found = false;
        for (auto it = rg.first; it != rg.second; ++it)
        {
            const VD& v = it->second->v;
            bool ok = v.size() == w.v.size();
            for (size_t k = 0; ok && k < v.size(); ++k)  ok = close(v[k], w.v[k], tol, tol);
            if (!ok)  continue;
            left.erase(it);
            found = true;
            break;
        }
        if (!found)
        {
            string s = fmt("missing entry %d %d (", w.i, w.j);
            for (double x : w.v)  s += fmt("%.12g ", x);
            s += ") have (";
            for (auto it = rg.first; it != rg.second; ++it)  { for (double x : it->second->v)  s += fmt("%.12g ", x); s += ";"; }
            ctx().fail(key, s + ") " + where);
            return false;
        }
    }
    return true;
}

// perm[i] is the index in "got" of the site that is i in "want"
inline bool compareResults(const string& key, const Results& got, const Results& want, double rtol, double atol,
        const string& where, const vector<int>* perm=0)
{
    bool ok = true;
    ctx().count("result sets compared");
    for (auto& x : want.exact)
        ok = checkArray(key + " " + x.first, got.exact.at(x.first), x.second, 1e-12, 1e-9, where) && ok;
    if (!ok)  return false;
    for (auto& x : want.global)
        ok = checkArray(key + " " + x.first, got.global.at(x.first), x.second, rtol, atol, where) && ok;
    for (auto& x : want.persite)
    {
        VD v = got.persite.at(x.first);
        if (perm && v.size() == perm->size())
        {
            VD w(v.size());
            for (size_t k = 0; k < v.size(); ++k)  w[k] = v[(*perm)[k]];
            v = w;
        }
        ok = checkArray(key + " " + x.first, v, x.second, rtol, atol, where) && ok;
    }
    for (auto& x : want.lists)
    {
        vector<Tup> l = x.second;
        if (perm)  for (auto& t : l)  { t.i = (*perm)[t.i]; t.j = (*perm)[t.j]; }
        ok = compareLists(key + " " + x.first, got.lists.at(x.first), l, std::max(rtol, 1e-9) * 10, where) && ok;
    }
    return ok;
}

// --- masks --------------------------------------------------------------------------
inline PairMask readMask(const sr::PairQuantity& pq, int n)
{
    PairMask pm(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)  pm.on[i * n + j] = pq.getPairMask(i, j);
    return pm;
}
inline void writeMask(sr::PairQuantity& pq, const PairMask& pm)
{
    for (int i = 0; i < pm.n; ++i) for (int j = 0; j <= i; ++j)
        if (!pm(i, j))  pq.setPairMask(i, j, false);
}
// one random mask operation, returns its description
inline string randomMaskOp(Rng& g, sr::PairQuantity& pq, const Model& m, bool typesok=true)
{
    int n = std::max<int>(1, m.atoms.size());
    vector<string> ts;
    for (auto& a : m.atoms)  ts.push_back(a.type);
    if (ts.empty())  ts.push_back("C");
    bool v = g.chance(0.5);
    switch (g.i(0, typesok ? 11 : 6))
    {
        case 10: case 11:
        {
            // rule for one type with an exception, repeated often enough
            string a = g.chance(0.6) ? ts[0] : g.pick(ts);
            string b = g.chance(0.6) ? ts.back() : g.pick(ts);
            pq.setTypeMask(a, "all", v);
            string rv = fmt("setTypeMask(%s,all,%d) ", a.c_str(), v);
            if (g.chance(0.6))
            {
                pq.setTypeMask(a, b, !v);
                rv += fmt("setTypeMask(%s,%s,%d) ", a.c_str(), b.c_str(), !v);
            }
            return rv;
        }
        case 0:  pq.maskAllPairs(v); return fmt("maskAllPairs(%d) ", v);
        case 1:  pq.invertMask(); return "invertMask ";
        case 2:
        {
            int i = g.i(0, n - 1);
            if (g.chance(0.5))  pq.setPairMask(i, -1, v);
            else  pq.setPairMask(-1, i, v);
            return fmt("setPairMask(%d,all,%d) ", i, v);
        }
        case 3: case 4: case 5: case 6:
        {
            int i = g.i(0, n - 1), j = g.i(0, n - 1);
            pq.setPairMask(i, j, v);
            return fmt("setPairMask(%d,%d,%d) ", i, j, v);
        }
        case 7:
        {
            string a = g.pick(ts);
            pq.setTypeMask(a, "all", v);
            return fmt("setTypeMask(%s,all,%d) ", a.c_str(), v);
        }
        default:
        {
            string a = g.pick(ts), b = g.pick(ts);
            pq.setTypeMask(a, b, v);
            return fmt("setTypeMask(%s,%s,%d) ", a.c_str(), b.c_str(), v);
        }
    }
}

// The Debye calculator keeps its upper limit of pair distances while the needed
// one is at most 50 r-steps lower, and it stays with the optimum Q-step once a custom
// one was too large.  Bring a fresh calculator to the same limit.
inline void matchDebyeRange(sr::PairQuantity& fresh, const sr::PairQuantity& pq, const PdfCfg& c, sr::StructureAdapterPtr st)
{
    sr::DebyePDFCalculator& f = dynamic_cast<sr::DebyePDFCalculator&>(fresh);
    const sr::DebyePDFCalculator& o = dynamic_cast<const sr::DebyePDFCalculator&>(pq);
    const double dr = o.getRstep();
    auto steps = [&](const sr::DebyePDFCalculator& x)
        { return int(std::floor(x.getDoubleAttr("extendedrmax") / dr + 0.5)); };
    const int k = steps(o);
    f.setStructure(st);
    f.setRmax(c.rmax + 100 * dr);
    f.setRmax(c.rmax);
    const int n0 = steps(f);
    double add = k - n0;
    if (add > 0 && add < 50)  ctx().count("Debye range limits matched");
    for (int tries = 0; tries < 12 && add > 0 && add < 50; ++tries)
    {
        f.setRmax(c.rmax + 100 * dr);
        f.setRmax(c.rmax);
        f.setRmax(c.rmax + add * dr);
        int d = steps(f) - k;
        f.setRmax(c.rmax);
        if (d == 0)  break;
        add -= 0.5 * d;
    }
    if (o.isOptimumQstep())  f.setOptimumQstep();
    else  f.setQstep(c.qstep);
    checkTrue("Debye pair distance limit", steps(f) == k, fmt("has %d steps, %d needed, matched %d ", k, n0, steps(f)) + c.str());
}

// fresh calculator with the configuration and an explicit mask, evaluated from scratch
inline PQPtr freshCalc(const AnyCfg& c, const PairMask* pm=0)
{
    PQPtr p = makeCalc(c.kind);
    p->setEvaluatorType(sr::BASIC);
    c.apply(*p);
    if (pm)  writeMask(*p, *pm);
    return p;
}

// --- structure edits -------------------------------------------------------------------
// modify the model, returns a description; the kind stays unless anykind is set
inline string mutateModel(Rng& g, Model& m, const GenOpt& o, bool anykind=false, bool geometry=true)
{
    int n = m.atoms.size();
    int what = g.i(0, anykind ? 15 : 13);
    if (!geometry && what > 11)  what = g.i(0, 11);
    switch (what)
    {
        case 0: case 1:
        {
            if (!n)  break;
            SA& a = m.atoms[g.i(0, n - 1)];
            a.xyz = a.xyz + v3(0.2 * g.gauss(), 0.2 * g.gauss(), 0.2 * g.gauss());
            return "move ";
        }
        case 2:
        {
            if (!n)  break;
            m.atoms[g.i(0, n - 1)].occ = g.pick({0, 0.25, 0.5, 0.9, 1, 1.75});
            return "occupancy ";
        }
        case 3:
            if (!n)  break;
            m.atoms[g.i(0, n - 1)].type = g.pick(o.types);
            return "type ";
        case 4:
        {
            if (!n)  break;
            SA& a = m.atoms[g.i(0, n - 1)];
            if (g.chance(0.3))  a.aniso = !a.aniso;
            else  a.U = genU(g, o.umin, o.umax, !a.aniso);
            if (!a.aniso)  a.U = m3(a.U[0][0],0,0, 0,a.U[0][0],0, 0,0,a.U[0][0]);
            symmetrizeU(m, a);
            return "Uij ";
        }
        case 5: case 6:
        {
            int k = g.i(1, 2);
            vector<SA> keep = m.atoms;
            fillAtoms(g, m, o, k);
            if (g.chance(0.5) && (int) m.atoms.size() > n)
            {
                // place the new ones elsewhere in the list
                SA a = m.atoms.back();
                m.atoms.pop_back();
                m.atoms.insert(m.atoms.begin() + g.i(0, m.atoms.size()), a);
            }
            return "add ";
        }
        case 7: case 8:
            if (!n)  break;
            m.atoms.erase(m.atoms.begin() + g.i(0, n - 1));
            return "remove ";
        case 9:
            g.shuffle(m.atoms);
            return "shuffle ";
        case 10:
            if (n < 2)  break;
            std::swap(m.atoms[g.i(0, n - 1)], m.atoms[g.i(0, n - 1)]);
            return "swap ";
        case 11:
        {
            if (!n)  break;
            SA a = m.atoms[g.i(0, n - 1)];
            if (g.chance(0.5))  a.type = g.pick(o.types);
            m.atoms.insert(m.atoms.begin() + g.i(0, n), a);
            return "duplicate ";
        }
        case 12:
        {
            if (m.kind == ATOMIC)  break;
            Lat l = m.lat;
            double s = g.u(0.9, 1.15);
            l.a *= s; l.b *= s; l.c *= s;
            if (m.kind == PERIODIC && g.chance(0.5))  l.a *= 1.03;
            if (m.kind == PERIODIC && g.chance(0.25))
            {
                // cell of the same volume
                l = m.lat;
                std::swap(l.a, l.b);
                std::swap(l.al, l.be);
            }
            if (m.kind == CRYSTAL || g.chance(0.7))
                for (auto& a : m.atoms)  a.xyz = l.cart(m.lat.frac(a.xyz));
            m.lat = l;
            return "lattice ";
        }
        case 13:
        {
            if (m.kind != CRYSTAL || m.ops.empty())  break;
            vector<Op> gens;
            for (int k = g.i(0, 2); k > 0; --k)  gens.push_back(g.pick(m.ops));
            m.ops = gens.empty() ? gens : closeGroup(gens);
            for (auto& a : m.atoms)  symmetrizeU(m, a);
            return "symops ";
        }
        case 14:
        {
            m = genModel(g, genKind(g), o);
            return "new structure ";
        }
        default:
        {
            if (m.kind == ATOMIC)  { m.kind = PERIODIC; m.lat = genLat(g, o.latlo, o.lathi); }
            else if (m.kind == PERIODIC)  m.kind = g.chance(0.5) ? ATOMIC : CRYSTAL;
            else  { m.kind = g.chance(0.5) ? ATOMIC : PERIODIC; }
            m.ops.clear();
            return "kind ";
        }
    }
    return "";
}

// bring a live adapter of the same kind to the state of the model
inline void editInPlace(Rng& g, sr::AtomicStructureAdapter& s, const Model& was, const Model& m)
{
    int n = m.atoms.size();
    auto doAtoms = [&]()
    {
        vector<sr::Atom> v;
        for (auto& a : m.atoms)  v.push_back(toAtom(a));
        switch (g.i(0, 3))
        {
            case 0:  s.assign(v.begin(), v.end()); break;
            case 1:
                s.clear();
                for (auto& a : v)  s.append(a);
                break;
            default:
                while (s.countSites() > n)  s.erase(g.i(0, s.countSites() - 1));
                while (s.countSites() < n)
                {
                    if (g.chance(0.5))  s.append(v[s.countSites()]);
                    else  s.insert(g.i(0, s.countSites()), v[s.countSites()]);
                }
                for (int i = 0; i < n; ++i)  if (!(s.at(i) == v[i]))  s[i] = v[i];
        }
    };
    auto doCell = [&]()
    {
        if (m.kind == ATOMIC)  return;
        bool latdiff = was.lat.a != m.lat.a || was.lat.b != m.lat.b || was.lat.c != m.lat.c ||
            was.lat.al != m.lat.al || was.lat.be != m.lat.be || was.lat.ga != m.lat.ga;
        if (latdiff)  dynamic_cast<sr::PeriodicStructureAdapter&>(s).setLatPar(m.lat.a, m.lat.b, m.lat.c, m.lat.al, m.lat.be, m.lat.ga);
        if (m.kind != CRYSTAL)  return;
        sr::CrystalStructureAdapter& c = dynamic_cast<sr::CrystalStructureAdapter&>(s);
        if (was.symeps != m.symeps)  c.setSymmetryPrecision(m.symeps);
        bool opsdiff = was.ops.size() != m.ops.size();
        for (size_t k = 0; !opsdiff && k < m.ops.size(); ++k)
            opsdiff = was.ops[k].R != m.ops[k].R || was.ops[k].t != m.ops[k].t;
        if (opsdiff)
        {
            c.clearSymOps();
            for (auto& op : m.ops)  c.addSymOp(toR3(op.R), toR3(op.t));
        }
    };
    if (g.chance(0.5))  { doAtoms(); doCell(); }
    else  { doCell(); doAtoms(); }
}

// structure with its own configuration of calculators
typedef std::function<void(sr::PairQuantity*)> Hook;
template <class B> struct Hooked : public B
{
    Hook hook;
    Hooked(const B& b, const Hook& h) : B(b), hook(h)  { }
    sr::StructureAdapterPtr clone() const  { return boost::make_shared<Hooked>(*this); }
    void customPQConfig(sr::PairQuantity* pq) const  { hook(pq); }
};
inline sr::AtomicStructureAdapterPtr hooked(sr::AtomicStructureAdapterPtr a, const Hook& h)
{
    if (auto c = boost::dynamic_pointer_cast<sr::CrystalStructureAdapter>(a))  return boost::make_shared<Hooked<sr::CrystalStructureAdapter> >(*c, h);
    if (auto c = boost::dynamic_pointer_cast<sr::PeriodicStructureAdapter>(a))  return boost::make_shared<Hooked<sr::PeriodicStructureAdapter> >(*c, h);
    return boost::make_shared<Hooked<sr::AtomicStructureAdapter> >(*a, h);
}

}   // namespace dpv
#endif
