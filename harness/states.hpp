// Everything that structures and calculators report, as strings for exact comparison.
#ifndef DPV_STATES_HPP
#define DPV_STATES_HPP
#include "anycalc.hpp"
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>
#include <diffpy/srreal/NoSymmetryStructureAdapter.hpp>
#include <diffpy/srreal/StructureDifference.hpp>

namespace dpv {

typedef sr::StructureAdapterPtr SPtr;
typedef sr::AtomicStructureAdapterPtr APtr;

inline string atomStr(const sr::Atom& a)
{
    string s = fmt("%s(%.17g,%.17g,%.17g) o%.17g %d U", a.atomtype.c_str(), a.xyz_cartn[0], a.xyz_cartn[1], a.xyz_cartn[2], a.occupancy, int(a.anisotropy));
    for (int i = 0; i < 9; ++i)  s += fmt(" %g", a.uij_cartn(i / 3, i % 3));
    return s;
}

// everything a structure reports
inline string stateOf(const sr::StructureAdapter& s)
{
    string r = fmt("%d %.17g %.17g;", s.countSites(), s.totalOccupancy(), s.numberDensity());
    for (int i = 0; i < s.countSites(); ++i)
    {
        sr::Atom a;
        a.atomtype = s.siteAtomType(i);
        a.xyz_cartn = s.siteCartesianPosition(i);
        a.occupancy = s.siteOccupancy(i);
        a.anisotropy = s.siteAnisotropy(i);
        a.uij_cartn = s.siteCartesianUij(i);
        r += atomStr(a) + fmt(" m%d;", s.siteMultiplicity(i));
    }
    const sr::PeriodicStructureAdapter* p = dynamic_cast<const sr::PeriodicStructureAdapter*>(&s);
    if (p)
    {
        const sr::Lattice& L = p->getLattice();
        for (int i = 0; i < 9; ++i)  r += fmt(" %.17g", L.base()(i / 3, i % 3));
    }
    const sr::CrystalStructureAdapter* c = dynamic_cast<const sr::CrystalStructureAdapter*>(&s);
    if (c)
    {
        r += fmt(" eps %.17g ops ", c->getSymmetryPrecision());
        for (int k = 0; k < c->countSymOps(); ++k)
        {
            for (int i = 0; i < 9; ++i)  r += fmt(" %g", c->getSymOp(k).R(i / 3, i % 3));
            for (int i = 0; i < 3; ++i)  r += fmt(" %.17g", c->getSymOp(k).t[i]);
        }
        for (int i = 0; i < c->countSites(); ++i)
            for (auto& a : c->getEquivalentAtoms(i))  r += atomStr(a);
    }
    return r;
}
inline string bondsOf(SPtr s, double rmax)
{
    string r;
    sr::BaseBondGeneratorPtr b = s->createBondGenerator();
    b->setRmin(0);
    b->setRmax(rmax);
    for (int i = 0; i < s->countSites(); ++i)
    {
        b->selectAnchorSite(i);
        b->selectSiteRange(0, s->countSites());
        for (b->rewind(); !b->finished(); b->next())  r += fmt("%d-%d %.17g %.17g;", b->site0(), b->site1(), b->distance(), b->msd());
    }
    return r;
}


// structure at the bottom of a stack of wrappers
inline APtr sourceOf(SPtr t)
{
    for (;;)
    {
        auto nm = boost::dynamic_pointer_cast<sr::NoMetaStructureAdapter>(t);
        auto ns = boost::dynamic_pointer_cast<sr::NoSymmetryStructureAdapter>(t);
        if (nm)  t = nm->getSourceStructure();
        else if (ns)  t = ns->getSourceStructure();
        else  break;
    }
    return boost::dynamic_pointer_cast<sr::AtomicStructureAdapter>(t);
}
inline string wrappersOf(SPtr t)
{
    string r;
    for (;;)
    {
        auto nm = boost::dynamic_pointer_cast<sr::NoMetaStructureAdapter>(t);
        auto ns = boost::dynamic_pointer_cast<sr::NoSymmetryStructureAdapter>(t);
        if (nm)  { t = nm->getSourceStructure(); r += "nometa "; }
        else if (ns)  { t = ns->getSourceStructure(); r += "nosymmetry "; }
        else  break;
    }
    return r;
}
inline SPtr wrapIn(APtr s, int wrap)
{
    switch (wrap)
    {
        case 0:  return s;
        case 1:  return sr::nometa(s);
        case 2:  return sr::nosymmetry(s);
        case 3:  return sr::nosymmetry(sr::nometa(s));
        default:  return sr::nometa(sr::nosymmetry(s));
    }
}
inline string attrsOf(const diffpy::Attributes& a)
{
    string r;
    for (auto& n : a.namesOfDoubleAttributes())  r += n + fmt("=%.17g ", a.getDoubleAttr(n));
    for (auto& n : a.namesOfWritableDoubleAttributes())  r += n + " ";
    return r;
}

inline string tableStr(const sr::ScatteringFactorTablePtr& t)
{
    string r = t->type() + " " + t->radiationType() + " ";
    std::unordered_set<string> cs = t->getCustomSymbols();
    std::set<string> s(cs.begin(), cs.end());
    for (auto& x : s)  r += "custom " + x + " ";
    s.insert("C"); s.insert("Na1+"); s.insert("O");
    for (auto& x : s)  for (double q : {0.5, 3.0})
    {
        string v;
        try  { v = fmt("%.17g ", t->lookup(x, q)); }
        catch (std::exception& e)  { v = "error "; }
        r += v;
    }
    return r;
}
inline string tableStr(const sr::AtomRadiiTablePtr& t)
{
    string r = t->type() + " ";
    auto& m = t->getAllCustom();
    std::map<string, double> s(m.begin(), m.end());
    for (auto& x : s)  r += x.first + fmt("=%.17g ", x.second);
    for (const char* x : {"C", "Na", "O", "Zz"})  r += fmt("%.17g ", t->lookup(x));
    if (auto c = boost::dynamic_pointer_cast<sr::ConstantRadiiTable>(t))  r += fmt("default %.17g ", c->getDefault());
    return r + t->toString();
}
inline string bvStr(const sr::BVParam& p)
{
    return p.matom0 + fmt("%+d ", p.mvalence0) + p.matom1 + fmt("%+d ", p.mvalence1) + fmt("%.17g %.17g ", p.mRo, p.mB) + p.mref_id + ";";
}
inline string tableStr(const sr::BVParametersTablePtr& t)
{
    std::set<string> s;
    for (auto& p : t->getAllCustom())  s.insert(bvStr(p));
    string r;
    for (auto& x : s)  r += x;
    for (const char* x : {"C", "Na", "O2-", "Fe", "Fe3+", "Cl", "Pb"})  r += fmt("%d ", t->getAtomValence(x));
    r += bvStr(t->lookup("Na1+", "Cl1-")) + bvStr(t->lookup("Fe3+", "O2-")) + bvStr(t->lookup("Si", "O"));
    return r;
}

// configuration of a calculator except its results
inline string configOf(const sr::PairQuantity& pq, bool withstructure=true)
{
    string r = fmt("evaluator %d ", int(pq.getEvaluatorType())) + attrsOf(pq);
    SPtr s = pq.getStructure();
    int n = s->countSites();
    r += "mask ";
    for (int i = 0; i < n + 2; ++i)  for (int j = 0; j < n + 2; ++j)  r += pq.getPairMask(i, j) ? '1' : '0';
    std::set<string> ts = {"C", "O", "all"};
    for (int i = 0; i < n; ++i)  ts.insert(s->siteAtomType(i));
    r += " types ";
    for (auto& a : ts)  for (auto& b : ts)  r += pq.getTypeMask(a, b) ? '1' : '0';
    r += " ";
    auto envs = [&](const sr::PDFEnvelopeOwner& o)
    {
        for (auto& t : o.usedEnvelopeTypes())  r += t + " " + attrsOf(*o.getEnvelopeByType(t));
    };
    if (auto c = dynamic_cast<const sr::PDFCalculator*>(&pq))
    {
        r += c->getPeakWidthModel()->type() + " " + attrsOf(*c->getPeakWidthModel());
        r += c->getPeakProfile()->type() + " " + attrsOf(*c->getPeakProfile());
        r += c->getBaseline()->type() + " " + attrsOf(*c->getBaseline());
        envs(*c);
        r += tableStr(c->getScatteringFactorTable());
    }
    if (auto c = dynamic_cast<const sr::BaseDebyeSum*>(&pq))
        r += c->getPeakWidthModel()->type() + " " + attrsOf(*c->getPeakWidthModel());
    if (auto c = dynamic_cast<const sr::DebyePDFCalculator*>(&pq))
    {
        envs(*c);
        r += tableStr(c->getScatteringFactorTable());
        r += fmt("optimum %d ", int(c->isOptimumQstep()));
    }
    if (auto c = dynamic_cast<const sr::BVSCalculator*>(&pq))  r += tableStr(const_cast<sr::BVSCalculator*>(c)->getBVParamTable());
    if (auto c = dynamic_cast<const sr::OverlapCalculator*>(&pq))  r += tableStr(const_cast<sr::OverlapCalculator*>(c)->getAtomRadiiTable());
    if (withstructure)  r += "structure " + wrappersOf(s) + stateOf(*s);
    return r;
}

// first difference of two space separated strings, numbers are equal within the relative tolerance
inline string diffNum(const string& a, const string& b, double rtol)
{
    size_t i = 0, j = 0;
    auto bound = [](char c)  { return c == ' ' || c == '=' || c == ';' || c == ',' || c == '(' || c == ')'; };
    while (i < a.size() || j < b.size())
    {
        size_t i1 = i, j1 = j;
        while (i1 < a.size() && !bound(a[i1]))  ++i1;
        while (j1 < b.size() && !bound(b[j1]))  ++j1;
        string x = a.substr(i, i1 - i), y = b.substr(j, j1 - j);
        bool same = x == y && (i1 < a.size()) == (j1 < b.size()) && (i1 == a.size() || a[i1] == b[j1]);
        if (!same && i1 < a.size() && j1 < b.size() && a[i1] == b[j1])
        {
            char *e, *f;
            double u = strtod(x.c_str(), &e), v = strtod(y.c_str(), &f);
            same = *e == 0 && *f == 0 && !x.empty() && !y.empty() && std::fabs(u - v) <= rtol * std::max(std::fabs(u), std::fabs(v)) + 1e-3 * rtol;
        }
        if (!same)
        {
            size_t f = i > 60 ? i - 60 : 0, h = j > 60 ? j - 60 : 0;
            return "<<" + a.substr(f, 130) + ">> and <<" + b.substr(h, 130) + ">>";
        }
        i = i1 + 1;
        j = j1 + 1;
    }
    return "";
}

// position of the first difference
inline string diffStr(const string& a, const string& b)
{
    size_t k = 0;
    while (k < a.size() && k < b.size() && a[k] == b[k])  ++k;
    if (k == a.size() && k == b.size())  return "";
    size_t f = k > 60 ? k - 60 : 0;
    return "<<" + a.substr(f, 130) + ">> and <<" + b.substr(f, 130) + ">>";
}

}   // namespace dpv
#endif
