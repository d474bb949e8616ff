// C01: histories of edits and evaluations compared with evaluation from scratch
#include "anycalc.hpp"
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>
#include <diffpy/srreal/NoSymmetryStructureAdapter.hpp>
using namespace dpv;

// unit amplitude Debye sum as a calculator of its own
static Results baseResults(const sr::BaseDebyeSum& c)
{
    Results R;
    R.global["F"] = c.getF();
    R.exact["qgrid"] = c.getQgrid();
    return R;
}

static const char* usedName(sr::PQEvaluatorType t)
{
    return t == sr::BASIC ? "BASIC" : t == sr::OPTIMIZED ? "OPTIMIZED" : t == sr::CHECK ? "CHECK" : "NONE";
}

static void compareScratch(const string& key, const AnyCfg& cfg, sr::PairQuantity& pq, sr::StructureAdapterPtr st,
        const string& where, bool base)
{
    int n = st ? st->countSites() : 0;
    PairMask pm = readMask(pq, n);
    if (base)
    {
        sr::BaseDebyeSum f;
        f.setEvaluatorType(sr::BASIC);
        cfg.pdf.applyWidth(f);
        f.setRmin(cfg.pdf.rmin); f.setRmax(cfg.pdf.rmax);
        f.setQmin(cfg.pdf.qmin); f.setQmax(cfg.pdf.qmax); f.setQstep(cfg.pdf.qstep);
        f.setDebyePrecision(cfg.pdf.debyeprec);
        writeMask(f, pm);
        f.eval(st);
        Results want = baseResults(f), got = baseResults(dynamic_cast<sr::BaseDebyeSum&>(pq));
        compareResults(key, got, want, 1e-8 + 20 * cfg.pdf.debyeprec, 1e-9, where);
        return;
    }
    PQPtr f = freshCalc(cfg, &pm);
    if (cfg.kind == DEBYE)  matchDebyeRange(*f, pq, cfg.pdf, st);
    f->eval(st);
    Results want = resultsOf(cfg.kind, *f), got = resultsOf(cfg.kind, pq);
    ctx().distinct(hcomb(want.hash(), hcomb(pm.hash(), hstr(cfg.str()))));
    if (want.magnitude() > 0)  ctx().count("nonzero results");
    // a fast update may include tails of peaks past the present range
    double rtol = 1e-8 + (cfg.kind == PDF ? 20 * cfg.pdf.prec : cfg.kind == DEBYE ? 20 * cfg.pdf.debyeprec : 0);
    compareResults(key, got, want, rtol, 1e-9, where);
    // the number of merged bonds, counts etc. must be exactly equal
    if (cfg.kind == PAIRCOUNT)  checkTrue(key + " exact count", got.global["value"] == want.global["value"], where);
}

static void oneCase(long k, Rng& g)
{
    static const int kinds[] = {PDF, PDF, PDF, DEBYE, DEBYE, BONDS, BONDS, BONDS, PAIRCOUNT, BVS, OVERLAP};
    int kind = kinds[g.i(0, 10)];
    bool base = kind == DEBYE && g.chance(0.2);
    GenOpt o;
    o.types = typesFor(kind);
    o.nmin = canOptimize(kind) && g.chance(0.6) ? 4 : 0;
    o.nmax = ctx().thorough() ? 12 : 9;
    o.maximages = kind == DEBYE ? 16 : 26;
    o.latlo = 3.5;
    o.minsep = kind == OVERLAP || g.chance(0.3) ? 0.3 : 0.8;
    double rhi = kind == DEBYE ? 4.5 : 5.5;
    Model m = genModel(g, genKind(g), o);
    AnyCfg cfg = genAnyCfg(g, kind, 2, rhi);
    if (cfg.pdf.rmax > rhi)  cfg.pdf.rmax = rhi;
    if (cfg.pdf.prec > 1e-4)  cfg.pdf.prec = 1e-8;
    // some with coarse cutoff just for the self-check
    if (cfg.pdf.debyeprec > 1e-6 && !g.chance(0.1))  cfg.pdf.debyeprec = 1e-6;
    if (kind == PDF || kind == DEBYE)
    {
        cfg.pdf.maxext = std::min(cfg.pdf.maxext, 2.5);
        cfg.pdf.rstep = std::max(cfg.pdf.rstep, 0.03);
        if (kind == DEBYE)  { cfg.pdf.qmax = g.u(3, 10); }
    }
    auto limitCfg = [&](AnyCfg& c){
        if (c.pdf.rmax > rhi)  c.pdf.rmax = rhi;
        if (c.pdf.prec > 1e-4)  c.pdf.prec = 1e-8;
        if (c.pdf.debyeprec > 1e-6)  c.pdf.debyeprec = 1e-6;
        if (kind == DEBYE)  c.pdf.qmax = std::min(c.pdf.qmax, 10.0);
        c.pdf.maxext = std::min(c.pdf.maxext, 2.5);
        c.pdf.rstep = std::max(c.pdf.rstep, 0.03);
    };
    PQPtr pq = base ? PQPtr(boost::make_shared<sr::BaseDebyeSum>()) : makeCalc(kind);
    auto applyCfg = [&](){
        if (!base)  { cfg.apply(*pq); return; }
        sr::BaseDebyeSum& f = dynamic_cast<sr::BaseDebyeSum&>(*pq);
        cfg.pdf.applyWidth(f);
        f.setRmin(cfg.pdf.rmin); f.setRmax(cfg.pdf.rmax);
        f.setQmin(cfg.pdf.qmin); f.setQmax(cfg.pdf.qmax); f.setQstep(cfg.pdf.qstep);
        f.setDebyePrecision(cfg.pdf.debyeprec);
    };
    string log = string(base ? "BaseDebyeSum " : "") + cfg.str() + " | " + m.str() + " : ";
    bool checker = g.chance(0.25);
    if (canOptimize(kind))
    {
        pq->setEvaluatorType(checker ? sr::CHECK : sr::OPTIMIZED);
        if (checker)  log += "CHECK ";
    }
    applyCfg();
    sr::StructureAdapterPtr st;
    sr::AtomicStructureAdapterPtr live = toAdapter(m);
    int wrapper = 0;
    auto wrapped = [&](sr::AtomicStructureAdapterPtr s) -> sr::StructureAdapterPtr {
        return wrapper == 1 ? sr::nosymmetry(s) : wrapper == 2 ? sr::nometa(s) : sr::StructureAdapterPtr(s);
    };
    st = wrapped(live);
    bool hasmasks = g.chance(0.35), hooks = !base && g.chance(0.3);
    // configuration imposed by the structure
    std::function<void(AnyCfg&)> imposed;
    auto impose = [&](){
        imposed = nullptr;
        if (!hooks || !g.chance(0.4))  return;
        double rm = g.u(2.5, rhi);
        bool ranges = g.chance(0.6);
        if (ranges)  imposed = [=](AnyCfg& c) {
            c.rmax = rm;
            c.rmin = std::min(c.rmin, rm);
            c.pdf.rmax = rm;
            c.pdf.rmin = std::min(c.pdf.rmin, rm);
        };
        else
        {
            AnyCfg q = cfg;
            mutateCfg(g, q, 2, rhi);
            limitCfg(q);
            imposed = [=](AnyCfg& c) { c = q; };
        }
        auto f = imposed;
        bool whole = !ranges;
        const AnyCfg* now = &cfg;
        live = hooked(live, [=](sr::PairQuantity* p) { AnyCfg c = *now; f(c); if (whole || c.rmax != now->rmax || c.pdf.rmax != now->pdf.rmax || c.rmin != now->rmin || c.pdf.rmin != now->pdf.rmin)  c.apply(*p); });
        ctx().count("structures that configure calculators");
        log += "(configures) ";
    };
    // structures without metadata impose nothing
    auto confirm = [&](){ if (imposed && wrapper != 2)  imposed(cfg); };
    // the same structure without its own configuration
    auto plain = [&]() -> sr::StructureAdapterPtr { return imposed && wrapper != 2 ? wrapped(toAdapter(m)) : st; };
    bool typesok = g.chance(0.5);
    int steps = g.i(4, ctx().thorough() ? 16 : 10);
    pq->eval(st);
    compareScratch("C01:first", cfg, *pq, st, log, base);
    bool evaluatedonce = true;
    for (int s = 0; s < steps; ++s)
    {
        int nops = g.i(0, 2) ? 1 : g.i(2, 3);
        bool assigned = false;
        for (int q = 0; q < nops; ++q)
        {
            int what = g.i(0, 19);
            if (what < 7)
            {
                // new adapter with edited content
                string d = mutateModel(g, m, o, g.chance(0.15));
                live = toAdapter(m);
                impose();
                if (g.chance(0.08))  wrapper = g.i(0, 2);
                st = wrapped(live);
                log += "new{" + d + "} ";
            }
            else if (what < 12)
            {
                // edit of the structure that the calculator holds
                Model was = m;
                string d = mutateModel(g, m, o, false);
                editInPlace(g, *live, was, m);
                log += "inplace{" + d + "} ";
            }
            else if (what == 12)
            {
                Model was = m;
                m = genModel(g, genKind(g), o);
                live = toAdapter(m);
                impose();
                wrapper = g.chance(0.2) ? g.i(1, 2) : 0;
                st = wrapped(live);
                log += "replaced{" + m.str() + "} ";
            }
            else if (what == 13)
            {
                pq->setStructure(st);
                confirm();
                assigned = true;
                log += "setStructure ";
            }
            else if (what < 16)
            {
                mutateCfg(g, cfg, 2, rhi);
                limitCfg(cfg);
                applyCfg();
                log += "cfg{" + cfg.str() + "} ";
            }
            else if (what < 18 && hasmasks)
            {
                log += randomMaskOp(g, *pq, m, typesok);
            }
            else if (what == 18 && canOptimize(kind) && g.chance(0.3))
            {
                sr::PQEvaluatorType t = g.chance(0.5) ? sr::OPTIMIZED : g.chance(0.5) ? sr::BASIC : sr::CHECK;
                pq->setEvaluatorType(t);
                log += string("evaluator ") + usedName(t) + " ";
            }
            else if (what == 19 && g.chance(0.3))
            {
                // an evaluation of a clone with equal content
                live = toAdapter(m);
                imposed = nullptr;
                st = wrapped(live);
                log += "clone ";
            }
        }
        if (g.chance(0.12))  continue;
        if (assigned && pq->getStructure() == st && g.chance(0.5))  { pq->eval(); log += "eval() "; }
        else if (pq->getStructure() == st && g.chance(0.2))  { pq->eval(); log += "eval() "; }
        else  { pq->eval(st); log += "eval(s) "; }
        confirm();
        sr::PQEvaluatorType used = pq->getEvaluatorTypeUsed();
        ctx().count(string("evaluated as ") + usedName(used));
        if (used == sr::OPTIMIZED || used == sr::CHECK)  ctx().count(string("incremental ") + (base ? "BaseDebyeSum" : calcName(kind)));
        evaluated("incremental result against scratch");
        compareScratch(string("C01:") + (base ? "BaseDebyeSum" : calcName(kind)), cfg, *pq, plain(), log, base);
        ctx().count("history steps evaluated");
        // repeated evaluation changes nothing
        if (g.chance(0.15))
        {
            pq->eval(st);
            compareScratch(string("C01:repeated ") + calcName(kind), cfg, *pq, plain(), log, base);
        }
    }
    (void) evaluatedonce;
    ctx().sample(log);
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, oneCase);
}
