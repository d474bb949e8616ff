// C07: sequences of mask operations compared with their meaning in call order
#include "anycalc.hpp"
using namespace dpv;

struct MaskOp
{
    enum Kind { ALL, INVERT, PAIR, SITE, TYPE, TYPEMODE, FREEZE } kind;
    bool b;
    int i, j;
    string si, sj;
    std::map<std::pair<int, int>, bool> frozen;
    MaskOp(Kind k=ALL, bool v=true) : kind(k), b(v), i(0), j(0)  { }
};

struct MaskModel
{
    vector<MaskOp> ops;
    bool typemode, dflt;
    MaskModel() : typemode(false), dflt(true)  { }

    static std::pair<int, int> key(int i, int j)  { return std::make_pair(std::min(i, j), std::max(i, j)); }
    static bool typeMatch(const MaskOp& o, const string& a, const string& b)
    {
        auto m = [](const string& pattern, const string& s){ return pattern == "all" || pattern == s; };
        return (m(o.si, a) && m(o.sj, b)) || (m(o.si, b) && m(o.sj, a));
    }
    // mask of a pair for sites of the given types
    bool pair(int i, int j, const string& a, const string& b) const
    {
        bool m = true, d = true;
        for (auto& o : ops)
        {
            switch (o.kind)
            {
                case MaskOp::ALL:  m = d = o.b; break;
                case MaskOp::INVERT:  m = !m; d = !d; break;
                case MaskOp::PAIR:  if (key(i, j) == key(o.i, o.j))  m = o.b; break;
                case MaskOp::SITE:  if (o.i == i || o.i == j)  m = o.b; break;
                case MaskOp::TYPE:  if (typeMatch(o, a, b))  m = o.b; break;
                case MaskOp::TYPEMODE:  m = d; break;
                case MaskOp::FREEZE:
                {
                    auto f = o.frozen.find(key(i, j));
                    m = f == o.frozen.end() ? d : f->second;
                    break;
                }
            }
        }
        return m;
    }
    bool typepair(const string& a, const string& b) const
    {
        bool m = true;
        for (auto& o : ops)
        {
            if (o.kind == MaskOp::ALL)  m = o.b;
            else if (o.kind == MaskOp::INVERT)  m = !m;
            else if (o.kind == MaskOp::TYPE && typeMatch(o, a, b))  m = o.b;
            else if (o.kind == MaskOp::TYPEMODE)
            {
                // type masks start from the default
                m = true;
                for (auto& p : ops)
                {
                    if (&p == &o)  break;
                    if (p.kind == MaskOp::ALL)  m = p.b;
                    if (p.kind == MaskOp::INVERT)  m = !m;
                }
            }
        }
        return m;
    }
    void all(bool b)
    {
        ops.clear();
        ops.push_back(MaskOp(MaskOp::ALL, b));
        typemode = false;
    }
    void freeze(const vector<string>& types)
    {
        if (!typemode)  return;
        MaskOp o(MaskOp::FREEZE);
        int n = types.size();
        for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j)
            o.frozen[key(i, j)] = pair(i, j, types[i], types[j]);
        ops.push_back(o);
        typemode = false;
    }
};

typedef sr::StructureAdapterPtr SPtr;
typedef sr::AtomicStructureAdapterPtr APtr;

static vector<string> typesOf(const Model& m)
{
    vector<string> v;
    for (auto& a : m.atoms)  v.push_back(a.type);
    return v;
}

static void checkMask(const sr::PairQuantity& pq, const MaskModel& mm, const vector<string>& types, bool pending,
        const string& where)
{
    int n = types.size();
    evaluated("reported masks");
    if (!pending)
    {
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
        {
            bool want = mm.pair(i, j, types[i], types[j]);
            ctx().count("pair masks checked");
            if (!want)  ctx().count("pairs reported as masked");
            if (pq.getPairMask(i, j) != want)
            {
                ctx().fail("C07:pair mask", fmt("pair %d %d is %d expected %d ", i, j, !want, want) + where);
                return;
            }
        }
    }
    if (mm.typemode)
    {
        std::set<string> ts(types.begin(), types.end());
        ts.insert("Xx");
        for (auto& a : ts) for (auto& b : ts)
        {
            bool want = mm.typepair(a, b);
            ctx().count("type masks checked");
            if (pq.getTypeMask(a, b) != want)
            {
                ctx().fail("C07:type mask", fmt("types %s %s is %d expected %d ", a.c_str(), b.c_str(), !want, want) + where);
                return;
            }
        }
    }
}

// direct count of unmasked pairs
static void checkBrute(int kind, const sr::PairQuantity& pq, const AnyCfg& cfg, const Model& m, const PairMask& pm,
        const string& where)
{
    if (kind != BONDS && kind != PAIRCOUNT)  return;
    if (!cfg.cones.empty())  return;
    vector<vector<Image> > im = allImages(m);
    int n = m.atoms.size();
    double cnt = 0;
    int nb = 0;
    std::map<std::pair<int, int>, int> percount;
    for (int i = 0; i < n; ++i)
        for (auto& p : neighborsOf(m, i, std::max(0.0, cfg.rmin - 1e-5), cfg.rmax + 1e-5, &im))
        {
            if (fabs(p.d - cfg.rmin) < 2e-6 || fabs(p.d - cfg.rmax) < 2e-6)  { ctx().count("ambiguous ranges"); return; }
            if (p.d < cfg.rmin || p.d > cfg.rmax || !pm(p.i, p.j))  continue;
            percount[std::make_pair(p.i, p.j)] += 1;
            cnt += 0.5 * p.mi;
            ++nb;
        }
    evaluated("unmasked pairs against brute force");
    ctx().count("unmasked pairs", nb);
    if (kind == BONDS)
    {
        std::map<std::pair<int, int>, int> got;
        const sr::BondCalculator& c = dynamic_cast<const sr::BondCalculator&>(pq);
        sr::SiteIndices a = c.sites0(), b = c.sites1();
        for (size_t k = 0; k < a.size(); ++k)  got[std::make_pair(a[k], b[k])] += 1;
        checkTrue("C07:bonds of unmasked pairs", got == percount, fmt("%zu bonds expected %d ", a.size(), nb) + where);
    }
    else
        checkNear("C07:count of unmasked pairs", pq.value()[0], cnt, 1e-12, 1e-9, where);
}

static void oneCase(long, Rng& g)
{
    static const int kinds[] = {BONDS, BONDS, BONDS, PAIRCOUNT, PAIRCOUNT, BVS, OVERLAP, PDF, DEBYE};
    int kind = kinds[g.i(0, 8)];
    GenOpt o;
    o.types = typesFor(kind);
    while (o.types.size() > 4)  o.types.erase(o.types.begin() + g.i(0, o.types.size() - 1));
    o.nmin = 0;
    o.nmax = 7;
    o.maximages = kind == DEBYE || kind == PDF ? 12 : 20;
    o.latlo = 3.6;
    o.minsep = 0.5;
    Model m = genModel(g, genKind(g), o);
    AnyCfg cfg = genAnyCfg(g, kind, 2, 4.5);
    cfg.pdf.rmax = std::min(cfg.pdf.rmax, 4.0);
    cfg.pdf.rmin = std::min(cfg.pdf.rmin, cfg.pdf.rmax);
    cfg.pdf.rstep = std::max(cfg.pdf.rstep, 0.05);
    cfg.pdf.maxext = std::min(cfg.pdf.maxext, 1.0);
    if (kind == DEBYE)  cfg.pdf.qmax = std::min(cfg.pdf.qmax, 8.0);
    PQPtr pq = makeCalc(kind);
    cfg.apply(*pq);
    if (canOptimize(kind) && g.chance(0.4))  pq->setEvaluatorType(sr::BASIC);
    string log = cfg.str() + " | " + m.str() + " : ";
    MaskModel mm;
    vector<string> held;        // types of the structure held by the calculator
    bool pending = false;
    // masks set by the structure itself whenever it is assigned or evaluated
    std::function<void(MaskModel&, const vector<string>&)> meaning;
    auto given = [&]() -> SPtr {
        APtr a = toAdapter(m);
        meaning = nullptr;
        if (!g.chance(0.12))  return a;
        ctx().count("structures that set masks");
        bool b = g.chance(0.5);
        if (g.chance(0.5))
        {
            string x = g.chance(0.2) ? "all" : g.pick(o.types), y = g.pick(o.types);
            meaning = [=](MaskModel& q, const vector<string>&) {
                if (!q.typemode)  q.ops.push_back(MaskOp(MaskOp::TYPEMODE));
                q.typemode = true;
                MaskOp t(MaskOp::TYPE, b);
                t.si = x;
                t.sj = y;
                q.ops.push_back(t);
            };
            log += fmt("sets type(%s,%s)=%d ", x.c_str(), y.c_str(), b);
            return hooked(a, [=](sr::PairQuantity* p) { p->setTypeMask(x, y, b); });
        }
        int i = g.i(0, 6), j = g.chance(0.4) ? -1 : g.i(0, 6);
        meaning = [=](MaskModel& q, const vector<string>& types) {
            q.freeze(types);
            MaskOp t(j < 0 ? MaskOp::SITE : MaskOp::PAIR, b);
            t.i = i;
            t.j = j;
            q.ops.push_back(t);
        };
        log += fmt("sets pair(%d,%d)=%d ", i, j, b);
        return hooked(a, [=](sr::PairQuantity* p) { p->setPairMask(i, j, b); });
    };
    // masks may be set up before any structure is assigned
    bool assigned = g.chance(0.7);
    auto applied = [&]() { held = typesOf(m); if (meaning)  meaning(mm, held); };
    if (assigned)  { pq->setStructure(given()); applied(); }
    int style = g.i(0, 3);      // 0 index only, 1 type only, 2,3 mixed
    int nops = g.i(2, ctx().thorough() ? 24 : 14);
    for (int k = 0; k < nops; ++k)
    {
        int n = std::max<int>(1, m.atoms.size());
        bool b = g.chance(0.5);
        int what = g.i(0, 19);
        if (what == 0)
        {
            if (g.chance(0.7))  pq->maskAllPairs(b);
            else if (g.chance(0.5))  pq->setPairMask(-1, -1, b);
            else  pq->setTypeMask(g.chance(0.5) ? "ALL" : "all", "all", b);
            mm.all(b);
            pending = false;
            log += fmt("all=%d ", b);
        }
        else if (what <= 2)
        {
            pq->invertMask();
            mm.ops.push_back(MaskOp(MaskOp::INVERT));
            log += "invert ";
        }
        else if (what <= 11)
        {
            bool typeop = style == 1 || (style >= 2 && g.chance(0.3));
            if (typeop)
            {
                string a = g.chance(0.25) ? (g.chance(0.3) ? "ALL" : "all") : g.pick(o.types), c = g.pick(o.types);
                if (g.chance(0.5))  std::swap(a, c);
                pq->setTypeMask(a, c, b);
                if (!mm.typemode)  mm.ops.push_back(MaskOp(MaskOp::TYPEMODE));
                mm.typemode = true;
                MaskOp t(MaskOp::TYPE, b);
                t.si = a == "ALL" ? "all" : a;
                t.sj = c == "ALL" ? "all" : c;
                mm.ops.push_back(t);
                pending = true;
                log += fmt("type(%s,%s)=%d ", a.c_str(), c.c_str(), b);
            }
            else
            {
                int i = g.i(0, n - 1), j = g.i(0, n - 1);
                if (g.chance(0.08))  i = g.i(0, 9);
                bool wild = g.chance(0.35);
                mm.freeze(held);
                pending = false;
                if (wild)
                {
                    int w = g.chance(0.8) ? -1 : -g.i(2, 5);
                    if (g.chance(0.5))  pq->setPairMask(i, w, b);
                    else  pq->setPairMask(w, i, b);
                    MaskOp t(MaskOp::SITE, b);
                    t.i = i;
                    mm.ops.push_back(t);
                    log += fmt("pair(%d,*)=%d ", i, b);
                }
                else
                {
                    pq->setPairMask(i, j, b);
                    MaskOp t(MaskOp::PAIR, b);
                    t.i = i;
                    t.j = j;
                    mm.ops.push_back(t);
                    log += fmt("pair(%d,%d)=%d ", i, j, b);
                }
            }
        }
        else if (what <= 14)
        {
            log += "struct{";
            if (g.chance(0.3))  m = genModel(g, genKind(g), o);
            else  for (int q = g.i(1, 2); q > 0; --q)  log += mutateModel(g, m, o, true);
            log += fmt("n=%zu} ", m.atoms.size());
            pq->setStructure(given());
            applied();
            assigned = true;
            pending = false;
        }
        else
        {
            if (assigned && g.chance(0.3))  pq->eval();
            else
            {
                pq->eval(given());
                assigned = true;
            }
            applied();
            pending = false;
            log += "eval ";
            checkMask(*pq, mm, held, false, log);
            int nn = held.size();
            PairMask pm(nn);
            bool some = false;
            for (int i = 0; i < nn; ++i) for (int j = 0; j < nn; ++j)
            {
                pm.on[i * nn + j] = mm.pair(i, j, held[i], held[j]);
                some = some || !pm(i, j);
            }
            PQPtr f = freshCalc(cfg, &pm);
            sr::StructureAdapterPtr st = toAdapter(m);
            if (kind == DEBYE)  matchDebyeRange(*f, *pq, cfg.pdf, st);
            f->eval(st);
            evaluated("calculator with mask against explicit pair mask");
            Results want = resultsOf(kind, *f);
            if (some && want.magnitude() > 0)  ctx().count(string("nonzero masked ") + calcName(kind));
            ctx().distinct(hcomb(pm.hash(), want.hash()));
            double rtol = 1e-8 + (kind == PDF ? 20 * cfg.pdf.prec : 0);
            compareResults(string("C07:") + calcName(kind), resultsOf(kind, *pq), want, rtol, 1e-9, log);
            checkBrute(kind, *pq, cfg, m, pm, log);
            continue;
        }
        checkMask(*pq, mm, held, pending, log);
    }
    ctx().sample(log);
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, oneCase);
}
