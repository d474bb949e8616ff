// C02: evaluation split over workers and merged, compared with serial evaluation
#include "anycalc.hpp"
#include <diffpy/serialization.ipp>
#include <sys/wait.h>
using namespace dpv;

// run a worker in a process of its own and receive its data through a pipe
static string inProcess(std::function<string()> work)
{
    int fd[2];
    if (pipe(fd))  throw std::runtime_error("no pipe");
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        string s;
        try  { s = "D" + work(); }
        catch (std::exception& e)  { s = string("E") + e.what(); }
        for (size_t k = 0; k < s.size(); )
        {
            ssize_t n = write(fd[1], s.data() + k, s.size() - k);
            if (n <= 0)  _exit(3);
            k += n;
        }
        _exit(0);
    }
    close(fd[1]);
    string s;
    char b[65536];
    ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0)  s.append(b, n);
    close(fd[0]);
    int st;
    waitpid(pid, &st, 0);
    if (s.empty() || s[0] != 'D')  throw std::runtime_error("worker failed " + s);
    return s.substr(1);
}

static void applyMasks(uint64_t seed, int nops, sr::PairQuantity& pq, const Model& m, string* log)
{
    Rng g(seed);
    for (int k = 0; k < nops; ++k)
    {
        string s = randomMaskOp(g, pq, m);
        if (log)  *log += s;
    }
}

// restored from saved state
static PQPtr copyOf(int kind, PQPtr pq)
{
    PQPtr rv;
    if (kind == PAIRCOUNT)
    {
        // has no data of its own
        rv = makeCalc(kind);
        const sr::PairQuantity& p = *pq;
        diffpy::serialization_fromstring(*rv, diffpy::serialization_tostring(p));
    }
    else  diffpy::serialization_fromstring(rv, diffpy::serialization_tostring(pq));
    return rv;
}

static string stateOf(int kind, const sr::PairQuantity& pq)
{
    VD v = pq.value();
    string s = fmt("%zu ", v.size());
    for (double x : v)  s += fmt("%.17g ", x);
    if (kind == BONDS)
    {
        Results r = resultsOf(kind, pq);
        for (auto& t : r.lists["bonds"])  s += fmt("%d-%d %.17g ", t.i, t.j, t.v[0]);
    }
    return s;
}

static void oneCase(long, Rng& g)
{
    int kind = g.i(0, NCALC - 1);
    GenOpt o;
    o.types = typesFor(kind);
    bool big = g.chance(0.15);
    o.nmin = big ? 12 : 0;
    o.nmax = big ? 40 : 7;
    o.maximages = kind == DEBYE ? 20 : 48;
    o.minsep = kind == OVERLAP ? 0.3 : 0.6;
    Kind mk = big ? (g.chance(0.7) ? ATOMIC : PERIODIC) : genKind(g);
    if (big && mk == PERIODIC)  o.nmax = 16;
    double rhi = kind == DEBYE ? 4.5 : 5.5;
    Model m = genModel(g, mk, o);
    AnyCfg cfg = genAnyCfg(g, kind, 2, rhi);
    auto trim = [&]()
    {
        if (kind != PDF && kind != DEBYE)  return;
        cfg.pdf.maxext = std::min(cfg.pdf.maxext, 2.5);
        cfg.pdf.rstep = std::max(cfg.pdf.rstep, 0.03);
        if (kind == DEBYE)  cfg.pdf.qmax = g.u(3, 10);
    };
    trim();
    int nops = g.chance(0.4) ? g.i(1, 4) : 0;
    uint64_t mseed = g.next();
    bool optimized = (kind == PDF || kind == DEBYE || kind == BONDS) && g.chance(0.5);
    sr::PQEvaluatorType evtp = optimized ? (g.chance(0.3) ? sr::CHECK : sr::OPTIMIZED) : sr::BASIC;
    string log = cfg.str() + " " + m.str();
    auto fresh = [&](string* l=0)
    {
        PQPtr p = makeCalc(kind);
        p->setEvaluatorType(evtp);
        cfg.apply(*p);
        applyMasks(mseed, nops, *p, m, l);
        return p;
    };
    string ml;
    PQPtr master = fresh(&ml);
    log += " masks{" + ml + "} ";
    int ncpu = g.chance(0.5) ? g.i(1, 6) : g.chance(0.5) ? g.i(1, int(m.atoms.size()) + 3) : g.i(7, 40);
    bool processes = g.chance(0.02);
    int style = optimized && g.chance(0.6) ? 3 : g.i(0, 3);
    static const char* styles[] = {"fresh workers", "restored workers", "one reused worker", "persistent workers"};
    vector<PQPtr> persistent(ncpu);
    PQPtr reused;
    int rounds = g.chance(optimized ? 0.7 : 0.3) ? g.i(2, 3) : 1;
    for (int round = 0; round < rounds; ++round)
    {
        if (round)
        {
            if (g.chance(0.6))  log += "edit{" + mutateModel(g, m, o, g.chance(0.2)) + "} ";
            if (g.chance(optimized ? 0.2 : 1.0))
            {
                mutateCfg(g, cfg, 2, rhi);
                trim();
                cfg.apply(*master);
                for (auto& p : persistent)  if (p)  cfg.apply(*p);
                if (reused)  cfg.apply(*reused);
                log += "cfg{" + cfg.str() + "} ";
            }
            if (g.chance(optimized ? 0.15 : 0.3))
            {
                // other number of workers
                ncpu = g.i(1, 8);
                persistent.assign(ncpu, PQPtr());
                log += fmt("ncpu=%d ", ncpu);
            }
        }
        log += fmt("%s n=%d ", styles[style], ncpu);
        sr::StructureAdapterPtr st = toAdapter(m);
        // serial reference
        PQPtr ref = makeCalc(kind);
        ref->setEvaluatorType(sr::BASIC);
        cfg.apply(*ref);
        PQPtr tmp = fresh();
        tmp->setStructure(st);
        PairMask pm = readMask(*tmp, m.atoms.size());
        if (round == 0)  writeMask(*ref, pm);
        else
        {
            // masks of the monitored calculator followed the edits (see C07)
            master->setStructure(st);
            pm = readMask(*master, m.atoms.size());
            writeMask(*ref, pm);
        }
        master->setStructure(st);
        if (kind == DEBYE)  matchDebyeRange(*ref, *master, cfg.pdf, st);
        ref->eval(st);
        Results want = resultsOf(kind, *ref);
        // workers
        const bool evlater = canOptimize(kind) && g.chance(0.2);
        const sr::PQEvaluatorType evlaterType = g.chance(0.5) ? sr::BASIC : sr::OPTIMIZED;
        vector<string> data(ncpu);
        vector<int> order;
        for (int i = 0; i < ncpu; ++i)  order.push_back(i);
        g.shuffle(order);
        for (int i : order)
        {
            PQPtr w;
            int s = round && style == 0 ? 1 : style;
            switch (s)
            {
                case 0:  w = fresh(); break;
                case 2:
                    if (!reused)  reused = round ? PQPtr() : fresh();
                    w = reused;
                    break;
                case 3:
                    w = persistent[i];
                    break;
                default:  break;
            }
            if (!w)
            {

                w = copyOf(kind, master);
                if (s == 2)  reused = w;
            }
            if (s == 3)  persistent[i] = w;
            // shares are consistent only among workers of the same history
            if (s == 2)  w->setupParallelRun(0, ncpu + 1);
            auto work = [&]() -> string {
                w->setupParallelRun(i, ncpu);
                // evaluator of all workers may be set after their shares
                if (evlater)  w->setEvaluatorType(evlaterType);
                if (kind == DEBYE && s != 1)
                {
                    // the workers must sum over the same range of distances
                    // (setting a structure prevents incremental evaluation, use a copy)
                    PQPtr probe = copyOf(kind, w);
                    sr::DebyePDFCalculator& wd = dynamic_cast<sr::DebyePDFCalculator&>(*probe);
                    wd.setStructure(st);
                    const double er = dynamic_cast<sr::DebyePDFCalculator&>(*master).getDoubleAttr("extendedrmax");
                    if (std::fabs(wd.getDoubleAttr("extendedrmax") - er) > 1e-9)
                    {
                        w = copyOf(kind, master);
                        w->setupParallelRun(i, ncpu);
                        if (s == 2)  reused = w;
                        if (s == 3)  persistent[i] = w;
                    }
                }
                w->eval(st);
                if (ncpu > 1 && w->getEvaluatorTypeUsed() == sr::OPTIMIZED)  ctx().count(string("incremental shares ") + calcName(kind));
                return w->getParallelData();
            };
            data[i] = processes ? inProcess(work) : work();
            ctx().count("partial results");
            if (w->value().size() && kind != BONDS)
            {
                double mx = 0;
                for (double x : w->value())  mx = std::max(mx, std::fabs(x));
                if (mx > 0)  ctx().count("nonzero partial results");
            }
        }
        if (processes)  { ctx().count("rounds in separate processes"); if (style >= 2) { reused.reset(); persistent.assign(ncpu, PQPtr()); } }
        // merge in random order
        g.shuffle(order);
        int bad = g.chance(0.3) ? g.i(0, ncpu - 1) : -1;
        bool earlyfail = false;
        const bool peek = ncpu > 1 && g.chance(0.15);
        for (int k = 0; k < ncpu; ++k)
        {
            // incomplete results may be inspected at any time
            if (peek && k && k < 6)  { resultsOf(kind, *master); ctx().count("incomplete results inspected"); }
            if (k == bad)
            {
                string before = stateOf(kind, *master);
                string d = data[order[k]];
                int how = g.i(0, 2);
                string what;
                if (how == 0)  d = d.substr(0, g.i(0, int(d.size()) - 1));
                else if (how == 1)
                {
                    // data of a different calculator
                    PQPtr x = makeCalc((kind + 1) % NCALC == BVS ? PDF : (kind + 1) % NCALC);
                    if (kind == OVERLAP || kind == PAIRCOUNT)  x = makeCalc(PDF);
                    sr::AtomicStructureAdapterPtr one = boost::make_shared<sr::AtomicStructureAdapter>();
                    Rng gg(5);
                    sr::Atom a;
                    a.atomtype = "C";
                    a.xyz_cartn = sr::R3::Vector(0, 0, 0);
                    one->append(a);
                    a.xyz_cartn = sr::R3::Vector(1.25, 0, 0);
                    one->append(a);
                    x->setRmin(1);
                    x->setRmax(2);
                    x->eval(one);
                    string dx = x->getParallelData();
                    if (x->value().size() == master->value().size() || (kind == OVERLAP && x->value().size() % 6 == 0))  dx = d.substr(0, d.size() / 2);
                    d = dx;
                }
                else
                {
                    // complete data of the same calculator for another number of values
                    diffpy::srreal::QuantityType v(master->value().size() + 1, 0.5);
                    if (kind == BONDS)  d = "";
                    else if (kind == OVERLAP && v.size() % 6 == 0)  d = "";
                    else
                    {
                        std::ostringstream os(std::ios::binary);
                        diffpy::serialization::oarchive oa(os, std::ios::binary);
                        const diffpy::srreal::QuantityType& cv = v;
                        oa << cv;
                        d = os.str();
                    }
                }
                evaluated("malformed data refused");
                checkTrue("C02:malformed data accepted", raises([&](){ master->mergeParallelData(d, ncpu); }, &what),
                        fmt("kind %d how %d ", kind, how) + log);
                checkTrue("C02:rejected merge changes value", stateOf(kind, *master) == before, log);
            }
            int nc = ncpu;
            try  { master->mergeParallelData(data[order[k]], nc); }
            catch (std::exception& e)
            {
                checkTrue("C02:valid partial data refused", false, string(e.what()) + " " + log);
                earlyfail = true;
                break;
            }
        }
        if (earlyfail)  return;
        evaluated("merged result against serial");
        Results got = resultsOf(kind, *master);
        if (want.magnitude() > 0)  ctx().count(string("nonzero ") + calcName(kind));
        if (ncpu > int(m.atoms.size()))  ctx().count("more workers than sites");
        if (ncpu > 1 && ncpu <= (int(m.atoms.size()) - 1) * 0.1 + 1)  ctx().count("outer loop splits");
        if (std::count(pm.on.begin(), pm.on.end(), 0))  ctx().count(string("masked ") + calcName(kind));
        ctx().distinct(hcomb(hcomb(want.hash(), ncpu), style));
        double rtol = 1e-8 + (kind == PDF && round ? 20 * cfg.pdf.prec : 0);
        compareResults(string("C02:") + calcName(kind), got, want, rtol, 1e-9, log);
        if (kind == PAIRCOUNT)  checkTrue("C02:exact count", got.global["value"] == want.global["value"], log);
        if (g.chance(0.4))
        {
            string before = stateOf(kind, *master);
            evaluated("extra merge refused");
            checkTrue("C02:extra merge accepted", raises([&](){ master->mergeParallelData(g.pick(data), ncpu); }), log);
            checkTrue("C02:refused merge changes value", stateOf(kind, *master) == before, log);
        }
        if (g.chance(0.2))
        {
            evaluated("invalid worker setup refused");
            checkTrue("C02:invalid ncpu accepted", raises([&](){ master->setupParallelRun(0, g.i(-3, 0)); }), log);
        }
        // the merged calculator and the workers stay usable for serial evaluation
        if (g.chance(0.25))
        {
            PQPtr p = master;
            if (reused && g.chance(0.4))  { p = reused; p->setupParallelRun(0, 1); }
            else if (!persistent.empty() && persistent[0] && g.chance(0.4))
            {
                p = persistent[0];
                p->setupParallelRun(0, 1);
                persistent.assign(ncpu, PQPtr());
            }
            if (kind != DEBYE || p == master)
            {
                p->eval(st);
                evaluated("serial evaluation after parallel");
                compareResults(string("C02:serial after parallel ") + calcName(kind), resultsOf(kind, *p), want, rtol, 1e-9, log);
            }
        }
    }
    ctx().sample(log);
}

int main(int argc, char* argv[])
{
    return runCases(argc, argv, oneCase);
}
