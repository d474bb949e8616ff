// Common machinery of the monitoring drivers: deterministic generators, event
// counters, tolerant comparison, JSON lines output.
#ifndef DPV_COMMON_HPP
#define DPV_COMMON_HPP
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <unistd.h>
#include <vector>
#include <algorithm>
#include <array>

#if defined(__has_include)
#if __has_include(<valgrind/valgrind.h>)
#include <valgrind/valgrind.h>
#endif
#endif
#ifndef VALGRIND_COUNT_ERRORS
#define VALGRIND_COUNT_ERRORS 0
#endif

namespace dpv {

typedef long double ld;
using std::string;
using std::vector;
typedef vector<double> VD;

// --- hashing -----------------------------------------------------------------
inline uint64_t mix64(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t hcomb(uint64_t h, uint64_t v)  { return mix64(h * 1000003u ^ v); }
inline uint64_t hstr(const string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)  { h ^= c; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hdbl(double x)
{
    if (x == 0)  x = 0;
    char b[40];
    snprintf(b, sizeof b, "%.7g", x);
    return hstr(b);
}
inline uint64_t hvec(const VD& v)
{
    uint64_t h = v.size();
    for (double x : v)  h = hcomb(h, hdbl(x));
    return h;
}

// --- rng -----------------------------------------------------------------------
class Rng
{
    uint64_t s;
public:
    explicit Rng(uint64_t seed=0) : s(mix64(seed)) { }
    uint64_t next()  { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
    double u()  { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double u(double lo, double hi)  { return lo + (hi - lo) * u(); }
    // integer in [lo, hi]
    int i(int lo, int hi)  { return lo + int(next() % uint64_t(hi - lo + 1)); }
    bool chance(double p)  { return u() < p; }
    double gauss()
    {
        double a = u(), b = u();
        return std::sqrt(-2 * std::log(a + 1e-300)) * std::cos(2 * M_PI * b);
    }
    template <class T> const T& pick(const vector<T>& v)  { return v[next() % v.size()]; }
    double pick(std::initializer_list<double> l)
    {
        vector<double> v(l);
        return v[next() % v.size()];
    }
    template <class T> void shuffle(vector<T>& v)
    {
        for (size_t k = v.size(); k > 1; --k)  std::swap(v[k - 1], v[next() % k]);
    }
};

// --- plain linear algebra (independent of the library) ---------------------------
typedef std::array<double, 3> V3;
typedef std::array<std::array<double, 3>, 3> M3;
inline V3 v3(double x, double y, double z)  { V3 r = {{x, y, z}}; return r; }
inline V3 operator+(const V3& a, const V3& b)  { return v3(a[0]+b[0], a[1]+b[1], a[2]+b[2]); }
inline V3 operator-(const V3& a, const V3& b)  { return v3(a[0]-b[0], a[1]-b[1], a[2]-b[2]); }
inline V3 operator*(double k, const V3& a)  { return v3(k*a[0], k*a[1], k*a[2]); }
inline double dot(const V3& a, const V3& b)  { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }
inline double norm(const V3& a)  { return std::sqrt(dot(a, a)); }
inline V3 cross(const V3& a, const V3& b)
{
    return v3(a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]);
}
inline M3 m3(double a, double b, double c, double d, double e, double f, double g, double h, double i)
{
    M3 m = {{ {{a,b,c}}, {{d,e,f}}, {{g,h,i}} }};
    return m;
}
inline M3 m3id()  { return m3(1,0,0, 0,1,0, 0,0,1); }
inline M3 m3zero()  { return m3(0,0,0, 0,0,0, 0,0,0); }
inline M3 mul(const M3& a, const M3& b)
{
    M3 r = m3zero();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k)
        r[i][j] += a[i][k] * b[k][j];
    return r;
}
inline V3 mul(const M3& a, const V3& v)
{
    return v3(dot(a[0], v), dot(a[1], v), dot(a[2], v));
}
inline M3 trans(const M3& a)
{
    return m3(a[0][0],a[1][0],a[2][0], a[0][1],a[1][1],a[2][1], a[0][2],a[1][2],a[2][2]);
}
inline double det(const M3& a)  { return dot(a[0], cross(a[1], a[2])); }
inline M3 inv(const M3& a)
{
    double d = det(a);
    V3 c0 = cross(a[1], a[2]), c1 = cross(a[2], a[0]), c2 = cross(a[0], a[1]);
    return m3(c0[0]/d, c1[0]/d, c2[0]/d, c0[1]/d, c1[1]/d, c2[1]/d, c0[2]/d, c1[2]/d, c2[2]/d);
}
// v (row vector) times m
inline V3 rmul(const V3& v, const M3& m)  { return mul(trans(m), v); }

inline M3 randomRotation(Rng& g)
{
    double q[4], n = 0;
    for (double& x : q)  { x = g.gauss(); n += x * x; }
    n = std::sqrt(n);
    double w = q[0]/n, x = q[1]/n, y = q[2]/n, z = q[3]/n;
    return m3(1-2*(y*y+z*z), 2*(x*y-z*w), 2*(x*z+y*w),
              2*(x*y+z*w), 1-2*(x*x+z*z), 2*(y*z-x*w),
              2*(x*z-y*w), 2*(y*z+x*w), 1-2*(x*x+y*y));
}

// --- run context -------------------------------------------------------------------
struct Ctx
{
    string prop, tier, scratch, progress;
    uint64_t seed;
    long first, end, shard, nshards;
    double budget;
    bool verbose;
    int pfd;
    long cases, curcase;
    std::map<string, double> counters;
    std::unordered_set<uint64_t> hashes, newhashes;
    long overflow;
    vector<string> samples;
    std::map<string, int> failcount;
    long nsampleseen;
    double tlast;

    Ctx() : seed(1), first(0), end(1), shard(0), nshards(1), budget(0), verbose(false), pfd(-1),
        cases(0), curcase(-1), overflow(0), nsampleseen(0), tlast(0)  { }

    bool thorough() const  { return tier == "thorough"; }

    static double now()
    {
        struct timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + 1e-9 * t.tv_nsec;
    }
    void parse(int argc, char* argv[])
    {
        for (int k = 1; k < argc; ++k)
        {
            string a = argv[k];
            string v = (k + 1 < argc) ? argv[k + 1] : "";
            if (a == "--prop")  { prop = v; ++k; }
            else if (a == "--seed")  { seed = strtoull(v.c_str(), 0, 10); ++k; }
            else if (a == "--tier")  { tier = v; ++k; }
            else if (a == "--first")  { first = atol(v.c_str()); ++k; }
            else if (a == "--end")  { end = atol(v.c_str()); ++k; }
            else if (a == "--shard")  { shard = atol(v.c_str()); ++k; }
            else if (a == "--nshards")  { nshards = atol(v.c_str()); ++k; }
            else if (a == "--budget")  { budget = atof(v.c_str()); ++k; }
            else if (a == "--scratch")  { scratch = v; ++k; }
            else if (a == "--progress")  { progress = v; ++k; }
            else if (a == "-v")  verbose = true;
            else  extra.push_back(a);
        }
        if (!progress.empty())
            pfd = open(progress.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    }
    vector<string> extra;
    bool flag(const string& s) const
    {
        return std::find(extra.begin(), extra.end(), s) != extra.end();
    }
    void mark(long c)
    {
        curcase = c;
        if (pfd >= 0)
        {
            char b[32];
            int n = snprintf(b, sizeof b, "%-20ld\n", c);
            if (pwrite(pfd, b, n, 0) != n)  { }
        }
    }
    // refresh the progress marker inside of a long case
    void alive()
    {
        static long tick = 0;
        if (pfd >= 0)
        {
            char b[48];
            int n = snprintf(b, sizeof b, "%-20ld\n%ld\n", curcase, ++tick);
            if (pwrite(pfd, b, n, 0) != n)  { }
        }
    }
    void count(const string& k, double n=1)  { counters[k] += n; }
    void maxval(const string& k, double v)
    {
        string kk = "max:" + k;
        auto it = counters.find(kk);
        if (it == counters.end() || it->second < v)  counters[kk] = v;
    }
    void distinct(uint64_t h)
    {
        if (hashes.size() > 60000)  return;
        if (hashes.insert(h).second)  newhashes.insert(h);
    }
    static string esc(const string& s)
    {
        string r;
        char b[8];
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')  { r += '\\'; r += c; }
            else if (c == '\n')  r += "\\n";
            else if (c < 32 || c > 126)  { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else  r += c;
        }
        return r;
    }
    void sample(const string& s)
    {
        ++nsampleseen;
        if (samples.size() < 6 && (nsampleseen < 3 || mix64(nsampleseen) % 16 == 0))
            samples.push_back(s.substr(0, 600));
    }
    void fail(const string& key, const string& msg)
    {
        int n = ++failcount[key];
        if (n > 4)  return;
        printf("{\"t\":\"fail\",\"case\":%ld,\"key\":\"%s\",\"msg\":\"%s\"}\n", curcase,
                esc(key).c_str(), esc(msg.substr(0, 3000)).c_str());
        fflush(stdout);
    }
    void emit(const char* t)
    {
        printf("{\"t\":\"%s\",\"cases\":%ld,\"counters\":{", t, cases);
        bool c = false;
        for (auto& kv : counters)
        {
            printf("%s\"%s\":%.17g", c ? "," : "", esc(kv.first).c_str(),
                    std::isfinite(kv.second) ? kv.second : 1e300);
            c = true;
        }
        printf("},\"hashes\":[");
        c = false;
        for (uint64_t h : newhashes)  { printf("%s%llu", c ? "," : "", (unsigned long long) h); c = true; }
        printf("],\"samples\":[");
        c = false;
        for (auto& s : samples)  { printf("%s\"%s\"", c ? "," : "", esc(s).c_str()); c = true; }
        printf("]}\n");
        fflush(stdout);
        counters.clear();
        newhashes.clear();
        samples.clear();
        cases = 0;
    }
};

inline Ctx& ctx()  { static Ctx c; return c; }

template <class... A> string fmt(const char* f, A... a)
{
    char b[4000];
    snprintf(b, sizeof b, f, a...);
    return b;
}

// record an evaluation of an oracle
inline void evaluated(const char* what)
{
    ctx().count("evaluations");
    ctx().count(string("oracle ") + what);
}

// --- comparison ----------------------------------------------------------------------
inline bool close(double x, double y, double rtol, double atol)
{
    if (x == y)  return true;
    if (!std::isfinite(x) || !std::isfinite(y))  return false;
    return std::fabs(x - y) <= atol + rtol * std::max(std::fabs(x), std::fabs(y));
}
inline bool checkNear(const string& key, double got, double want, double rtol, double atol,
        const string& where="")
{
    ctx().count("comparisons");
    if (close(got, want, rtol, atol))  return true;
    ctx().fail(key, fmt("got %.17g expected %.17g (diff %.3g) %s", got, want, got - want, where.c_str()));
    return false;
}
inline bool checkTrue(const string& key, bool ok, const string& where="")
{
    ctx().count("comparisons");
    if (!ok)  ctx().fail(key, where);
    return ok;
}
// arrays: tolerance relative to the largest magnitude of the expected one
inline bool checkArray(const string& key, const VD& got, const VD& want, double rtol, double atol,
        const string& where="")
{
    ctx().count("comparisons", 1 + want.size());
    if (got.size() != want.size())
    {
        ctx().fail(key, fmt("size %zu expected %zu %s", got.size(), want.size(), where.c_str()));
        return false;
    }
    double mx = 0;
    for (double x : want)  if (std::isfinite(x))  mx = std::max(mx, std::fabs(x));
    double tol = atol + rtol * mx;
    double worst = 0;
    size_t iw = 0;
    bool bad = false;
    for (size_t i = 0; i < want.size(); ++i)
    {
        if (got[i] == want[i])  continue;
        double d = std::fabs(got[i] - want[i]);
        if (!(d <= tol))
        {
            if (!bad || d > worst || d != d)  { worst = d; iw = i; }
            bad = true;
            if (d != d)  break;
        }
    }
    if (bad)
    {
        ctx().fail(key, fmt("element %zu of %zu: got %.17g expected %.17g tol %.3g scale %.6g %s",
                    iw, want.size(), got[iw], want[iw], tol, mx, where.c_str()));
        return false;
    }
    return true;
}

// --- main loop ------------------------------------------------------------------------
inline int runCases(int argc, char* argv[], std::function<void(long, Rng&)> fn)
{
    Ctx& c = ctx();
    c.parse(argc, argv);
    double t0 = Ctx::now();
    c.tlast = t0;
    long nerr = VALGRIND_COUNT_ERRORS;
    uint64_t base = hcomb(hcomb(c.seed, hstr(c.prop)), 77);
    for (long k = c.first; k < c.end; ++k)
    {
        if (c.nshards > 1 && k % c.nshards != c.shard)  continue;
        if (c.budget > 0 && Ctx::now() - t0 > c.budget)  { c.count("shards cut by budget"); break; }
        c.mark(k);
        Rng g(hcomb(base, k));
        try  { fn(k, g); }
        catch (std::exception& e)
        {
            c.fail(string("unexpected exception: ") + string(e.what()).substr(0, 60), e.what());
        }
        long ne = VALGRIND_COUNT_ERRORS;
        if (ne > nerr)  { c.fail("valgrind", fmt("%ld errors reported in this case", ne - nerr)); nerr = ne; }
        ++c.cases;
        double t = Ctx::now();
        if (t - c.tlast > 2)  { c.tlast = t; c.emit("ckpt"); }
    }
    c.emit("done");
    return 0;
}

// running with the address sanitizer or valgrind
inline bool sanitized()
{
#ifdef RUNNING_ON_VALGRIND
    if (RUNNING_ON_VALGRIND)  return true;
#endif
#if defined(__SANITIZE_ADDRESS__)
    return true;
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
    return true;
#else
    return false;
#endif
#else
    return false;
#endif
}

// expect a call to raise; returns name of what was raised
template <class F> bool raises(F f, string* what=0)
{
    try  { f(); }
    catch (std::exception& e)  { if (what) *what = e.what(); return true; }
    return false;
}

}   // namespace dpv
#endif
