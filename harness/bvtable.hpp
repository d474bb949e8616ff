// Independent reader of the bond valence parameters and their lookup rules.
#ifndef DPV_BVTABLE_HPP
#define DPV_BVTABLE_HPP
#include "common.hpp"
#include <fstream>

namespace dpv {

struct BVKey
{
    string a0, a1;
    int v0, v1;
    BVKey(const string& s0, int w0, const string& s1, int w1) : a0(s0), a1(s1), v0(w0), v1(w1)
    {
        // more positive ion goes first, names resolve equal valences
        if (v0 < v1 || (v0 == v1 && a1 < a0))  { std::swap(a0, a1); std::swap(v0, v1); }
    }
    bool operator<(const BVKey& o) const
    {
        return std::tie(a0, v0, a1, v1) < std::tie(o.a0, o.v0, o.a1, o.v1);
    }
    string str() const  { return fmt("%s%+d %s%+d", a0.c_str(), v0, a1.c_str(), v1); }
};
struct BVVal  { double Ro, B; string ref; BVVal(double r=0, double b=0, string s="") : Ro(r), B(b), ref(s)  { } };
typedef std::map<BVKey, BVVal> BVMap;

inline string runtimeFile(const string& f)
{
    const char* d = getenv("DPV_PRISTINE");
    if (!d)  d = getenv("DIFFPYRUNTIME");
    return string(d ? d : "/repo/src/runtime") + "/" + f;
}

inline const BVMap& standardBV()
{
    static BVMap t;
    if (!t.empty())  return t;
    std::ifstream fp(runtimeFile("bvparm2011sel.cif").c_str());
    string line;
    bool data = false;
    while (std::getline(fp, line))
    {
        if (line.find("_valence_param_details") != string::npos)  { data = true; continue; }
        if (!data || line.empty() || line[0] == '#')  continue;
        std::istringstream is(line);
        string a0, a1, ref;
        int v0, v1;
        double Ro, B;
        if (!(is >> a0 >> v0 >> a1 >> v1 >> Ro >> B >> ref))  continue;
        t.insert(std::make_pair(BVKey(a0, v0, a1, v1), BVVal(Ro, B, ref)));
    }
    return t;
}

struct RefBV
{
    BVMap custom;
    std::map<string, int> valence;
    // parameters of the pair, null when there are none
    const BVVal* lookup(const string& a0, int v0, const string& a1, int v1) const
    {
        BVKey k(a0, v0, a1, v1);
        const BVMap& std = standardBV();
        auto i = custom.find(k);
        if (i != custom.end())  return &i->second;
        i = std.find(k);
        if (i != std.end())  return &i->second;
        if (k.v0 <= 0)  return 0;
        k.v0 = 9;
        i = custom.find(k);
        if (i != custom.end())  return &i->second;
        i = std.find(k);
        if (i != std.end())  return &i->second;
        return 0;
    }
};

}   // namespace dpv
#endif
