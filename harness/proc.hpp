// Work done in another process: pipes of length-prefixed strings, forked and executed children.
#ifndef DPV_PROC_HPP
#define DPV_PROC_HPP
#include "common.hpp"
#include <sys/wait.h>

namespace dpv {

inline void writeAll(int fd, const string& s)
{
    size_t k = 0;
    while (k < s.size())
    {
        ssize_t r = write(fd, s.data() + k, s.size() - k);
        if (r <= 0)  _exit(9);
        k += r;
    }
}
inline string readAll(int fd)
{
    string s;
    char b[8192];
    ssize_t r;
    while ((r = read(fd, b, sizeof b)) > 0)  s.append(b, r);
    return s;
}
inline void put(string& s, const string& x)
{
    s += fmt("%zu ", x.size());
    s += x;
}
inline bool get(const string& s, size_t& pos, string& x)
{
    if (pos >= s.size())  return false;
    size_t sp = s.find(' ', pos);
    if (sp == string::npos)  return false;
    size_t n = strtoul(s.c_str() + pos, 0, 10);
    x = s.substr(sp + 1, n);
    pos = sp + 1 + n;
    return true;
}

// output of f evaluated in a forked process, status is its wait status
inline string forked(std::function<string()> f, int* status)
{
    int p[2];
    if (pipe(p))  throw std::runtime_error("pipe failed");
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        ::close(p[0]);
        string s;
        try  { s = f(); }
        catch (std::exception& e)  { s = string("!") + e.what(); }
        writeAll(p[1], s);
        _exit(0);
    }
    ::close(p[1]);
    string s = readAll(p[0]);
    ::close(p[0]);
    waitpid(pid, status, 0);
    return s;
}

// output of this driver executed with other arguments and environment
inline string executed(const vector<string>& args, const std::map<string, string>& env, int* status)
{
    int p[2];
    if (pipe(p))  throw std::runtime_error("pipe failed");
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        ::close(p[0]);
        dup2(p[1], 1);
        ::close(p[1]);
        for (auto& e : env)  setenv(e.first.c_str(), e.second.c_str(), 1);
        vector<char*> av;
        char self[] = "/proc/self/exe";
        av.push_back(self);
        for (auto& a : args)  av.push_back(const_cast<char*>(a.c_str()));
        av.push_back(0);
        execv(self, &av[0]);
        _exit(8);
    }
    ::close(p[1]);
    string s = readAll(p[0]);
    ::close(p[0]);
    waitpid(pid, status, 0);
    return s;
}

}   // namespace dpv
#endif
