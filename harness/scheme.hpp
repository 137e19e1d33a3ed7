// Helpers shared by the harnesses of the schemes.
#pragma once
#include "vt.hpp"

#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <iostream>
#include <memory>
#include <sys/stat.h>

namespace vt {

// runs f; true when it threw an exception
template<class F>
bool throws(F f, std::string* what = nullptr)
{
    try {
        f();
    } catch (const std::exception& e) {
        if (what) *what = e.what();
        return true;
    } catch (...) {
        return true;
    }
    return false;
}

template<class T>
std::vector<T> sorted(std::vector<T> v)
{
    std::sort(v.begin(), v.end());
    return v;
}

template<class T>
std::string show(const std::vector<T>& v, size_t maxn = 8)
{
    std::ostringstream s;
    s << "[" << v.size() << "]";
    for (size_t i = 0; i < v.size() && i < maxn; i++) s << " " << v[i];
    return s.str();
}

// the multiset difference, for messages
template<class T>
std::string diff(std::vector<T> want, std::vector<T> got)
{
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    std::vector<T> miss, extra;
    std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(miss));
    std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
    return "expected " + std::to_string(want.size()) + " got " + std::to_string(got.size()) + "; missing " + show(miss)
           + "; extra " + show(extra);
}

// a directory of its own for each case, removed at the end of the case
struct CaseDir
{
    std::string path;
    explicit CaseDir(long i) : path(opts().dir + "/c" + std::to_string(i))
    {
        wipe(path);
        ::mkdir(path.c_str(), 0755);
    }
    ~CaseDir()
    {
        wipe(path);
    }
    std::string operator()(const char* n) const
    {
        return path + "/" + n;
    }
    // only ever given a directory under the run's own scratch directory
    static void wipe(const std::string& p)
    {
        DIR* d = ::opendir(p.c_str());
        if (!d) return;
        while (dirent* e = ::readdir(d)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            std::string q = p + "/" + n;
            struct stat st;
            if (::lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) wipe(q);
            else ::unlink(q.c_str());
        }
        ::closedir(d);
        ::rmdir(p.c_str());
    }
};

inline std::string slurp(const std::string& p)
{
    std::string r;
    FILE*       f = fopen(p.c_str(), "rb");
    if (!f) return r;
    char   b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f);
    return r;
}
inline void spew(const std::string& p, const std::string& s)
{
    FILE* f = fopen(p.c_str(), "wb");
    if (!f) return;
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}
inline bool exists(const std::string& p)
{
    return ::access(p.c_str(), F_OK) == 0;
}

// the schemes talk to std::cerr and std::cout; keep the log small
struct Quiet
{
    std::streambuf *e, *o;
    struct Null : std::streambuf
    {
        int overflow(int c) override
        {
            return c;
        }
        std::streamsize xsputn(const char*, std::streamsize n) override
        {
            return n;
        }
    } n;
    Quiet() : e(std::cerr.rdbuf(&n)), o(std::cout.rdbuf(&n))
    {
    }
    ~Quiet()
    {
        std::cerr.rdbuf(e);
        std::cout.rdbuf(o);
    }
};

} // namespace vt
