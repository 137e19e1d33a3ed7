// Descriptor bookkeeping through /proc/self/fd.
#pragma once
#include <dirent.h>
#include <map>
#include <string>
#include <unistd.h>

namespace fds {
inline std::map<int, std::string> snapshot()
{
    std::map<int, std::string> r;
    DIR*                       d = opendir("/proc/self/fd");
    if (!d) return r;
    int self = dirfd(d);
    while (auto* e = readdir(d)) {
        int fd = atoi(e->d_name);
        if (e->d_name[0] == '.' || fd == self) continue;
        char    b[4096];
        ssize_t n = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b);
        r[fd]     = std::string(b, n > 0 ? n : 0);
    }
    closedir(d);
    return r;
}
inline int find(const std::string& path)
{
    char b[4096];
    if (!realpath(path.c_str(), b)) return -1;
    for (auto& e : snapshot())
        if (e.second == b) return e.first;
    return -1;
}
// what differs between two snapshots ("" if nothing)
inline std::string diff(const std::map<int, std::string>& a, const std::map<int, std::string>& b)
{
    std::string r;
    for (auto& e : a) {
        auto it = b.find(e.first);
        if (it == b.end()) r += " closed:" + std::to_string(e.first) + "=" + e.second;
        else if (it->second != e.second) r += " replaced:" + std::to_string(e.first) + "=" + e.second;
    }
    for (auto& e : b)
        if (!a.count(e.first)) r += " leaked:" + std::to_string(e.first) + "=" + e.second;
    return r;
}
} // namespace fds
