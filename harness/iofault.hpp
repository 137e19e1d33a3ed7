// Interposed libaio / pread / pwrite / write: observes what the kernel is asked
// and what it answers, and injects the answers it is allowed to give (queue
// full, partial acceptance, interruption, short and failed transfers, delays).
// Define VT_IOFAULT_IMPL in exactly one source file of a program.
#pragma once
#include "vt.hpp"

#include <libaio.h>

#include <unordered_map>

namespace iof {

struct Plan
{
    // probabilities in percent
    unsigned eagain{0}, late_eagain{0}, partial{0}, eintr{0}, ev_short{0},
        ev_fail{0}, delay{0};
    unsigned rw_short{0}, rw_fail{0}, rw_eintr{0};
    unsigned submit_fail{0}, setup_fail{0};
    long     qmax{0}; // queue depth enforced (0: the kernel's own)
};

struct Xfer
{
    int64_t  total{0};  // bytes really moved for this buffer
    int64_t  last{0};   // last answer
    unsigned n{0};      // transfers
    bool     seen{false};
};

void set_plan(const Plan& p, uint64_t seed);
// file descriptors on which faults are injected and transfers recorded
void watch_fd(int fd);
void unwatch_all();
// every descriptor opened later on a path containing this text is watched too
Xfer     transfer_of(const void* buf);
void     forget_transfers();
uint64_t injected(); // faults injected since set_plan
long     outstanding();

} // namespace iof

#ifdef VT_IOFAULT_IMPL
#include <dlfcn.h>

#include <unordered_set>

namespace iof {
struct G
{
    std::mutex                                 m;
    Plan                                       p;
    vt::Rng                                    r{1};
    std::unordered_set<int>                    fds;
    std::unordered_map<const void*, Xfer>      x;     // by buffer
    std::unordered_map<void*, const void*>     bufof; // iocb.data -> buffer
    long                                       out{0};
    uint64_t                                   injected{0};
    std::set<const void*>                      refused;
    std::atomic<uint64_t>                      ge_calls{0};
    std::atomic<bool>                          active{false};
};
static G& g()
{
    static G* x = new G;
    return *x;
}
void set_plan(const Plan& p, uint64_t seed)
{
    std::lock_guard<std::mutex> l(g().m);
    g().p        = p;
    g().r        = vt::Rng(seed);
    g().injected = 0;
    g().out      = 0;
    g().active   = true;
}
void watch_fd(int fd)
{
    std::lock_guard<std::mutex> l(g().m);
    g().fds.insert(fd);
    g().active = true;
}
void unwatch_all()
{
    std::lock_guard<std::mutex> l(g().m);
    g().fds.clear();
    g().p      = Plan();
    g().active = false;
}
Xfer transfer_of(const void* b)
{
    std::lock_guard<std::mutex> l(g().m);
    auto                        it = g().x.find(b);
    return it == g().x.end() ? Xfer() : it->second;
}
void forget_transfers()
{
    std::lock_guard<std::mutex> l(g().m);
    g().x.clear();
    g().refused.clear();
    g().bufof.clear();
}
// did the kernel answer the submission for that buffer with an error?
bool submission_refused(const void* b)
{
    std::lock_guard<std::mutex> l(g().m);
    return g().refused.count(b) != 0;
}
// (g().m held) an error the kernel may answer with
static int some_errno()
{
    static const int e[] = {EIO, EIO, EIO, EFAULT, EINVAL, EAGAIN, ENOSPC, EBADF, ENOMEM, EDQUOT, EPERM, EOPNOTSUPP, ECANCELED, ETIMEDOUT, EFBIG, ENXIO};
    return e[g().r.below(sizeof e / sizeof *e)];
}
uint64_t injected()
{
    std::lock_guard<std::mutex> l(g().m);
    return g().injected;
}
long outstanding()
{
    std::lock_guard<std::mutex> l(g().m);
    return g().out;
}

template<class F>
static F next(const char* n)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
enum Rw { OK, SHORT, FAIL, EINTR_ };
static Rw rw_decide(int fd, size_t n, size_t& cut)
{
    G&                          s = g();
    std::lock_guard<std::mutex> l(s.m);
    if (!s.fds.count(fd)) return OK;
    if (s.p.rw_fail && s.r.chance(s.p.rw_fail)) {
        s.injected++;
        return FAIL;
    }
    if (s.p.rw_eintr && s.r.chance(s.p.rw_eintr)) {
        s.injected++;
        return EINTR_;
    }
    if (s.p.rw_short && n > 1 && s.r.chance(s.p.rw_short)) {
        s.injected++;
        cut = 512 * s.r.below(n / 512);
        if (cut == 0 || cut >= n) cut = n / 2;
        return SHORT;
    }
    return OK;
}
static void rw_record(int fd, const void* b, ssize_t res)
{
    G&                          s = g();
    std::lock_guard<std::mutex> l(s.m);
    if (!s.fds.count(fd)) return;
    Xfer& x = s.x[b];
    x.n++;
    x.seen = true;
    x.last = res;
    if (res > 0) x.total += res;
}
} // namespace iof

using iof::g;

extern "C" int io_setup(int n, io_context_t* ctx)
{
    static auto real = iof::next<int (*)(int, io_context_t*)>("io_setup");
    if (g().active) {
        std::lock_guard<std::mutex> l(g().m);
        if (g().p.setup_fail && g().r.chance(g().p.setup_fail)) {
            g().injected++;
            return -EAGAIN;
        }
    }
    return real(n, ctx);
}

extern "C" int io_submit(io_context_t ctx, long nr, struct iocb* ios[])
{
    static auto real = iof::next<int (*)(io_context_t, long, struct iocb**)>("io_submit");
    for (long i = 0; i < nr; i++) vt::aio_submitting(ios[i]);
    vt::AioCopies copies;
    if (!g().active) return real(ctx, nr, copies.get(ios, nr));
    bool late = false, fail = false;
    int  failed_with = EIO;
    long use = nr;
    {
        std::lock_guard<std::mutex> l(g().m);
        auto&                       p = g().p;
        auto&                       r = g().r;
        if (nr > 0 && p.submit_fail && r.chance(p.submit_fail)) {
            g().injected++;
            fail = true;
            do failed_with = iof::some_errno();
            while (failed_with == EAGAIN);
            g().refused.insert(ios[0]->u.c.buf);
        }
        if (!fail && g().out > 0 && p.eagain && r.chance(p.eagain)) {
            g().injected++;
            return -EAGAIN;
        }
        if (!fail && g().out > 0 && p.late_eagain && r.chance(p.late_eagain)) {
            g().injected++;
            late = true;
        }
        if (nr > 1 && p.partial && r.chance(p.partial)) {
            g().injected++;
            use = 1 + r.below(nr - 1);
        }
        if (p.qmax > 0 && !fail && !late) {
            if (g().out >= p.qmax) {
                g().injected++;
                return -EAGAIN;
            }
            if (g().out + use > p.qmax) use = p.qmax - g().out;
        }
    }
    if (fail) return -failed_with;
    if (late) {
        // the queue was full when the kernel looked, but everything drains
        // before the caller sees the answer
        for (int i = 0; i < 400; i++) {
            {
                std::lock_guard<std::mutex> l(g().m);
                if (g().out == 0) break;
            }
            usleep(500);
        }
        uint64_t c = g().ge_calls.load();
        for (int i = 0; i < 40 && g().ge_calls.load() == c; i++) usleep(500);
        return -EAGAIN;
    }
    struct Saved
    {
        void*       data;
        const void* buf;
    };
    std::vector<Saved> sv;
    {
        std::lock_guard<std::mutex> l(g().m);
        for (long i = 0; i < use; i++) {
            sv.push_back({ios[i]->data, ios[i]->u.c.buf});
            if (ios[i]->data) g().bufof[ios[i]->data] = ios[i]->u.c.buf;
        }
        g().out += use;
    }
    int res = real(ctx, use, copies.get(ios, use));
    {
        std::lock_guard<std::mutex> l(g().m);
        g().out -= use - std::max(res, 0);
    }
    return res;
}

extern "C" int io_getevents(io_context_t     ctx,
                            long             min_nr,
                            long             nr,
                            struct io_event* ev,
                            struct timespec* to)
{
    static auto real = iof::next<int (*)(io_context_t, long, long, struct io_event*, struct timespec*)>("io_getevents");
    bool intr = false, delay = false;
    {
        std::lock_guard<std::mutex> l(g().m);
        if (g().p.eintr && g().r.chance(g().p.eintr)) {
            g().injected++;
            intr = true;
        }
        delay = g().p.delay && g().r.chance(g().p.delay);
    }
    g().ge_calls++;
    if (delay) usleep(300);
    if (intr) return -EINTR;
    int res = real(ctx, min_nr, nr, ev, to);
    for (int i = 0; i < res; i++) vt::aio_completed(ev[i]);
    if (res > 0) {
        std::lock_guard<std::mutex> l(g().m);
        for (int i = 0; i < res; i++) {
            int64_t r = static_cast<int64_t>(ev[i].res);
            if (r > 0 && g().p.ev_fail && g().r.chance(g().p.ev_fail)) {
                g().injected++;
                r = -iof::some_errno();
                // the second result is not defined for reads and writes
                if (g().r.chance(30)) ev[i].res2 = static_cast<unsigned long>(-static_cast<long>(iof::some_errno()));
            } else if (r > 512 && g().p.ev_short && g().r.chance(g().p.ev_short)) {
                g().injected++;
                r = 512 * g().r.below(r / 512);
            }
            ev[i].res = static_cast<unsigned long>(r);
            auto it   = g().bufof.find(ev[i].data);
            if (ev[i].data && it != g().bufof.end()) {
                auto& x = g().x[it->second];
                x.n++;
                x.seen = true;
                x.last = r;
                if (r > 0) x.total += r;
            }
        }
        g().out -= res;
    }
    return res;
}

#define VT_RW(NAME, CB, OFFT)                                                  \
    extern "C" ssize_t NAME(int fd, CB b, size_t n, OFFT off)                  \
    {                                                                          \
        static auto real                                                       \
            = iof::next<ssize_t (*)(int, CB, size_t, OFFT)>(#NAME);            \
        if (!g().active) return real(fd, b, n, off);                           \
        size_t cut = n;                                                        \
        auto   d   = iof::rw_decide(fd, n, cut);                               \
        if (d == iof::FAIL || d == iof::EINTR_) {                              \
            iof::rw_record(fd, b, -1);                                         \
            errno = d == iof::FAIL ? EIO : EINTR;                              \
            return -1;                                                         \
        }                                                                      \
        ssize_t res = real(fd, b, cut, off);                                   \
        int     e   = errno;                                                   \
        iof::rw_record(fd, b, res);                                            \
        errno = e;                                                             \
        return res;                                                            \
    }
VT_RW(pread, void*, off_t)
VT_RW(pwrite, const void*, off_t)
VT_RW(pread64, void*, off64_t)
VT_RW(pwrite64, const void*, off64_t)

extern "C" ssize_t write(int fd, const void* b, size_t n)
{
    static auto real = iof::next<ssize_t (*)(int, const void*, size_t)>("write");
    if (!g().active) return real(fd, b, n);
    size_t cut = n;
    auto   d   = iof::rw_decide(fd, n, cut);
    if (d == iof::FAIL || d == iof::EINTR_) {
        iof::rw_record(fd, b, -1);
        errno = d == iof::FAIL ? EIO : EINTR;
        return -1;
    }
    ssize_t res = real(fd, b, cut);
    int     e   = errno;
    iof::rw_record(fd, b, res);
    errno = e;
    return res;
}
#endif
