// C01 / C02: I/O schedulers.  A workload of reads and writes is run through a
// scheduler while the kernel interface is observed and perturbed; afterwards the
// log of callbacks, the buffers and the file are judged.
#define VT_IOFAULT_IMPL
#include "iofault.hpp"

#include <sys/mman.h>
#include <sse/schemes/abstractio/scheduler.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <fcntl.h>
#include <memory>

using namespace sse::abstractio;
using vt::Rng;

static constexpr size_t kPage = 4096;
static constexpr size_t kFilePages = 96; // region A (reads), then B (writes)

static unsigned char content(size_t off)
{
    uint64_t s = off / 8 + 12345;
    return static_cast<unsigned char>(vt::splitmix(s) >> (8 * (off % 8)));
}

struct Buf
{
    unsigned char* p{nullptr};
    size_t         len;
    Buf(size_t n) : len(n)
    {
        void* q = nullptr;
        if (posix_memalign(&q, kPage, n + 2 * kPage)) abort();
        p = static_cast<unsigned char*>(q);
        memset(p, 0xA5, n + 2 * kPage);
    }
    ~Buf()
    {
        free(p);
    }
    unsigned char* data()
    {
        return p + kPage;
    }
    bool guards_ok() const
    {
        for (size_t i = 0; i < kPage; i++)
            if (p[i] != 0xA5 || p[kPage + len + i] != 0xA5) return false;
        return true;
    }
};

struct Req
{
    bool                 write{false};
    bool                 bad{false};  // misaligned: must be refused by aio
    bool                 badfd{false};
    bool                 badbuf{false}; // not accessible: the transfer fails
    std::unique_ptr<Buf> buf;
    size_t               len{0}, off{0};
    void*                data{nullptr};
    void*                bufptr{nullptr};
    std::atomic<int>     entered{0}, left{0};
    std::atomic<int64_t> res{0};
    std::atomic<void*>   got{nullptr};
    std::atomic<int>     ret{-77777}; // return value of the submission (single)
    bool                 batched{false};
};

static int make_file(const std::string& path, bool direct)
{
    int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    std::vector<unsigned char> d(kFilePages * kPage);
    for (size_t i = 0; i < d.size(); i++) d[i] = content(i);
    if (pwrite(fd, d.data(), d.size(), 0) != ssize_t(d.size())) abort();
    if (ftruncate(fd, 4 * kFilePages * kPage)) abort();
    if (direct) {
        fsync(fd);
        close(fd);
        fd = open(path.c_str(), O_RDWR | O_DIRECT, 0644);
        if (fd < 0) {
            vt::count("direct_unavailable");
            fd = open(path.c_str(), O_RDWR, 0644);
        }
    }
    return fd;
}

struct Ctx
{
    int                               fd{-1}, badfd{-1};
    bool                              aio{false};
    bool                              direct{false};
    std::vector<std::unique_ptr<Req>> reqs;
    unsigned                          cbdelay{0};
    std::atomic<uint64_t>             seq{0};
};

static Scheduler::scheduler_callback_type make_cb(Ctx& c, Req* r, Rng& g)
{
    unsigned d = c.cbdelay && g.chance(c.cbdelay) ? 50 + g.below(600) : 0;
    return [&c, r, d](void* data, int64_t res) {
        r->entered++;
        r->got = data;
        r->res = res;
        if (d) usleep(d);
        c.seq++;
        vt::tick();
        r->left++;
    };
}

// one submitting thread
static void submit_some(Ctx& c, Scheduler& s, Req** rs, size_t n, uint64_t seed, unsigned batch_pct)
{
    Rng    g(seed);
    size_t i = 0;
    while (i < n) {
        vt::tick();
        if (g.chance(batch_pct)) {
            size_t k = 1 + g.below(std::min<size_t>(n - i, 24));
            size_t j = i;
            std::vector<Scheduler::PReadSumission> subs;
            int                                    expect = 0;
            for (; j < i + k && !rs[j]->write; j++) {
                Req* r     = rs[j];
                r->batched = true;
                subs.emplace_back(r->badfd ? c.badfd : c.fd, r->bufptr, r->len, r->off, r->data, make_cb(c, r, g));
                if (!(c.aio && (r->bad || r->badfd))) expect++;
            }
            if (!subs.empty()) {
                int ret = s.submit_preads(subs);
                vt::count("batches");
                vt::maximum("largest_batch", subs.size());
                for (size_t q = i; q < j; q++)
                    if (!(c.aio && (rs[q]->bad || rs[q]->badfd)) && iof::submission_refused(rs[q]->bufptr)) expect--;
                VT_CHECK(ret == expect || (expect == 0 && ret <= 0), "batch-count",
                         "a batch of %zu with %d acceptable elements returned %d (%s)", subs.size(), expect, ret,
                         c.aio ? "kernel-backed" : "thread pool");
                i = j;
                continue;
            }
        }
        Req* r = rs[i];
        int  fd = r->badfd ? c.badfd : c.fd;
        int  ret;
        if (r->write)
            ret = s.submit_pwrite(fd, r->bufptr, r->len, r->off, r->data, make_cb(c, r, g));
        else
            ret = s.submit_pread(fd, r->bufptr, r->len, r->off, r->data, make_cb(c, r, g));
        r->ret = ret;
        i++;
    }
    if (g.chance(20)) {
        int ret = s.submit_preads({});
        VT_CHECK(ret == 0, "batch-empty", "an empty batch returned %d", ret);
    }
}

static void judge(Ctx& c, const std::string& path, bool faults)
{
    std::vector<unsigned char> file;
    {
        int fd = open(path.c_str(), O_RDONLY);
        file.resize(4 * kFilePages * kPage);
        ssize_t k = pread(fd, file.data(), file.size(), 0);
        VT_CHECK(k == ssize_t(file.size()), "file-size", "file has %zd bytes instead of %zu", k, file.size());
        close(fd);
    }
    std::vector<bool> written(4 * kFilePages * kPage / 512, false);
    uint64_t          okc = 0;
    for (auto& rp : c.reqs) {
        Req&        r    = *rp;
        const char* kind = r.write ? "write" : "read";
        vt::eval();
        VT_CHECK(r.badbuf || r.buf->guards_ok(), "overrun", "%s of %zu bytes touched memory around its buffer", kind, r.len);
        if (r.write && !r.bad)
            for (size_t k = r.off / 512; k <= (r.off + r.len - 1) / 512 && r.len; k++)
                if (k < written.size()) written[k] = true;
        // some submissions are answered with an error
        bool refused  = iof::submission_refused(r.bufptr);
        bool accepted = r.batched ? !(c.aio && (r.bad || r.badfd)) && !refused : r.ret.load() == 1;
        if (refused) vt::count("submission_errors");
        if (!r.batched) {
            bool want = !(c.aio && (r.bad || r.badfd)) && !refused;
            VT_CHECK(accepted == want, "accept",
                     "%s%s of %zu bytes at %zu returned %d although it should be %s", kind,
                     r.bad ? " (misaligned)" : "", r.len, r.off, r.ret.load(), want ? "accepted" : "refused");
        }
        int n = r.entered.load();
        if (!accepted) {
            VT_CHECK(n == 0, "refused-called", "the callback of a refused %s was called %d times", kind, n);
            vt::count("refused");
            continue;
        }
        VT_CHECK(n == 1, n == 0 ? "lost-callback" : "duplicate-callback",
                 "the callback of an accepted %s of %zu bytes at %zu (%s) was called %d times", kind, r.len, r.off,
                 r.batched ? "batched" : "single", n);
        if (n != 1) continue;
        VT_CHECK(r.got.load() == r.data, "wrong-data", "callback got data %p instead of %p", r.got.load(), r.data);
        int64_t res = r.res.load();
        if (r.badfd) {
            VT_CHECK(res < 0, "badfd", "%s on a closed descriptor reported %lld", kind, (long long)res);
            vt::count("failed_transfers");
            continue;
        }
        auto x = iof::transfer_of(r.bufptr);
        if (r.badbuf) {
            VT_CHECK(res < 0, "badbuf", "%s with an inaccessible buffer reported %lld", kind, (long long)res);
            vt::count("inaccessible_buffers");
        }
        if (x.seen) {
            vt::count("transfers_observed", x.n);
            bool ok = x.last < 0 ? ((x.total == 0 && res < 0) || (x.total > 0 && (res < 0 || res == x.total)))
                                 : res == x.total;
            VT_CHECK(ok, "wrong-count",
                     "%s of %zu bytes: callback reported %lld but the kernel transferred %lld (last answer %lld)",
                     kind, r.len, (long long)res, (long long)x.total, (long long)x.last);
            if (x.last < 0) vt::count("failed_transfers");
            else if (x.total < int64_t(r.len)) vt::count("short_transfers");
        }
        if (res == int64_t(r.len)) {
            okc++;
            bool   same = true;
            size_t at   = 0;
            for (size_t k = 0; k < r.len && same; k++) {
                unsigned char want = r.write ? r.buf->data()[(unsigned char*)r.bufptr - r.buf->data() + k]
                                             : (r.off + k < kFilePages * kPage ? content(r.off + k) : 0);
                unsigned char have = r.write ? file[r.off + k] : ((unsigned char*)r.bufptr)[k];
                if (have != want) {
                    same = false;
                    at   = k;
                }
            }
            VT_CHECK(same, r.write ? "write-content" : "read-content",
                     "%s of %zu bytes at offset %zu: byte %zu is wrong", kind, r.len, r.off, at);
            if (!r.write && !r.batched) vt::count("reads_ok");
        } else if (!faults && !r.bad && !r.badbuf && r.off + r.len <= file.size()) {
            VT_CHECK(false, "incomplete", "%s of %zu bytes at %zu reported %lld without any fault", kind, r.len,
                     r.off, (long long)res);
        }
    }
    // everything outside the requested write ranges is untouched
    for (size_t k = 0; k < written.size(); k++) {
        if (written[k]) continue;
        for (size_t b = k * 512; b < (k + 1) * 512; b++) {
            unsigned char want = b < kFilePages * kPage ? content(b) : 0;
            if (file[b] != want) {
                vt::fail("stray-write", vt::fmt("file byte %zu changed although no write covers it", b));
                k = written.size();
                break;
            }
        }
    }
    vt::count("full_transfers", okc);
}

static Scheduler* make(bool aio, unsigned depth, bool deflt)
{
    if (deflt) return make_default_aio_scheduler(kPage);
    return aio ? make_linux_aio_scheduler(kPage, depth) : make_thread_pool_aio_scheduler();
}

// distinct addresses of memory without any access
static void* inaccessible(size_t i)
{
    static char* a = static_cast<char*>(mmap(nullptr, 1024 * 24 * kPage, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    return a + (i % 1024) * 24 * kPage;
}

// Fills the requests: reads in region A, writes to disjoint slots behind it
static void make_reqs(Ctx& c, Rng& g, size_t n, bool faulty_args)
{
    size_t wpos = kFilePages * kPage;
    for (size_t i = 0; i < n; i++) {
        auto r = std::make_unique<Req>();
        r->write = g.chance(35);
        size_t unit = c.direct ? kPage : 512;
        size_t mx   = c.direct ? 4 : 24;
        r->len      = unit * (1 + g.below(g.chance(70) ? 2 : mx));
        if (r->write) {
            if (wpos + r->len + 2 * kPage > 4 * kFilePages * kPage) r->write = false;
        }
        if (r->write) {
            r->off = wpos;
            wpos += r->len;
            if (c.direct) wpos = (wpos + kPage - 1) / kPage * kPage;
        } else {
            size_t pages = kFilePages * kPage / unit;
            r->off       = unit * g.below(pages - mx);
        }
        r->buf    = std::make_unique<Buf>(r->len + 8);
        r->bufptr = r->buf->data();
        if (faulty_args && c.aio && !c.direct && g.chance(8)) {
            r->bad = true;
            switch (g.below(3)) {
            case 0: r->bufptr = r->buf->data() + (g.chance(50) ? 1 : 8); break;
            case 1: r->len -= 1 + g.below(7); break;
            default: r->off += 1 + g.below(3); break;
            }
            if (r->write) r->off = 3 * kFilePages * kPage + (r->off % 512); // never reached
        } else if (faulty_args && g.chance(4)) {
            r->badfd = true;
        } else if (faulty_args && g.chance(4)) {
#ifndef VT_MEMCHECK // (which rightly objects to such a buffer itself)
            r->badbuf = true;
            r->bufptr = inaccessible(i);
#endif
        }
        if (r->badbuf) {
        } else if (r->write)
            for (size_t k = 0; k < r->len; k++) ((unsigned char*)r->bufptr)[k] = static_cast<unsigned char>(g.next());
        switch (g.below(4)) {
        case 0: r->data = nullptr; break;
        case 1: r->data = r->bufptr; break;
        default: r->data = reinterpret_cast<void*>(0x1000 + i * 16 + g.below(16)); break;
        }
        c.reqs.push_back(std::move(r));
    }
    // a bad write must not lie in the range of another one
    for (auto& r : c.reqs)
        if (r->write && r->bad) r->write = false;
}

static void run_c01(long i, Rng& g)
{
    Ctx c;
    int back  = g.below(10);
    c.aio     = back < 6 || back == 9;
    c.direct  = g.chance(40);
    c.cbdelay = g.chance(30) ? 10 : 0;
    unsigned    depth = g.chance(50) ? 1 + g.below(4) : (g.chance(50) ? 16 : 128);
    size_t      n     = 1 + g.below(g.chance(70) ? 40 : (vt::opts().thorough ? 500 : 200));
    size_t      th    = g.chance(50) ? 1 : 1 + g.below(6);
    bool        args  = g.chance(60);
    iof::Plan   p;
    bool        faults = false;
    if (g.chance(60)) p.qmax = depth;
    if (g.chance(50)) p.partial = 10 + g.below(60);
    if (g.chance(40)) p.eagain = 5 + g.below(40);
    if (g.chance(30)) p.eintr = 5 + g.below(30);
    if (g.chance(30)) p.delay = 20;
    if (g.chance(35)) {
        p.ev_short = g.below(25);
        p.ev_fail  = g.below(25);
        p.rw_short = g.below(25);
        p.rw_fail  = g.below(25);
        p.rw_eintr = g.below(10);
        faults     = true;
    }
    if (g.chance(20)) {
        p.submit_fail = 1 + g.below(20);
        faults        = true;
    }
    unsigned batch = g.chance(30) ? 0 : g.below(101);
    std::string backend = back == 9 ? "default" : c.aio ? "aio" : "pool";
    vt::begin_case(i, vt::fmt("%s n=%zu threads=%zu depth=%u direct=%d batch=%u faults=%d part=%u eagain=%u eintr=%u",
                              backend.c_str(), n, th, depth, c.direct, batch, faults, p.partial, p.eagain, p.eintr));
    std::string path = vt::opts().dir + vt::fmt("/io%ld", i);
    c.fd             = make_file(path, c.direct);
    c.badfd          = 1000;
    make_reqs(c, g, n, args);
    iof::watch_fd(c.fd);
    iof::set_plan(p, g.next());
    bool twice = g.chance(25);
    {
        std::unique_ptr<Scheduler> s(make(c.aio, depth, back == 9));
        std::vector<Req*>          rs;
        for (auto& r : c.reqs) rs.push_back(r.get());
        uint64_t sd = g.next();
        vt::together(th, [&](size_t t) {
            size_t a = n * t / th, b = n * (t + 1) / th;
            submit_some(c, *s, rs.data() + a, b - a, sd + t, batch);
        });
        if (twice) s->wait_completions();
        if (c.aio && twice) {
            // drained kernel-backed scheduler: refuses, never calls back
            Buf  b(4096);
            bool called = false;
            auto cb     = [&](void*, int64_t) { called = true; };
            int  r1     = s->submit_pread(c.fd, b.data(), 4096, 0, nullptr, cb);
            int  r2     = s->submit_pwrite(c.fd, b.data(), 4096, 3 * kFilePages * kPage, nullptr, cb);
            std::vector<Scheduler::PReadSumission> v;
            v.emplace_back(c.fd, b.data(), 4096, 0, nullptr, cb);
            int r3 = s->submit_preads(v);
            s->wait_completions();
            VT_CHECK(r1 <= 0 && r2 <= 0 && r3 <= 0 && !called, "refuse-after-drain",
                     "after draining: pread %d, pwrite %d, preads %d, called %d", r1, r2, r3, called);
            vt::count("drained_refusals", 3);
        }
    }
    vt::count("faults_injected", iof::injected());
    iof::unwatch_all();
    vt::count(backend == "pool" ? "requests_pool" : "requests_aio", n);
    judge(c, path, faults);
    close(c.fd);
    unlink(path.c_str());
    iof::forget_transfers();
    vt::distinct(vt::hash(vt::fmt("%s%zu%zu%u%d%u%u%u%d%llu", backend.c_str(), n, th, depth, c.direct, p.partial,
                                  p.eagain, p.eintr, faults, (unsigned long long)g.s)));
    if (i < 3) vt::sample(vt::fmt("%s: %zu requests from %zu threads, queue %u", backend.c_str(), n, th, depth));
}

static void run_c02(long i, Rng& g)
{
    Ctx c;
    int back  = g.below(10);
    c.aio     = back < 6 || back == 9;
    c.direct  = g.chance(60);
    c.cbdelay = g.chance(60) ? 5 + g.below(60) : 0;
    unsigned  depth = g.chance(70) ? 1 + g.below(3) : 32;
    size_t    n     = 1 + g.below(g.chance(60) ? 12 : (vt::opts().thorough ? 300 : 120));
    size_t    th    = g.chance(40) ? 1 : 1 + g.below(8);
    bool      args  = g.chance(30);
    iof::Plan p;
    if (g.chance(75)) p.qmax = depth;
    if (g.chance(50)) p.partial = 10 + g.below(80);
    if (g.chance(50)) p.eagain = 5 + g.below(60);
    if (g.chance(45)) p.late_eagain = 5 + g.below(40);
    if (g.chance(40)) p.eintr = 5 + g.below(60);
    if (g.chance(40)) p.delay = 10 + g.below(50);
    if (g.chance(30)) p.ev_fail = g.below(40), p.rw_fail = g.below(40);
    unsigned    batch   = g.chance(30) ? 0 : g.below(101);
    bool        by_dtor = g.chance(40);
    std::string backend = back == 9 ? "default" : c.aio ? "aio" : "pool";
    vt::begin_case(i, vt::fmt("%s n=%zu threads=%zu depth=%u direct=%d batch=%u eagain=%u late=%u part=%u eintr=%u dtor=%d",
                              backend.c_str(), n, th, depth, c.direct, batch, p.eagain, p.late_eagain, p.partial,
                              p.eintr, by_dtor));
    std::string path = vt::opts().dir + vt::fmt("/io%ld", i);
    c.fd             = make_file(path, c.direct);
    c.badfd          = 1000;
    make_reqs(c, g, n, args);
    iof::watch_fd(c.fd);
    iof::set_plan(p, g.next());
    std::unique_ptr<Scheduler> s(make(c.aio, depth, back == 9));
    std::unique_ptr<Scheduler> d;
    if (g.chance(25)) d.reset(s->duplicate()); // a duplicate of a live scheduler
    std::vector<Req*> rs;
    for (auto& r : c.reqs) rs.push_back(r.get());
    uint64_t sd = g.next();
    vt::together(th, [&](size_t t) {
        size_t a = n * t / th, b = n * (t + 1) / th;
        submit_some(c, *s, rs.data() + a, b - a, sd + t, batch);
    });
    auto pending = [&] {
        size_t k = 0;
        for (auto& r : c.reqs) k += r->entered.load() != r->left.load();
        return k;
    };
    auto missing = [&] {
        size_t k = 0;
        for (auto& r : c.reqs) {
            bool accepted = r->batched ? !(c.aio && (r->bad || r->badfd)) : r->ret.load() == 1;
            k += accepted && r->left.load() == 0;
        }
        return k;
    };
    size_t before = missing();
    vt::count("outstanding_when_waiting", before);
    vt::maximum("most_outstanding_when_waiting", before);
    if (!by_dtor) {
        s->wait_completions();
        VT_CHECK(missing() == 0, "early-return", "wait returned although %zu callbacks of %zu accepted requests had not returned",
                 missing(), n);
        VT_CHECK(pending() == 0, "running-callback", "wait returned while %zu callbacks were running", pending());
        s->wait_completions(); // again: no effect
        if (c.aio) {
            Buf  b(4096);
            bool called = false;
            auto cb     = [&](void*, int64_t) { called = true; };
            int  r1     = s->submit_pread(c.fd, b.data(), 4096, 0, nullptr, cb);
            VT_CHECK(r1 <= 0 && !called, "refuse-after-drain", "a drained scheduler answered %d, called %d", r1, called);
        }
        std::unique_ptr<Scheduler> f(s->duplicate());
        if (g.chance(50)) s.reset();
        Buf              b(4096);
        std::atomic<int> called{0};
        int64_t          res = 0;
        // no faults in this probe
        iof::set_plan(iof::Plan(), 1);
        int r = f->submit_pread(c.fd, b.data(), 4096, 4096, nullptr, [&](void*, int64_t x) {
            res = x;
            called++;
        });
        f->wait_completions();
        bool same = true;
        for (size_t k = 0; k < 4096; k++) same = same && b.data()[k] == content(4096 + k);
        VT_CHECK(r == 1 && called.load() == 1 && res == 4096 && same, "duplicate",
                 "a duplicate of a drained scheduler answered %d, called back %d times with %lld", r, called.load(),
                 (long long)res);
        int again = f->submit_pread(c.fd, b.data(), 4096, 4096, nullptr, [&](void*, int64_t) { called++; });
        f->wait_completions();
        VT_CHECK((again == 1) == !c.aio, "duplicate-kind", "the duplicate of a %s scheduler behaves like another kind",
                 backend.c_str());
        vt::count("duplicates_used");
    }
    s.reset();
    VT_CHECK(missing() == 0, "early-destroy", "the destructor returned although %zu callbacks had not returned", missing());
    VT_CHECK(pending() == 0, "running-callback", "the destructor returned while %zu callbacks were running", pending());
    if (d) {
        Buf              b(4096);
        std::atomic<int> called{0};
        iof::set_plan(iof::Plan(), 1);
        int r = d->submit_pread(c.fd, b.data(), 4096, 0, nullptr, [&](void*, int64_t) { called++; });
        d.reset();
        VT_CHECK(r == 1 && called.load() == 1, "duplicate-live",
                 "a duplicate made from a live scheduler answered %d and called back %d times", r, called.load());
    }
    vt::count("faults_injected", iof::injected());
    vt::eval();
    vt::count("drains");
    iof::unwatch_all();
    judge(c, path, p.ev_fail || p.rw_fail);
    close(c.fd);
    unlink(path.c_str());
    iof::forget_transfers();
    vt::distinct(g.s);
}

// Large numbers, lengths, offsets and batches
static void run_scale(long i, Rng& g)
{
    bool        aio  = i % 2 == 0;
    int         what = static_cast<int>(i / 2 % 3);
    std::string path = vt::opts().dir + vt::fmt("/scale%ld", i);
    vt::begin_case(i, vt::fmt("%s %s", aio ? "aio" : "pool", what == 0 ? "many requests" : what == 1 ? "far offsets" : "large requests"));
    vt::distinct(vt::hash(vt::fmt("%d%d", aio, what)) ^ g.s);
    int                        fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    std::unique_ptr<Scheduler> s(make(aio, what == 0 ? 64 : 16, false));
    if (what == 0) {
        // one scheduler for more requests than 16 bits count
        constexpr size_t kPages = 64;
        size_t           n      = 65000 + g.below(9000);
        for (size_t k = 0; k < kPages; k++) {
            std::vector<unsigned char> b(kPage, static_cast<unsigned char>(k + 1));
            if (pwrite(fd, b.data(), kPage, off_t(k * kPage)) != ssize_t(kPage)) abort();
        }
        constexpr size_t kBufs = 1024; // (several requests may share a buffer: they read the same page)
        static_assert(kBufs % kPages == 0, "");
        void* mem = nullptr;
        if (posix_memalign(&mem, kPage, kBufs * kPage)) abort();
        std::vector<std::atomic<uint8_t>> calls(n);
        std::atomic<uint64_t>             wrong{0};
        std::atomic<uint64_t>             accepted{0};
        size_t                            th = 1 + g.below(3);
        uint64_t                          sd = g.next();
        auto                              cb = [&](void* d, int64_t res) {
            size_t k = reinterpret_cast<size_t>(d) - 1;
            if (res != 512 || k >= n || static_cast<unsigned char*>(mem)[(k % kBufs) * kPage] != k % kPages + 1) wrong++;
            if (k < n) calls[k]++;
        };
        vt::together(th, [&](size_t t) {
            Rng    r(sd + t);
            size_t a = n * t / th, b = n * (t + 1) / th;
            while (a < b) {
                vt::tick();
                auto buf = [&](size_t k) { return static_cast<unsigned char*>(mem) + (k % kBufs) * kPage; };
                if (r.chance(60)) {
                    size_t m = std::min<size_t>(b - a, 1 + r.below(700));
                    std::vector<Scheduler::PReadSumission> v;
                    for (size_t k = a; k < a + m; k++) v.emplace_back(fd, buf(k), 512, off_t((k % kPages) * kPage), reinterpret_cast<void*>(k + 1), cb);
                    int ret = s->submit_preads(v);
                    VT_CHECK(ret == int(m), "batch-count", "a batch of %zu returned %d", m, ret);
                    a += m;
                    accepted += m;
                    vt::maximum("largest_batch", m);
                } else {
                    int ret = s->submit_pread(fd, buf(a), 512, off_t((a % kPages) * kPage), reinterpret_cast<void*>(a + 1), cb);
                    VT_CHECK(ret == 1, "accept", "request %zu returned %d", a, ret);
                    a++;
                    accepted++;
                }
            }
        });
        s->wait_completions();
        size_t none = 0, twice = 0;
        for (auto& c : calls) {
            none += c == 0;
            twice += c > 1;
        }
        VT_CHECK(!none, "early-return", "waiting returned although %zu of %zu callbacks had not been called", none, n);
        VT_CHECK(!twice, "duplicate-callback", "%zu callbacks of %zu were called more than once", twice, n);
        s.reset();
        VT_CHECK(wrong == 0, "wrong-data", "%llu callbacks of %zu got another result, data pointer or content", (unsigned long long)wrong.load(), n);
        vt::eval(n);
        vt::count("requests_on_one_scheduler", n);
        free(mem);
    } else if (what == 1) {
        // the same place modulo 2 and 4 GiB
        const uint64_t base[] = {0, uint64_t(1) << 31, uint64_t(1) << 32, uint64_t(3) << 31, uint64_t(1) << 36};
        uint64_t       at     = kPage * g.below(1000);
        std::vector<std::unique_ptr<Buf>> b;
        std::atomic<int>                  calls{0}, bad{0};
        auto                              cb = [&](void*, int64_t r) {
            calls++;
            if (r != int64_t(kPage)) bad++;
        };
        if (ftruncate(fd, off_t(uint64_t(1) << 37))) {
            vt::count("no_large_files");
            close(fd);
            unlink(path.c_str());
            return;
        }
        for (int k = 0; k < 5; k++) {
            b.push_back(std::make_unique<Buf>(kPage));
            memset(b.back()->data(), k + 1, kPage);
            VT_CHECK(s->submit_pwrite(fd, b.back()->data(), kPage, off_t(base[k] + at), nullptr, cb) == 1, "accept", "write at %llu", (unsigned long long)(base[k] + at));
        }
        std::unique_ptr<Scheduler> s2(s->duplicate());
        s->wait_completions();
        VT_CHECK(calls == 5 && bad == 0, "lost-callback", "%d callbacks for 5 writes, %d with another count", calls.load(), bad.load());
        for (int k = 0; k < 5; k++) {
            unsigned char c[2] = {0, 0};
            if (pread(fd, c, 2, off_t(base[k] + at)) != 2) abort();
            VT_CHECK(c[0] == k + 1 && c[1] == k + 1, "write-content", "the write at offset %llu went elsewhere", (unsigned long long)(base[k] + at));
        }
        std::vector<std::unique_ptr<Buf>>      rb;
        std::vector<Scheduler::PReadSumission> v;
        for (int k = 0; k < 10; k++) {
            rb.push_back(std::make_unique<Buf>(kPage));
            if (k < 5) s2->submit_pread(fd, rb.back()->data(), kPage, off_t(base[k] + at), nullptr, cb);
            else v.emplace_back(fd, rb.back()->data(), kPage, off_t(base[k - 5] + at), nullptr, cb);
        }
        s2->submit_preads(v);
        s2->wait_completions();
        VT_CHECK(calls == 15 && bad == 0, "lost-callback", "%d callbacks for 15 requests, %d with another count", calls.load(), bad.load());
        for (int k = 0; k < 10; k++) VT_CHECK(rb[size_t(k)]->data()[0] == k % 5 + 1 && rb[size_t(k)]->data()[kPage - 1] == k % 5 + 1 && rb[size_t(k)]->guards_ok(), "read-content", "the read at offset %llu came from elsewhere", (unsigned long long)(base[k % 5] + at));
        vt::count("far_requests", 15);
        vt::eval(15);
    } else {
        // lengths around and beyond 16 bits
        const size_t len[] = {kPage, 61440, 65536, 69632, 131072, 1 << 20, (1 << 20) + 4096, 5 << 20};
        std::vector<std::unique_ptr<Buf>> b;
        std::vector<std::atomic<int64_t>> res(16);
        for (auto& x : res) x = -1;
        auto   cb  = [&](void* d, int64_t r) { res[reinterpret_cast<size_t>(d)] = r; };
        size_t off = 0;
        std::vector<size_t> offs;
        for (size_t k = 0; k < 8; k++) {
            b.push_back(std::make_unique<Buf>(len[k]));
            uint64_t x = g.next();
            for (size_t j = 0; j + 8 <= len[k]; j += 8) {
                uint64_t y = vt::splitmix(x);
                memcpy(b.back()->data() + j, &y, 8);
            }
            VT_CHECK(s->submit_pwrite(fd, b.back()->data(), len[k], off_t(off), reinterpret_cast<void*>(k), cb) == 1, "accept", "write of %zu bytes", len[k]);
            offs.push_back(off);
            off += len[k] + kPage;
        }
        std::unique_ptr<Scheduler> s2(s->duplicate());
        s->wait_completions();
        std::vector<std::unique_ptr<Buf>>      rb;
        std::vector<Scheduler::PReadSumission> v;
        for (size_t k = 0; k < 8; k++) {
            VT_CHECK(res[k] == int64_t(len[k]), "incomplete", "a write of %zu bytes reported %lld", len[k], (long long)res[k].load());
            rb.push_back(std::make_unique<Buf>(len[k]));
            if (k % 2) s2->submit_pread(fd, rb.back()->data(), len[k], off_t(offs[k]), reinterpret_cast<void*>(k + 8), cb);
            else v.emplace_back(fd, rb.back()->data(), len[k], off_t(offs[k]), reinterpret_cast<void*>(k + 8), cb);
        }
        s2->submit_preads(v);
        s2->wait_completions();
        for (size_t k = 0; k < 8; k++) {
            VT_CHECK(res[k + 8] == int64_t(len[k]), "incomplete", "a read of %zu bytes reported %lld", len[k], (long long)res[k + 8].load());
            VT_CHECK(memcmp(b[k]->data(), rb[k]->data(), len[k]) == 0 && rb[k]->guards_ok(), "read-content", "a read of %zu bytes brought something else", len[k]);
        }
        vt::count("large_requests", 16);
        vt::eval(16);
    }
    close(fd);
    unlink(path.c_str());
    iof::forget_transfers();
}

int main(int argc, char** argv)
{
    vt::init(argc, argv);
    sse::logger::set_logger(nullptr);
    bool th = vt::opts().thorough;
    if (vt::opts().mode == "c01") vt::run_cases(th ? 20000 : 700, run_c01);
    else if (vt::opts().mode == "c01scale") vt::run_cases(th ? 300 : 12, run_scale);
    else vt::run_cases(th ? 30000 : 900, run_c02);
    return vt::finish();
}
