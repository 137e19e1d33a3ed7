// What the race detector has to be told about code that it cannot see.
#pragma once
#if defined(__SANITIZE_THREAD__)
#define VT_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VT_TSAN 1
#endif
#endif

#ifdef VT_TSAN
#include <dlfcn.h>
#include <rocksdb/db.h>
#include <rocksdb/utilities/stackable_db.h>
#include <sanitizer/tsan_interface.h>

extern "C" {
void AnnotateIgnoreReadsBegin(const char* f, int l);
void AnnotateIgnoreReadsEnd(const char* f, int l);
void AnnotateIgnoreWritesBegin(const char* f, int l);
void AnnotateIgnoreWritesEnd(const char* f, int l);
}

namespace tsan_env {
// RocksDB synchronises with atomics that are not instrumented: what it does
// itself is not looked at
struct Ignore
{
    Ignore()
    {
        AnnotateIgnoreReadsBegin(__FILE__, __LINE__);
        AnnotateIgnoreWritesBegin(__FILE__, __LINE__);
    }
    ~Ignore()
    {
        AnnotateIgnoreWritesEnd(__FILE__, __LINE__);
        AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
    }
};
struct Db : rocksdb::StackableDB
{
    explicit Db(rocksdb::DB* d) : rocksdb::StackableDB(d) {}
    ~Db() override
    {
        Ignore i;
        delete db_;
        db_ = nullptr;
    }
    using rocksdb::StackableDB::Put;
    using rocksdb::StackableDB::Get;
    using rocksdb::StackableDB::Delete;
    using rocksdb::StackableDB::Flush;
    using rocksdb::StackableDB::GetIntProperty;
    rocksdb::Status Put(const rocksdb::WriteOptions& o, rocksdb::ColumnFamilyHandle* c, const rocksdb::Slice& k, const rocksdb::Slice& v) override
    {
        Ignore i;
        return db_->Put(o, c, k, v);
    }
    rocksdb::Status Get(const rocksdb::ReadOptions& o, rocksdb::ColumnFamilyHandle* c, const rocksdb::Slice& k, rocksdb::PinnableSlice* v) override
    {
        Ignore i;
        return db_->Get(o, c, k, v);
    }
    rocksdb::Status Delete(const rocksdb::WriteOptions& o, rocksdb::ColumnFamilyHandle* c, const rocksdb::Slice& k) override
    {
        Ignore i;
        return db_->Delete(o, c, k);
    }
    rocksdb::Status Write(const rocksdb::WriteOptions& o, rocksdb::WriteBatch* b) override
    {
        Ignore i;
        return db_->Write(o, b);
    }
    rocksdb::Status Flush(const rocksdb::FlushOptions& o, rocksdb::ColumnFamilyHandle* c) override
    {
        Ignore i;
        return db_->Flush(o, c);
    }
    bool GetIntProperty(rocksdb::ColumnFamilyHandle* c, const rocksdb::Slice& p, uint64_t* v) override
    {
        Ignore i;
        return db_->GetIntProperty(c, p, v);
    }
};
} // namespace tsan_env

namespace rocksdb {
Status DB::Open(const Options& o, const std::string& path, DB** db)
{
    static auto real = reinterpret_cast<Status (*)(const Options&, const std::string&, DB**)>(
        dlsym(RTLD_NEXT, "_ZN7rocksdb2DB4OpenERKNS_7OptionsERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEPPS0_"));
    Status s;
    {
        tsan_env::Ignore i;
        s = real(o, path, db);
    }
    if (s.ok()) *db = new tsan_env::Db(*db);
    return s;
}
} // namespace rocksdb

namespace vt {
inline void handed_over(void* p)
{
    __tsan_release(p);
}
inline void taken_over(void* p)
{
    __tsan_acquire(p);
}
} // namespace vt
#else
namespace vt {
inline void handed_over(void*) {}
inline void taken_over(void*) {}
} // namespace vt
#endif

// Requests that go to the kernel and come back in another thread.
#include <libaio.h>
#ifdef VT_MEMCHECK
#include <map>
#include <mutex>
#include <vector>
#include <valgrind/memcheck.h>
namespace vt {
struct AioBufs
{
    std::mutex                                m;
    std::map<void*, std::pair<void*, size_t>> reads;
};
inline AioBufs& aio_bufs()
{
    static auto* b = new AioBufs;
    return *b;
}
// (valgrind looks at the submitted structures again when they complete; the
// kernel does not, so that they may be gone by then)
struct AioCopies
{
    std::vector<struct iocb*> v;
    struct iocb** get(struct iocb** l, long n)
    {
        for (long i = 0; i < n; i++) v.push_back(new struct iocb(*l[i]));
        return v.data();
    }
};
inline void aio_submitting(struct iocb* r)
{
    std::lock_guard<std::mutex> l(aio_bufs().m);
    if (r->aio_lio_opcode == IO_CMD_PREAD) aio_bufs().reads[r->data] = {r->u.c.buf, r->u.c.nbytes};
    else {
        aio_bufs().reads.erase(r->data);
        VALGRIND_CHECK_MEM_IS_DEFINED(r->u.c.buf, r->u.c.nbytes);
    }
}
// (libaio reads completions from a ring shared with the kernel: memcheck does
// not see the kernel write the data)
inline void aio_completed(const struct io_event& e)
{
    std::lock_guard<std::mutex> l(aio_bufs().m);
    auto                        it = aio_bufs().reads.find(e.data);
    if (it == aio_bufs().reads.end()) return;
    auto n = static_cast<int64_t>(e.res);
    if (n > 0) VALGRIND_MAKE_MEM_DEFINED(it->second.first, std::min<size_t>(n, it->second.second));
    aio_bufs().reads.erase(it);
}
} // namespace vt
#else
namespace vt {
struct AioCopies
{
    struct iocb** get(struct iocb** l, long)
    {
        return l;
    }
};
inline void aio_submitting(struct iocb* r)
{
    handed_over(r->data);
}
inline void aio_completed(const struct io_event& e)
{
    taken_over(e.data);
}
} // namespace vt
#endif
