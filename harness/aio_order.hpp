// For the race detector and memcheck: a request handed to the kernel comes back in another thread.
#pragma once
#include "vt.hpp"
#if defined(VT_TSAN) || defined(VT_MEMCHECK)
#include <dlfcn.h>
#include <libaio.h>
extern "C" {
int io_submit(io_context_t c, long n, struct iocb** l)
{
    static auto real = reinterpret_cast<int (*)(io_context_t, long, struct iocb**)>(dlsym(RTLD_NEXT, "io_submit"));
    for (long i = 0; i < n; i++) vt::aio_submitting(l[i]);
    vt::AioCopies copies;
    return real(c, n, copies.get(l, n));
}
int io_getevents(io_context_t c, long m, long n, struct io_event* e, struct timespec* t)
{
    static auto real = reinterpret_cast<int (*)(io_context_t, long, long, struct io_event*, struct timespec*)>(dlsym(RTLD_NEXT, "io_getevents"));
    int         r    = real(c, m, n, e, t);
    for (int i = 0; i < r; i++) vt::aio_completed(e[i]);
    return r;
}
}
#endif
