#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void sodium_memzero(void* p, size_t n);
#ifdef __cplusplus
}
#endif
