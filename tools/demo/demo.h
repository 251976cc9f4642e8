#pragma once
#include <drjit-core/jit.h>
#include "pool.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#include <atomic>
static const JitBackend B = JitBackend::LLVM;
static inline uint32_t lit(VarType t, uint64_t v, size_t n = 1) { return jit_var_literal(B, t, &v, n, 0); }
static inline uint32_t u32(uint32_t v, size_t n = 1) { return lit(VarType::UInt32, v, n); }
static inline uint32_t mask1() { return lit(VarType::Bool, 1, 1); }
template <typename T> static uint32_t mem(VarType t, const std::vector<T> &v) {
    return jit_var_mem_copy(B, t, v.data(), v.size(), 1);
}
template <typename T> static std::vector<T> get(uint32_t i) {
    void *p; uint32_t d = jit_var_data(i, &p); jit_sync_thread();
    std::vector<T> r((T *) p, (T *) p + jit_var_size(d));
    jit_var_dec_ref(d);
    return r;
}
#define EXPECT(c, ...) do { if (!(c)) { fprintf(stderr, "FAIL: " __VA_ARGS__); fprintf(stderr, "\n"); _Exit(1); } } while (0)
