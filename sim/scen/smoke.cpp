#include "../scenario.h"
#include <drjit-core/jit.h>
using namespace sim;
static void setup(Ctx &c) { random_policy(c.rng, true, true); }
static void run(Ctx &c) {
    setenv("DRJIT_CACHE_DIR", "simfs", 1);
    fs_set_root("simfs");
    jit_set_log_level_stderr(LogLevel::Warn);
    jit_init(1u << (uint32_t) JitBackend::LLVM);
    jit_llvm_set_block_size(64);
    int t[3];
    uint32_t n = 100 + c.rng.below(1000);
    for (int i = 0; i < 3; ++i)
        t[i] = spawn("client", [=] {
            jit_init(1u << (uint32_t) JitBackend::LLVM);
            uint32_t a = jit_var_counter(JitBackend::LLVM, n);
            uint32_t b = jit_var_add(a, a);
            uint32_t l = jit_var_u32(JitBackend::LLVM, (uint32_t) i);
            uint32_t d = jit_var_mul(b, l);
            jit_var_eval(d);
            uint32_t v; jit_var_read(d, 7, &v);
            SIM_CHECK(v == 14u * (uint32_t) i, "bad value %u", v);
            jit_var_dec_ref(a); jit_var_dec_ref(b); jit_var_dec_ref(l); jit_var_dec_ref(d);
        });
    for (int i = 0; i < 3; ++i) join(t[i]);
    jit_shutdown(0);
    pool_check_idle("end");
}
static Scenario s("smoke", setup, run);
