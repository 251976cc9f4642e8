#include "progs.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>
#include <ctime>
namespace eng {
const char *prog_domain = "Prog";
Prog rnd_prog(Rng &r, bool call) {
    Prog p;
    p.n = r.range(3, 70);
    p.n_steps = r.range(2, 6);
    for (uint32_t i = 0; i < p.n_steps; ++i) {
        p.steps[i][0] = r.below(6);
        p.steps[i][1] = (uint32_t) r.next() | 1;
    }
    p.call = call;
    return p;
}
static uint32_t step(uint32_t x, uint32_t op, uint32_t c) {
    switch (op) {
        case 0: return x + c;
        case 1: return x * c;
        case 2: return x ^ c;
        case 3: return x - (x >> (c % 31 + 1));
        case 4: return x < c ? x : x & c;
        default: return x | (c >> 16);
    }
}
uint32_t prog_expect(const Prog &p, uint32_t i) {
    uint32_t x = i;
    for (uint32_t s = 0; s < p.n_steps; ++s) x = step(x, p.steps[s][0], p.steps[s][1]);
    if (p.call) {
        uint32_t self = i % 3;
        x = self == 0 ? 0 : self == 1 ? x * 3 + p.steps[0][1] : x ^ p.steps[1][1];
    }
    return x;
}
static uint32_t lit32(uint32_t v) { return jit_var_u32(B, v); }
static uint32_t trace_step(uint32_t x, uint32_t op, uint32_t c) {
    switch (op) {
        case 0: { Ref k(lit32(c)); return jit_var_add(x, k); }
        case 1: { Ref k(lit32(c)); return jit_var_mul(x, k); }
        case 2: { Ref k(lit32(c)); return jit_var_xor(x, k); }
        case 3: { Ref k(lit32(c % 31 + 1)), s(jit_var_shr(x, k)); return jit_var_sub(x, s); }
        case 4: { Ref k(lit32(c)), m(jit_var_lt(x, k)), a(jit_var_and(x, k)); return jit_var_select(m, x, a); }
        default: { Ref k(lit32(c >> 16)); return jit_var_or(x, k); }
    }
}
static int inst_obj[2];
void prog_register() {
    for (int i = 0; i < 2; ++i) {
        uint32_t id = jit_registry_put("LLVM", prog_domain, &inst_obj[i]);
        SIM_CHECK(id == (uint32_t) i + 1, "first registered instances have the identifier %u", id);
    }
}
uint32_t prog_trace(const Prog &p) {
    uint32_t x = jit_var_counter(B, p.n);
    Ref lane(jit_var_counter(B, p.n));
    for (uint32_t s = 0; s < p.n_steps; ++s) {
        uint32_t y = trace_step(x, p.steps[s][0], p.steps[s][1]);
        jit_var_dec_ref(x);
        x = y;
    }
    if (!p.call) return x;
    Ref three(lit32(3)), self(jit_var_mod(lane, three)), mask(jit_var_bool(B, true));
    uint32_t chk[3], rv[2], ids[2] = { 1, 2 }, out = 0;
    jit_new_scope(B);
    uint32_t cp = jit_record_begin(B, prog_domain);
    uint32_t scope = jit_new_scope(B);
    uint32_t in = jit_var_call_input(x);
    {
        uint32_t m = jit_var_call_mask(B);
        jit_var_mask_push(B, m);
        jit_var_dec_ref(m);
        for (uint32_t i = 0; i < 2; ++i) {
            jit_set_scope(B, scope);
            chk[i] = jit_record_checkpoint(B);
            uint32_t old_val = 0, old_idx = 0;
            jit_var_self(B, &old_val, &old_idx);
            if (old_idx) jit_var_inc_ref(old_idx);
            jit_var_set_self(B, i + 1, 0);
            if (i == 0) {
                Ref k(lit32(p.steps[0][1])), c3(lit32(3)), a(jit_var_mul(in, c3));
                rv[0] = jit_var_add(a, k);
            } else {
                Ref k(lit32(p.steps[1][1]));
                rv[1] = jit_var_xor(in, k);
            }
            jit_var_set_self(B, old_val, old_idx);
            if (old_idx) jit_var_dec_ref(old_idx);
        }
        jit_set_scope(B, scope);
        chk[2] = jit_record_checkpoint(B);
        jit_var_mask_pop(B);
    }
    jit_new_scope(B);
    jit_var_call(prog_domain, false, self, mask, 2, 2, ids, 1, &in, 2, rv, chk, &out);
    jit_var_dec_ref(in);
    jit_var_dec_ref(rv[0]);
    jit_var_dec_ref(rv[1]);
    jit_record_end(B, cp, 0);
    jit_var_dec_ref(x);
    return out;
}
void prog_check(const Prog &p, uint32_t idx, const char *where) {
    void *ptr = nullptr;
    Ref e(jit_var_data(idx, &ptr));
    jit_sync_thread();
    const uint32_t *d = (const uint32_t *) ptr;
    SIM_CHECK(jit_var_size(e) == p.n, "%s: result has %zu entries instead of %u", where, jit_var_size(e), p.n);
    for (uint32_t i = 0; i < p.n; ++i)
        SIM_CHECK(d[i] == prog_expect(p, i), "%s: wrong result: entry %u is %u instead of %u", where, i, d[i], prog_expect(p, i));
}

// ------------------------------------------------------------------ raw files
std::string raw_slurp(const char *path, bool *ok) {
    std::string s;
    int fd = (int) syscall(SYS_openat, AT_FDCWD, path, O_RDONLY | O_NONBLOCK);
    if (ok) *ok = fd >= 0;
    if (fd < 0) return s;
    char buf[8192];
    long n;
    while ((n = syscall(SYS_read, fd, buf, sizeof(buf))) > 0) s.append(buf, (size_t) n);
    if (n < 0 && ok) *ok = false;
    syscall(SYS_close, fd);
    return s;
}
bool raw_spit(const char *path, const std::string &s) {
    int fd = (int) syscall(SYS_openat, AT_FDCWD, path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0) return false;
    long n = syscall(SYS_write, fd, s.data(), s.size());
    syscall(SYS_close, fd);
    raw_set_mtime(path, wall_ns());
    return n == (long) s.size();
}
std::vector<std::string> raw_list(const char *dir) {
    std::vector<std::string> rv;
    int fd = (int) syscall(SYS_openat, AT_FDCWD, dir, O_RDONLY | O_DIRECTORY);
    if (fd < 0) return rv;
    char buf[4096];
    long n;
    while ((n = syscall(SYS_getdents64, fd, buf, sizeof(buf))) > 0)
        for (long o = 0; o < n;) {
            struct D { uint64_t ino; int64_t off; uint16_t len; uint8_t type; char name[1]; };
            D *d = (D *) (buf + o);
            o += d->len;
            if (strcmp(d->name, ".") && strcmp(d->name, "..")) rv.push_back(d->name);
        }
    syscall(SYS_close, fd);
    std::sort(rv.begin(), rv.end());
    return rv;
}
static bool raw_stat(const char *path, struct stat &st) {
    return syscall(SYS_newfstatat, AT_FDCWD, path, &st, AT_SYMLINK_NOFOLLOW) == 0;
}
int64_t raw_mtime(const char *path) {
    struct stat st;
    if (!raw_stat(path, st)) return -1;
    return st.st_mtim.tv_sec * 1000000000ll + st.st_mtim.tv_nsec;
}
int64_t raw_size(const char *path) {
    struct stat st;
    return raw_stat(path, st) ? (int64_t) st.st_size : -1;
}
void raw_set_mtime(const char *path, int64_t v) {
    struct timespec t[2];
    t[0].tv_sec = t[1].tv_sec = v / 1000000000ll;
    t[0].tv_nsec = t[1].tv_nsec = v % 1000000000ll;
    syscall(SYS_utimensat, AT_FDCWD, path, t, AT_SYMLINK_NOFOLLOW);
}
bool raw_exists(const char *path) { struct stat st; return raw_stat(path, st); }
bool raw_regular(const char *path) { struct stat st; return raw_stat(path, st) && S_ISREG(st.st_mode); }
bool raw_unlink(const char *path) {
    return syscall(SYS_unlinkat, AT_FDCWD, path, 0) == 0 || syscall(SYS_unlinkat, AT_FDCWD, path, AT_REMOVEDIR) == 0;
}
void raw_mkdir(const char *path) { syscall(SYS_mkdirat, AT_FDCWD, path, 0755); }
}
