/* Interposition of libc functions: threads, clocks, processes, files, memory.
   Calls are only intercepted when they originate from a simulated thread (and,
   for files, when they refer to the scratch directory of the run). */
#include "sim.h"
#include <cerrno>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <cstdarg>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <map>
#include <string>
#include <algorithm>

using namespace sim;
namespace sim { bool from_exe(void *ra); bool is_jit_code(uintptr_t pc); }

// A fixed virtual CPU makes code generation independent of the real host
static void *(*real_dlsym)(void *, const char *) = nullptr;
static char *virtual_cpu_name() { return strdup("haswell"); }
static char *virtual_cpu_features() {
    return strdup(
        "+avx,+avx2,+bmi,+bmi2,+cmov,+crc32,+cx16,+cx8,+f16c,+fma,+fsgsbase,+fxsr,+invpcid,+lzcnt,+mmx,+movbe,"
        "+pclmul,+popcnt,+rdrnd,+sahf,+sse,+sse2,+sse3,+sse4.1,+sse4.2,+ssse3,+x87,+xsave,+xsaveopt");
}
namespace sim { uint32_t compile_count = 0; void (*fs_hook)(const char *, const char *) = nullptr; }
static int (*real_parse_ir)(void *, void *, void **, char **) = nullptr;
static int counted_parse_ir(void *ctx, void *buf, void **mod, char **err) {
    sim::compile_count++;
    return real_parse_ir(ctx, buf, mod, err);
}
extern "C" __attribute__((visibility("default"))) void *dlsym(void *h, const char *name) noexcept {
    if (!real_dlsym)
        real_dlsym = (void *(*)(void *, const char *)) dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.2.5");
    if (!strcmp(name, "LLVMGetHostCPUName")) return (void *) virtual_cpu_name;
    if (!strcmp(name, "LLVMGetHostCPUFeatures")) return (void *) virtual_cpu_features;
    void *rv = real_dlsym(h, name);
    if (!strcmp(name, "LLVMParseIRInContext") && rv) {
        real_parse_ir = (int (*)(void *, void *, void **, char **)) rv;
        return (void *) counted_parse_ir;
    }
    return rv;
}
#define REAL(name)                                                             \
    static decltype(&::name) real_##name = nullptr;                            \
    if (__builtin_expect(!real_##name, 0))                                     \
        real_##name = (decltype(&::name)) dlsym(RTLD_NEXT, #name);

namespace sim {
bool in_sim() { return self >= 0 && S && S->active; }

static char *exe_lo = nullptr, *exe_hi = nullptr;
}
extern "C" char __executable_start, etext;
namespace sim {
bool from_exe(void *ra) {
    return (char *) ra >= exe_lo && (char *) ra < exe_hi;
}

// ---- executable ranges produced by mprotect(PROT_EXEC): JIT kernels
static constexpr int MaxJit = 512;
static struct { uintptr_t lo, hi; } jit_range[MaxJit];
static int n_jit = 0;
bool is_jit_code(uintptr_t pc) {
    static __thread int last = 0;
    if (last < n_jit && pc >= jit_range[last].lo && pc < jit_range[last].hi) return true;
    for (int i = 0; i < n_jit; ++i)
        if (pc >= jit_range[i].lo && pc < jit_range[i].hi) { last = i; return true; }
    return false;
}

void interpose_init() {
    exe_lo = &__executable_start;
    exe_hi = &etext;
}

int sim_pid_override = 0;

// Time (in ns since the epoch) of the simulated wall clock
int64_t wall_ns() { return S->now_ns + S->wall_offset_ns; }
bool fill_new_memory = true;
uint64_t dev_alloc_live = 0;
}

// =====================================================================
//  Threads
// =====================================================================
extern "C" int sim_real_pthread_create(pthread_t *t, const pthread_attr_t *a,
                                       void *(*f)(void *), void *p) {
    REAL(pthread_create)
    return real_pthread_create(t, a, f, p);
}

static std::map<pthread_t, int> *tid_map = nullptr;

extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a,
                              void *(*f)(void *), void *p) {
    if (!in_sim())
        return sim_real_pthread_create(t, a, f, p);
    if (fault(F_THREAD))
        return EAGAIN;
    static int counter = 0;
    char name[24];
    snprintf(name, sizeof(name), "bg%d.%d", my_proc, counter++);
    if (!tid_map) tid_map = new std::map<pthread_t, int>();
    // a fake handle
    int tid = spawn(name, [f, p] { f(p); });
    *t = (pthread_t) (0x51000000ull + (uint64_t) tid);
    (*tid_map)[*t] = tid;
    return 0;
}

extern "C" int pthread_join(pthread_t t, void **rv) {
    if (tid_map) {
        auto it = tid_map->find(t);
        if (it != tid_map->end()) {
            join(it->second);
            if (rv) *rv = nullptr;
            return 0;
        }
    }
    REAL(pthread_join)
    return real_pthread_join(t, rv);
}

extern "C" int pthread_detach(pthread_t t) {
    if (tid_map && tid_map->count(t)) return 0;
    REAL(pthread_detach)
    return real_pthread_detach(t);
}

extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
    REAL(pthread_mutex_lock)
    if (!in_sim()) return real_pthread_mutex_lock(m);
    REAL(pthread_mutex_trylock)
    int rv;
    while ((rv = real_pthread_mutex_trylock(m)) == EBUSY)
        sim::pause();
    return rv;
}

extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) {
    REAL(pthread_mutex_unlock)
    int rv = real_pthread_mutex_unlock(m);
    if (in_sim()) progress();
    return rv;
}

extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    REAL(pthread_cond_wait)
    if (!in_sim()) return real_pthread_cond_wait(c, m);
    // A spurious wakeup is permitted: poll under the scheduler
    pthread_mutex_unlock(m);
    sim::pause();
    return pthread_mutex_lock(m);
}
extern "C" int pthread_cond_signal(pthread_cond_t *c) {
    REAL(pthread_cond_signal)
    if (in_sim()) progress();
    return real_pthread_cond_signal(c);
}
extern "C" int pthread_cond_broadcast(pthread_cond_t *c) {
    REAL(pthread_cond_broadcast)
    if (in_sim()) progress();
    return real_pthread_cond_broadcast(c);
}

// Initialisation of function-scope static variables
extern "C" int __cxa_guard_acquire(uint64_t *g) {
    uint8_t *b = (uint8_t *) g;
    while (true) {
        if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) return 0;
        uint8_t z = 0;
        if (__atomic_compare_exchange_n(&b[1], &z, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE))
            return 1;
        if (in_sim()) sim::pause(); else sched_yield();
    }
}
extern "C" void __cxa_guard_release(uint64_t *g) {
    uint8_t *b = (uint8_t *) g;
    __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE);
    __atomic_store_n(&b[1], 0, __ATOMIC_RELEASE);
    progress();
}
extern "C" void __cxa_guard_abort(uint64_t *g) {
    __atomic_store_n(&((uint8_t *) g)[1], 0, __ATOMIC_RELEASE);
    progress();
}

extern "C" int sched_yield() {
    if (in_sim()) { sim::pause(); return 0; }
    return (int) syscall(SYS_sched_yield);
}
extern "C" int usleep(useconds_t us) {
    if (in_sim()) { S->now_ns += (int64_t) us * 1000; sim::pause(); return 0; }
    REAL(usleep)
    return real_usleep(us);
}
extern "C" int nanosleep(const struct timespec *a, struct timespec *b) {
    if (in_sim()) { S->now_ns += a->tv_sec * 1000000000ll + a->tv_nsec; sim::pause(); return 0; }
    REAL(nanosleep)
    return real_nanosleep(a, b);
}

// =====================================================================
//  Clock, process id
// =====================================================================
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
    if (in_sim()) {
        uint32_t p;
        if (id == CLOCK_REALTIME && fault(F_CLOCK, &p)) {
            // jump by up to +- 2 days
            int64_t d = (int64_t) (p % 5760) - 2880;
            S->wall_offset_ns += d * 60 * 1000000000ll;
        }
        S->now_ns += 1 + (int64_t) (S->steps & 7); // no two readings are equal
        int64_t v = id == CLOCK_REALTIME ? wall_ns() : S->now_ns - 1699999000000000000ll;
        ts->tv_sec = v / 1000000000ll;
        ts->tv_nsec = v % 1000000000ll;
        return 0;
    }
    return (int) syscall(SYS_clock_gettime, id, ts);
}
extern "C" time_t time(time_t *t) noexcept {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
extern "C" pid_t getpid() noexcept {
    if (S && S->active)
        return sim_pid_override ? sim_pid_override : 1000 + my_proc;
    return (pid_t) syscall(SYS_getpid);
}

// =====================================================================
//  File system
// =====================================================================
static bool ours(const char *p) {
    return in_sim() && S->fs_root[0] && p && strncmp(p, S->fs_root, strlen(S->fs_root)) == 0;
}

static void fs_op(const char *op, const char *p) {
    const char *b = strrchr(p, '/');
    tracef("fs: %s %s", op, b ? b + 1 : p);
    if (fs_hook) fs_hook(op, p);
    if (my_proc != 0 && fault(F_CRASH)) {
        tracef("process crashes before %s", op);
        crash_self();
    }
    sync_point();
}

static int io_errno(uint32_t p, std::initializer_list<int> l) {
    return *(l.begin() + p % l.size());
}

static std::map<int, std::string> *fds = nullptr;

static void stamp(const char *path) { // gives files a simulated timestamp
    struct timespec t[2];
    int64_t v = wall_ns();
    t[0].tv_sec = t[1].tv_sec = v / 1000000000ll;
    t[0].tv_nsec = t[1].tv_nsec = v % 1000000000ll;
    syscall(SYS_utimensat, AT_FDCWD, path, t, 0);
}
static void stamp_fd(int fd) {
    struct timespec t[2];
    int64_t v = wall_ns();
    t[0].tv_sec = t[1].tv_sec = v / 1000000000ll;
    t[0].tv_nsec = t[1].tv_nsec = v % 1000000000ll;
    syscall(SYS_utimensat, fd, nullptr, t, 0);
}

extern "C" FILE *fopen64(const char *path, const char *mode) {
    REAL(fopen64)
    if (!ours(path)) return real_fopen64(path, mode);
    bool wr = mode[0] != 'r' || strchr(mode, '+');
    char op[32]; snprintf(op, sizeof(op), "open(%s)", mode);
    fs_op(op, path);
    uint32_t p;
    if (fault(F_OPEN, &p)) {
        if (wr) errno = io_errno(p, { ENOSPC, EIO, EMFILE, ENFILE, EDQUOT });
        else    errno = io_errno(p, { EIO, EMFILE, ENFILE, ESTALE, EINTR });
        return nullptr;
    }
    bool existed = access(path, F_OK) == 0;
    FILE *f = real_fopen64(path, mode);
    if (f) {
        if (!fds) fds = new std::map<int, std::string>();
        (*fds)[fileno(f)] = path;
        if (wr && (!existed || mode[0] == 'w')) stamp(path);
    }
    return f;
}
extern "C" FILE *fopen(const char *path, const char *mode) { return fopen64(path, mode); }

extern "C" int open64(const char *path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    if (ours(path) && !(flags & O_DIRECTORY)) {
        fs_op("open", path);
        uint32_t p;
        bool wr = (flags & O_ACCMODE) != O_RDONLY;
        if (fault(F_OPEN, &p)) {
            errno = wr ? io_errno(p, { ENOSPC, EIO, EMFILE }) : io_errno(p, { EIO, EMFILE });
            return -1;
        }
        int fd = (int) syscall(SYS_openat, AT_FDCWD, path, flags, m);
        if (fd >= 0) {
            if (!fds) fds = new std::map<int, std::string>();
            (*fds)[fd] = path;
            if (wr && (flags & (O_CREAT | O_TRUNC))) stamp_fd(fd);
        }
        return fd;
    }
    return (int) syscall(SYS_openat, AT_FDCWD, path, flags, m);
}
extern "C" int open(const char *path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return open64(path, flags, m);
}

static const std::string *fd_path(int fd) {
    if (!in_sim() || !fds) return nullptr;
    auto it = fds->find(fd);
    return it == fds->end() ? nullptr : &it->second;
}

extern "C" ssize_t read(int fd, void *buf, size_t n) {
    if (const std::string *p = fd_path(fd)) {
        fs_op("read", p->c_str());
        uint32_t v;
        if (fault(F_READ, &v)) { errno = EIO; return -1; }
        if (n > 1 && fault(F_SHORT_READ, &v)) n = 1 + v % (n - 1);
    }
    return syscall(SYS_read, fd, buf, n);
}

static ssize_t do_write(int fd, const void *buf, size_t n) {
    if (const std::string *p = fd_path(fd)) {
        fs_op("write", p->c_str());
        uint32_t v;
        if (fault(F_WRITE, &v)) { errno = io_errno(v, { ENOSPC, EIO, EDQUOT }); return -1; }
        if (n > 1 && fault(F_SHORT_WRITE, &v)) {
            size_t k = 1 + (v >> 3) % (n - 1);
            ssize_t rv = syscall(SYS_write, fd, buf, k);
            stamp_fd(fd);
            if (v & 1) return rv;             // plain short write
            // the remainder can't be written
            errno = ENOSPC;
            return -1;
        }
        // optionally split so that a crash can occur in between
        if (n > 64 && my_proc != 0 && S->pol.fault_p[F_CRASH] && choose(4) == 1) {
            size_t k = n / 2;
            ssize_t rv = syscall(SYS_write, fd, buf, k);
            stamp_fd(fd);
            if (rv != (ssize_t) k) return rv;
            fs_op("write(2)", p->c_str());
            ssize_t rv2 = syscall(SYS_write, fd, (const char *) buf + k, n - k);
            stamp_fd(fd);
            return rv2 < 0 ? rv : rv + rv2;
        }
        ssize_t rv = syscall(SYS_write, fd, buf, n);
        stamp_fd(fd);
        return rv;
    }
    return syscall(SYS_write, fd, buf, n);
}
extern "C" ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n); }
extern "C" ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    if (fd_path(fd)) {
        std::string tmp;
        for (int i = 0; i < cnt; ++i) tmp.append((const char *) iov[i].iov_base, iov[i].iov_len);
        return do_write(fd, tmp.data(), tmp.size());
    }
    return syscall(SYS_writev, fd, iov, cnt);
}

// Copies inside the kernel: a part at a time, so that others can look in between
static ssize_t do_copy(int out, int in, off64_t *off_in, off64_t *off_out, size_t n) {
    std::string tmp(std::min(n, (size_t) 1024), '\0');
    ssize_t r = off_in ? syscall(SYS_pread64, in, &tmp[0], tmp.size(), *off_in)
                       : syscall(SYS_read, in, &tmp[0], tmp.size());
    if (r <= 0) return r;
    ssize_t w = off_out ? syscall(SYS_pwrite64, out, tmp.data(), (size_t) r, *off_out)
                        : do_write(out, tmp.data(), (size_t) r);
    if (w < 0) return w;
    if (off_in) *off_in += w;
    else if (w < r) syscall(SYS_lseek, in, (off64_t) (w - r), SEEK_CUR);
    if (off_out) *off_out += w;
    return w;
}
extern "C" ssize_t sendfile64(int out, int in, off64_t *off, size_t n) noexcept {
    if (fd_path(out)) return do_copy(out, in, off, nullptr, n);
    return syscall(SYS_sendfile, out, in, off, n);
}
extern "C" ssize_t sendfile(int out, int in, off_t *off, size_t n) noexcept {
    return sendfile64(out, in, (off64_t *) off, n);
}
extern "C" ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
    if (const std::string *p = fd_path(out)) {
        if (oo) fs_op("write", p->c_str());
        return do_copy(out, in, oi, oo, n);
    }
    return syscall(SYS_copy_file_range, in, oi, out, oo, n, fl);
}
extern "C" ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    if (const std::string *p = fd_path(fd)) {
        fs_op("write", p->c_str());
        uint32_t v;
        if (fault(F_WRITE, &v)) { errno = io_errno(v, { ENOSPC, EIO, EDQUOT }); return -1; }
        if (n > 1 && fault(F_SHORT_WRITE, &v)) n = 1 + (v >> 3) % (n - 1);
        ssize_t rv = syscall(SYS_pwrite64, fd, buf, n, o);
        stamp_fd(fd);
        return rv;
    }
    return syscall(SYS_pwrite64, fd, buf, n, o);
}
extern "C" ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { return pwrite64(fd, buf, n, o); }
extern "C" ssize_t pread64(int fd, void *buf, size_t n, off64_t o) {
    if (const std::string *p = fd_path(fd)) {
        fs_op("read", p->c_str());
        uint32_t v;
        if (fault(F_READ, &v)) { errno = EIO; return -1; }
        if (n > 1 && fault(F_SHORT_READ, &v)) n = 1 + v % (n - 1);
    }
    return syscall(SYS_pread64, fd, buf, n, o);
}
extern "C" ssize_t pread(int fd, void *buf, size_t n, off_t o) { return pread64(fd, buf, n, o); }
extern "C" int ftruncate64(int fd, off64_t n) noexcept {
    if (const std::string *p = fd_path(fd)) {
        fs_op("truncate", p->c_str());
        uint32_t v;
        if (fault(F_WRITE, &v)) { errno = EIO; return -1; }
    }
    return (int) syscall(SYS_ftruncate, fd, n);
}
extern "C" int ftruncate(int fd, off_t n) noexcept { return ftruncate64(fd, n); }

extern "C" int fclose(FILE *f) {
    REAL(fclose)
    int fd = fileno(f);
    if (const std::string *p = fd_path(fd)) {
        fs_op("close", p->c_str());
        fds->erase(fd);
        int rv = real_fclose(f);
        uint32_t v;
        if (fault(F_CLOSE, &v)) { errno = io_errno(v, { EIO, ENOSPC, EDQUOT }); return -1; }
        return rv;
    }
    return real_fclose(f);
}
extern "C" int close(int fd) {
    if (const std::string *p = fd_path(fd)) {
        fs_op("close", p->c_str());
        fds->erase(fd);
    }
    return (int) syscall(SYS_close, fd);
}

extern "C" int link(const char *a, const char *b) noexcept {
    if (ours(b)) {
        fs_op("link", b);
        uint32_t v;
        if (fault(F_LINK, &v)) { errno = io_errno(v, { EPERM, EIO, EMLINK, ENOSPC }); return -1; }
    }
    return (int) syscall(SYS_link, a, b);
}
extern "C" int rename(const char *a, const char *b) noexcept {
    if (ours(b)) {
        fs_op("rename", b);
        uint32_t v;
        if (fault(F_LINK, &v)) { errno = io_errno(v, { EPERM, EIO, ENOSPC }); return -1; }
    }
    return (int) syscall(SYS_rename, a, b);
}
extern "C" int unlink(const char *a) noexcept {
    if (ours(a)) {
        fs_op("unlink", a);
        uint32_t v;
        if (fault(F_UNLINK, &v)) { errno = io_errno(v, { EIO, EBUSY, EACCES }); return -1; }
    }
    return (int) syscall(SYS_unlink, a);
}
extern "C" int remove(const char *a) noexcept {
    if (ours(a)) {
        fs_op("remove", a);
        uint32_t v;
        if (fault(F_UNLINK, &v)) { errno = io_errno(v, { EIO, EBUSY, EACCES }); return -1; }
        int rv = (int) syscall(SYS_unlink, a);
        if (rv && (errno == EISDIR || errno == EPERM)) rv = (int) syscall(SYS_rmdir, a);
        return rv;
    }
    int rv = (int) syscall(SYS_unlink, a);
    if (rv && errno == EISDIR) rv = (int) syscall(SYS_rmdir, a);
    return rv;
}
extern "C" int unlinkat(int d, const char *a, int fl) noexcept {
    return (int) syscall(SYS_unlinkat, d, a, fl);
}
static int do_stat(const char *p, struct stat *st, int flags) {
    if (ours(p)) {
        fs_op("stat", p);
        uint32_t v;
        if (fault(F_STAT, &v)) { errno = io_errno(v, { EIO, EACCES, ESTALE, ENOMEM }); return -1; }
    }
    return (int) syscall(SYS_newfstatat, AT_FDCWD, p, st, flags);
}
extern "C" int stat(const char *p, struct stat *st) noexcept { return do_stat(p, st, 0); }
extern "C" int lstat(const char *p, struct stat *st) noexcept { return do_stat(p, st, AT_SYMLINK_NOFOLLOW); }
extern "C" int stat64(const char *p, struct stat64 *st) noexcept { return do_stat(p, (struct stat *) st, 0); }
extern "C" int lstat64(const char *p, struct stat64 *st) noexcept { return do_stat(p, (struct stat *) st, AT_SYMLINK_NOFOLLOW); }

extern "C" int utimensat(int d, const char *p, const struct timespec t[2], int fl) noexcept {
    if (ours(p)) {
        fs_op("utimens", p);
        uint32_t v;
        if (fault(F_UTIME, &v)) { errno = io_errno(v, { EPERM, EIO }); return -1; }
    }
    return (int) syscall(SYS_utimensat, d, p, t, fl);
}
extern "C" int chmod(const char *p, mode_t m) noexcept {
    if (ours(p)) {
        fs_op("chmod", p);
        uint32_t v;
        if (fault(F_CHMOD, &v)) { errno = EPERM; return -1; }
    }
    return (int) syscall(SYS_chmod, p, m);
}
extern "C" int fchmodat(int d, const char *p, mode_t m, int fl) noexcept {
    if (ours(p)) {
        fs_op("chmod", p);
        uint32_t v;
        if (fault(F_CHMOD, &v)) { errno = EPERM; return -1; }
    }
    (void) fl;
    return (int) syscall(SYS_fchmodat, d, p, m);
}
extern "C" int mkdir(const char *p, mode_t m) noexcept {
    if (ours(p)) {
        fs_op("mkdir", p);
        uint32_t v;
        if (fault(F_MKDIR, &v)) { errno = io_errno(v, { EACCES, ENOSPC, EROFS }); return -1; }
    }
    return (int) syscall(SYS_mkdir, p, m);
}

// Directory listings: snapshot, sorted, then permuted by the simulator
struct Listing { std::vector<struct dirent64> e; size_t pos = 0; };
static std::map<DIR *, Listing> *listings = nullptr;

static struct dirent64 *next_entry(DIR *d) {
    REAL(readdir64)
    if (!listings) listings = new std::map<DIR *, Listing>();
    auto it = listings->find(d);
    if (it == listings->end()) {
        it = listings->emplace(d, Listing{}).first;
        if (fs_hook) fs_hook("listing", "");
        Listing &l = it->second;
        while (struct dirent64 *e = real_readdir64(d)) {
            struct dirent64 c;
            memset(&c, 0, sizeof(c));
            memcpy(&c, e, std::min((size_t) e->d_reclen, sizeof(c)));
            l.e.push_back(c);
        }
        std::sort(l.e.begin(), l.e.end(), [](const struct dirent64 &a, const struct dirent64 &b) {
            return strcmp(a.d_name, b.d_name) < 0; });
        for (size_t i = l.e.size(); i > 1; --i)
            std::swap(l.e[i - 1], l.e[i - 1 - choose((uint32_t) i)]);
    }
    Listing &l = it->second;
    if (l.pos >= l.e.size()) return nullptr;
    sync_point();
    uint32_t v;
    if (fault(F_READDIR, &v)) { errno = EIO; return nullptr; }
    return &l.e[l.pos++];
}
extern "C" struct dirent64 *readdir64(DIR *d) {
    if (in_sim()) return next_entry(d);
    REAL(readdir64)
    return real_readdir64(d);
}
extern "C" struct dirent *readdir(DIR *d) {
    if (in_sim()) return (struct dirent *) next_entry(d);
    REAL(readdir)
    return real_readdir(d);
}
extern "C" int closedir(DIR *d) {
    if (listings) listings->erase(d);
    REAL(closedir)
    return real_closedir(d);
}

// =====================================================================
//  Memory
// =====================================================================
extern "C" void *__libc_memalign(size_t, size_t);
namespace sim { bool alloc_faults_here = false; }
/// Memory that the library currently holds: blocks with an alignment of 64 bytes
/// and large mappings
namespace sim {
size_t sys_live = 0, sys_peak = 0, sys_refused = 0, sys_live_refused = 0;
static const size_t SysN = 1 << 16;
static struct { uintptr_t p; size_t n; } sys_tab[SysN];
static size_t sys_count = 0;
static std::atomic_flag sys_lock = ATOMIC_FLAG_INIT;
static size_t sys_slot(uintptr_t p) { return (size_t) ((p >> 6) * 0x9E3779B97F4A7C15ull >> 48) & (SysN - 1); }
static void sys_add(void *p, size_t n) {
    while (sys_lock.test_and_set()) { }
    if (sys_count < SysN / 2) {
        size_t i = sys_slot((uintptr_t) p);
        while (sys_tab[i].p) i = (i + 1) & (SysN - 1);
        sys_tab[i].p = (uintptr_t) p; sys_tab[i].n = n;
        sys_count++;
    }
    sys_live += n;
    if (sys_live > sys_peak) sys_peak = sys_live;
    sys_lock.clear();
}
static void sys_remove(void *p) {
    if (!sys_count || ((uintptr_t) p & 63)) return;
    while (sys_lock.test_and_set()) { }
    size_t i = sys_slot((uintptr_t) p);
    while (sys_tab[i].p && sys_tab[i].p != (uintptr_t) p) i = (i + 1) & (SysN - 1);
    if (sys_tab[i].p) {
        sys_live -= sys_tab[i].n;
        sys_count--;
        size_t j = i;
        sys_tab[i].p = 0;
        for (;;) { // close the gap
            j = (j + 1) & (SysN - 1);
            if (!sys_tab[j].p) break;
            size_t k = sys_slot(sys_tab[j].p);
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            sys_tab[i] = sys_tab[j];
            sys_tab[j].p = 0;
            i = j;
        }
    }
    sys_lock.clear();
}
size_t sys_size(void *p) {
    while (sys_lock.test_and_set()) { }
    size_t i = sys_slot((uintptr_t) p), n = 0;
    while (sys_tab[i].p && sys_tab[i].p != (uintptr_t) p) i = (i + 1) & (SysN - 1);
    if (sys_tab[i].p) n = sys_tab[i].n;
    sys_lock.clear();
    return n;
}
static bool refuse() { sys_refused++; sys_live_refused = sys_live; return true; }
}
extern "C" void __libc_free(void *);
extern "C" void free(void *p) noexcept {
    if (p) sim::sys_remove(p);
    __libc_free(p);
}
extern "C" int munmap(void *p, size_t n) noexcept {
    if (n >= (1u << 21)) sim::sys_remove(p);
    return (int) syscall(SYS_munmap, p, n);
}
/// Allocations fail once, or several times in a row
static bool alloc_fault() {
    if (alloc_fail_left && !faults_off) { alloc_fail_left--; return refuse(); }
    if (alloc_fail_at && !faults_off && --alloc_fail_at == 0) {
        S->fault_count[F_ALLOC]++;
        tracef("fault injected: alloc_fail (armed)");
        alloc_fail_left = alloc_fail_more;
        return refuse();
    }
    uint32_t v;
    if (!fault(F_ALLOC, &v)) return false;
    alloc_fail_left = v % 5;
    return refuse();
}
extern "C" int posix_memalign(void **out, size_t align, size_t size) noexcept {
    bool dev = in_sim() && from_exe(__builtin_return_address(0));
    if (dev) {
        if ((align == 64 || alloc_faults_here) && alloc_fault())
            return ENOMEM;
        sync_point();
    }
    void *p = __libc_memalign(align, size);
    if (!p) return ENOMEM;
    if (dev && size <= (1u << 20))
        memset(p, 0xCD, size);
    if (dev && align == 64) sys_add(p, size);
    *out = p;
    return 0;
}


extern "C" void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) noexcept {
    if (in_sim() && from_exe(__builtin_return_address(0)) && n >= (1u << 21)) {
        if (flags & MAP_HUGETLB) { errno = ENOMEM; return MAP_FAILED; }
        if (alloc_fault()) { errno = ENOMEM; return MAP_FAILED; }
        void *p = (void *) syscall(SYS_mmap, a, n, prot, flags, fd, off);
        if (p != MAP_FAILED) sys_add(p, n);
        return p;
    }
    return (void *) syscall(SYS_mmap, a, n, prot, flags, fd, off);
}
extern "C" void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t off) noexcept {
    return mmap(a, n, prot, flags, fd, off);
}
extern "C" int mprotect(void *a, size_t n, int prot) noexcept {
    if ((prot & PROT_EXEC) && from_exe(__builtin_return_address(0))) {
        int i = 0;
        for (; i < n_jit; ++i)
            if (jit_range[i].lo == (uintptr_t) a) break;
        if (i < MaxJit) {
            jit_range[i].lo = (uintptr_t) a;
            jit_range[i].hi = (uintptr_t) a + n;
            if (i == n_jit) n_jit++;
        }
    }
    return (int) syscall(SYS_mprotect, a, n, prot);
}
