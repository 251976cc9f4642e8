/* Model-based workload engine: client threads issue random API operations and
   keep an exact sequential reference of every variable they own. */
#pragma once
#include "../scenario.h"
#include <drjit-core/jit.h>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace eng {
using namespace sim;
typedef std::vector<uint64_t> Vec;
constexpr JitBackend B = JitBackend::LLVM;

// ---------------------------------------------------------------- scalar model
bool is_float(VarType t);
bool is_int(VarType t);        ///< signed/unsigned integers, not bool
bool is_signed(VarType t);
uint32_t tsize(VarType t);
uint32_t tbits(VarType t);
uint64_t wrap(VarType t, uint64_t v);
int64_t sext(VarType t, uint64_t v);
double to_d(VarType t, uint64_t bits);
/// Returns false if 'd' is not exactly representable (or too large to stay exact)
bool from_d(VarType t, double d, uint64_t &bits);
bool same(VarType t, uint64_t a, uint64_t b);
uint64_t load(VarType t, const void *p, size_t i);
void store(VarType t, void *p, size_t i, uint64_t v);
/// Apply a reduction operator. Returns false if not exact
bool red(VarType t, ReduceOp op, uint64_t a, uint64_t b, uint64_t &out);
uint64_t red_identity(VarType t, ReduceOp op);
bool can_red(VarType t, ReduceOp op);
uint64_t rnd_value(Rng &r, VarType t);
extern const char *opname(ReduceOp op);

struct Slot {
    uint32_t idx = 0;
    VarType vt = VarType::UInt32;
    Vec v;
    /// Pending (unevaluated) side effects: 0 none, 1 plain writes, 2+op reductions
    int pend = 0;
    std::vector<char> touched;
    /// Created by jit_var_shrink(): shares the storage of another variable, so
    /// that writes must go to a private copy
    bool view = false;
    size_t n() const { return v.size(); }
};

/// Weight of each operation category
enum Cat {
    MAKE, ARITH, GATHER, SCATTER, ATOMIC, PRIM, RAW, SCHED, ALIAS, CTRL, SHARE,
    VERIFY, FLUSH, MASK, LARRAY, HOST, EVENT, DEBUG, CALLBACK, FLAGS, HIST, FAIL, STATE, FREEZE, CAT_COUNT
};

struct Profile {
    uint32_t w[CAT_COUNT] = {};
    uint32_t clients_min = 1, clients_max = 3;
    uint32_t ops_min = 6, ops_max = 30;
    uint32_t size_max = 1500;
    bool share = false;
    bool faults = false;      ///< operations may fail with an exception
    bool random_flags = true;
    uint32_t flags_on = 0, flags_off = 0; ///< forced flags
    uint32_t max_slots = 10;
    bool small_types = false; ///< restrict to 32-bit integers (faster compiles)
    int light_shutdowns = 0;
    bool final_shutdown = true;
    uint32_t adversary = 250;   ///< per mille of the runs: released memory is overwritten at once
};

struct World;
struct EventRec { JitEvent e = nullptr; bool recorded = false, timing = false; uint64_t after = 0;
    std::shared_ptr<std::vector<uint8_t>> copy; Vec expect; VarType vt; };
struct CbRec;
struct HostRec;
struct Client {
    Client();
    ~Client();
    std::vector<std::unique_ptr<EventRec>> ev;
    uint64_t host_seq = 0, host_done = 0;
    World *w = nullptr;
    int id = 0;
    Rng rng{1};
    std::vector<Slot> s;
    uint32_t sizes[3];        ///< sizes this client works with
    uint32_t n_ops = 0;
    uint32_t flags = 0;
    bool in_symbolic = false;
    bool failed_op = false;

    Slot *pick(Rng &r, bool (*pred)(const Slot &) = nullptr);
    Slot *pick_t(Rng &r, VarType t, size_t n = 0, bool allow_scalar = true);
    Slot &add(uint32_t idx, VarType vt, Vec &&v);
    void release(size_t i);
    void settle(Slot &sl);    ///< evaluate pending side effects of a slot
    void refresh(Slot &sl);   ///< update 'pend'
    void own(Slot &sl);       ///< replace views by a private copy before writing
};

struct CbRec;
struct HostRec;
struct FrzRec;
struct World {
    std::vector<std::shared_ptr<FrzRec>> frz;    ///< recorded functions
    uint32_t kernel_flushes = 0;
    std::vector<std::unique_ptr<CbRec>> cb;      ///< variable callbacks
    std::vector<std::unique_ptr<HostRec>> host;  ///< host functions
    uint64_t hist_jit = 0, hist_other = 0, hist_miss = 0, hist_disk = 0;
    bool hist_off = false;
    std::map<std::string, std::string> hist_ir;
    World();
    ~World();
    Profile p;
    uint64_t seed;
    std::vector<Slot> shared;
    uint64_t host_calls = 0;
    uint32_t checks = 0;
};

/// Compare a variable with its reference using a random access path
void verify(Client &c, Rng &r, Slot &s, int how = -1);
void verify_mem(const Slot &s, const void *p, const char *how);

/// Executes one random operation of the category. Returns false if inapplicable
bool do_op(Client &c, Rng &r, Cat cat);
typedef bool (*OpFn)(Client &, Rng &);
struct OpReg { OpReg(Cat cat, OpFn fn, const char *name, uint32_t weight = 1); };
#define ENG_OP(cat, name, weight)                                              \
    static bool name(Client &c, Rng &r);                                       \
    static OpReg reg_##name(cat, name, #name, weight);                         \
    static bool name(Client &c, Rng &r)

/// Helpers that create variables; the results are owned by the caller
uint32_t var_from(VarType t, const Vec &v, Rng &r);
uint32_t lit(VarType t, uint64_t bits, size_t n = 1);
uint32_t mask_true(size_t n = 1);
struct Ref {
    uint32_t i;
    Ref(uint32_t i = 0) : i(i) {}
    Ref(const Ref &) = delete;
    Ref(Ref &&o) : i(o.i) { o.i = 0; }
    Ref &operator=(Ref &&o) { std::swap(i, o.i); return *this; }
    ~Ref() { if (i) jit_var_dec_ref(i); }
    operator uint32_t() const { return i; }
    uint32_t release() { uint32_t r = i; i = 0; return r; }
};

uint32_t make_index(Client &c, Rng &r, uint32_t n, uint32_t m, bool unique, Vec &v);
uint32_t make_mask(Client &c, Rng &r, uint32_t n, Vec &v);
VarType rnd_type(Client &c, Rng &r, bool with_float = true, bool with_bool = false);
uint32_t rnd_size(Client &c, Rng &r);

/// Whole run: initialise, spawn clients, verify, shut down, check for leaks
void setup(Ctx &c, const Profile &p, bool step_ok = true);
void run(Ctx &c, const Profile &p);
void client_main(Client &c);
void lib_init(Rng &r, uint32_t adversary = 250);
void lib_config(Rng &r);
void adversary_init(Rng &r, uint32_t permille);
uint32_t random_flags(Rng &r, const Profile &p);
/// Full shutdown with leak checks
void final_checks(bool expect_clean = true);
extern uint32_t warn_count;
extern char warn_text[512];
void log_capture();
/// End of a client thread / of the whole workload (ops_misc.cpp)
void client_end(Client &c);
void world_end(World &w);
/// Instances that are called by structured programs (ops_ctrl.cpp)
void ctrl_start();
void ctrl_end();

}
