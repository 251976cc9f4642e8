/* A small family of programs with known results, used by the cache scenarios */
#pragma once
#include "engine.h"
namespace eng {
struct Prog {
    uint32_t n = 8, width = 8;
    uint32_t steps[6][2] = {};   ///< (operation, constant)
    uint32_t n_steps = 3;
    bool call = false;           ///< contains an indirect call
};
Prog rnd_prog(Rng &r, bool call);
uint32_t prog_expect(const Prog &p, uint32_t i);
/// Traces the program; returns an owned index of an unevaluated array
uint32_t prog_trace(const Prog &p);
/// Evaluates a traced program and compares the result
void prog_check(const Prog &p, uint32_t idx, const char *where);
extern const char *prog_domain;
void prog_register();        ///< instances used by programs with calls
// Raw file access that bypasses the simulator
std::string raw_slurp(const char *path, bool *ok = nullptr);
bool raw_spit(const char *path, const std::string &s);
std::vector<std::string> raw_list(const char *dir);
int64_t raw_mtime(const char *path);
void raw_set_mtime(const char *path, int64_t ns);
bool raw_exists(const char *path);
bool raw_regular(const char *path);
bool raw_unlink(const char *path);
void raw_mkdir(const char *path);
int64_t raw_size(const char *path);
}
