// Native runtime of the harness API: replays a solver model (SX_MODEL: lines "value name") or a
// random assignment (SX_RANDOM: seed) against the real code compiled by the normal compiler.
// exit 0: ran to completion; 77: an assertion failed; 78: an assumption does not hold.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <fstream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>
#include <omp.h>
static std::map<std::string, uint64_t> model; static std::map<std::string, unsigned> cnt; static std::vector<uint64_t> params;
static bool rnd = false; static std::mt19937_64 rng;
static std::string uniq(const char *n) { unsigned k = cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
extern "C" {
uint64_t sx_int(const char *name, uint64_t lo, uint64_t hi) { std::string n = uniq(name); if (rnd) return lo + rng() % (hi - lo + 1); auto f = model.find(n); return f == model.end() ? lo : f->second; }
uint64_t sx_bv(const char *name, int bits) { std::string n = uniq(name); uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1; if (rnd) { uint64_t v = rng(); if (rng() % 3 == 0) v %= 16; return v & m; } auto f = model.find(n); return f == model.end() ? 0 : f->second & m; }
void sx_assume(int c) { if (!c) _exit(78); }
void sx_assert(int c, const char *msg) { if (!c) { fprintf(stderr, "SXFAIL %s\n", msg); _exit(77); } }
void sx_check_eq(uint64_t a, uint64_t b, const char *msg) { if (a != b) { fprintf(stderr, "SXFAIL %s (got %llu, expected %llu)\n", msg, (unsigned long long) a, (unsigned long long) b); _exit(77); } }
void sx_cover(const char *msg) { fprintf(stderr, "SXCOVER %s\n", msg); }
uint64_t sx_param(int i) { return params.at(i); }
void sx_print(const char *m, uint64_t v) { fprintf(stderr, "SXPRINT %s %llx\n", m, (unsigned long long) v); }
uint64_t sx_heap_mark() { return 0; }
void sx_heap_check(uint64_t, const char *) {}
void sx_threads(uint64_t n) { omp_set_num_threads((int) n); }
void sx_limit(const void *, uint64_t) {}
void sx_owned(const void *p, uint64_t n) { volatile char s = 0; for (uint64_t i = 0; i < n; i++) s += ((const char *) p)[i]; }
void sx_exit_ok() { _exit(0); }
}
int main(int argc, char **argv) {
    if (argc < 2) return 2;
    { std::stringstream s(argc > 2 ? argv[2] : ""); std::string t; while (getline(s, t, ',')) if (!t.empty()) params.push_back((uint64_t) std::stoll(t)); }
    if (const char *f = getenv("SX_MODEL")) { std::ifstream in(f); std::string n; uint64_t v; while (in >> v && in.get() && getline(in, n)) model[n] = v; }
    if (const char *r = getenv("SX_RANDOM")) { rnd = true; rng.seed(std::stoull(r)); }
    if (const char *t = getenv("SX_THREADS")) omp_set_num_threads(atoi(t)); else omp_set_num_threads(4);
    auto fn = (void (*)()) dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
    if (!freopen("/dev/null", "w", stdout)) return 2;
    fn();
    fprintf(stderr, "SXDONE\n");
    _exit(0);
}
