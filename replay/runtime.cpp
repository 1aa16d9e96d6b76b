// Native implementation of the harness API: runs a harness against the real build with the inputs found by the solver.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <string>
#include <exception>
static std::map<std::string, uint64_t> in; static std::map<std::string, long> par; static int fails, allowThrow;
extern "C" {
void sym_init();
uint64_t sym_bits(const char* n, int bits) { auto it = in.find(n); uint64_t v = it == in.end() ? 0 : it->second; return bits < 64 ? v & ((1ULL << bits) - 1) : v; }
void sym_assume(int c) { if (!c) { printf("ASSUME-FAIL\n"); fflush(stdout); _Exit(fails ? 1 : 3); } }
void sym_assert_tag(int c, const char* l, uint64_t t) { if (!c) { if (fails++ < 20) printf("ASSERT-FAIL %s tag=%llu\n", l, (unsigned long long)t); fflush(stdout); } }
void sym_assert(int c, const char* l) { sym_assert_tag(c, l, 0); }
void sym_reach(const char* l) { printf("REACH %s\n", l); fflush(stdout); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_simplify(void*, size_t) {}
void sym_hint_equal(void*, const void*, size_t) {}
void sym_prune() {}
static size_t esz = 8;
void sym_vlist(void*, size_t e) { esz = e; }
uint32_t sym_vcount(const void* b, const void* e, uint32_t v, uint32_t m) { uint32_t n = 0; for (const char* p = (const char*)b; p < (const char*)e; p += esz) { uint32_t x; memcpy(&x, p, 4); if ((x & m) == (v & m)) n++; } return n; }
int sym_vcontains(const void* b, const void* e, uint32_t v, uint32_t m) { return sym_vcount(b, e, v, m) != 0; }
long sym_param(const char* n, long d) { auto it = par.find(n); return it == par.end() ? d : it->second; }
void sym_policy(const char*, int) {}
void sym_note(const char* n, uint64_t v) { if (getenv("REPLAY_NOTES")) printf("NOTE %s %lld\n", n, (long long)v); }
void sym_allow_throw(int v) { allowThrow = v; }
uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int sym_or(int a, int b) { return (a != 0) | (b != 0); }
int sym_and(int a, int b) { return (a != 0) & (b != 0); }
int sym_native() { return 1; }
int sym_uf(const char* n, uint64_t a) { auto it = in.find("uf:" + std::string(n) + ":" + std::to_string(a)); return it == in.end() ? 0 : (int)it->second; }
int sym_issym(uint64_t) { return 0; }
}
// replay FILE: first line "harness k=v ...", then lines "name value"
int main(int argc, char** argv) {
    FILE* f = fopen(argv[1], "r"); if (!f) return 4;
    char line[65536]; if (!fgets(line, sizeof line, f)) return 4;
    std::string fn; for (char* t = strtok(line, " \n"); t; t = strtok(nullptr, " \n")) { if (fn.empty()) fn = t; else if (char* e = strchr(t, '=')) par[std::string(t, e - t)] = strtol(e + 1, 0, 0); }
    while (fgets(line, sizeof line, f)) { char n[256]; unsigned long long v; if (sscanf(line, "%255s %llu", n, &v) == 2) in[n] = v; }
    fclose(f);
    void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, fn.c_str()); if (!h) { printf("no harness %s\n", fn.c_str()); return 4; }
    sym_init();
    try { h(); } catch (std::exception& e) { printf("%s %s\n", allowThrow ? "THROW" : "ASSERT-FAIL uncaught exception", e.what()); fflush(stdout); if (!allowThrow) fails++; } catch (...) { printf("%s\n", allowThrow ? "THROW" : "ASSERT-FAIL uncaught exception"); if (!allowThrow) fails++; }
    printf("DONE fails=%d\n", fails); fflush(stdout);
    _Exit(fails ? 1 : 0);
}
