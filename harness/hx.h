// Common helpers for the harness workloads.
#pragma once
#include <core/bldopts.h>
#include <assert.h>
#include <Windows.h>
#include <core/base.h>
#include <core/str.h>
#include <core/str_iter.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include "rt/rt.h"
#undef min
#undef max

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed ^ 0xD1B54A32D192ED03ull) { s = next() ^ (next() << 1); next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
    int range(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }       // inclusive
    bool chance(int pct) { return (int)below(100) < pct; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below((uint32_t)v.size())]; }
    template <class T, size_t N> const T& pick(const T (&v)[N]) { return v[below(N)]; }
};

// Text generators.
std::string utf8(uint32_t cp);
std::u32string gen_cps(Rng& r, int maxlen, int flavour = 0);       // valid code points (no NUL, no surrogates)
std::string to8(const std::u32string& s);
std::u16string to16(const std::u32string& s);
std::u32string from8(const std::string& s);                        // strict decoder for valid text
std::string esc(const std::string& s);                             // printable form for reports
std::string esc(const char* s, size_t n);
std::string esc16(const wchar_t* s, size_t n);
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) { char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof(b), f, a); va_end(a); return b; }

// A case-based check: run(rng, case) for each case.
struct Ctx {
    const char* id; uint64_t seed; uint64_t first, count; std::string scratch; std::string arg;
    uint64_t cur = 0;
    uint64_t evals = 0; std::unordered_set<uint64_t> distinct; std::map<std::string, uint64_t> stats; int samples = 0; int viols = 0;
    std::map<std::string, int> violkeys;
    void eval(const std::string& key, bool nontrivial = true) { evals++; if (nontrivial && distinct.size() < 200000) distinct.insert(std::hash<std::string>()(key)); }
    void stat(const std::string& k, uint64_t n = 1) { stats[k] += n; }
    void sample(const std::string& s) { if (samples < 6) { samples++; rt_out("@SAMPLE %s", s.c_str()); } }
    // key: stable identification of what failed (matched against known findings)
    void viol(const std::string& key, const std::string& detail) {
        viols++; if (violkeys[key]++ < 3 && viols < 60) rt_out("@VIOL %llu %s | %s", (unsigned long long)cur, key.c_str(), detail.c_str());
    }
};
extern Ctx* g_ctx;
typedef void (*case_fn)(Ctx&, Rng&);
struct Reg { Reg(const char* id, case_fn fn, void (*init)(Ctx&) = 0, void (*fini)(Ctx&) = 0); };
#define CHECK(ID) static void ID##_case(Ctx& c, Rng& r); static Reg ID##_reg(#ID, ID##_case); static void ID##_case(Ctx& c, Rng& r)
#define CHECK_INIT(ID, INIT) static void ID##_case(Ctx& c, Rng& r); static Reg ID##_reg(#ID, ID##_case, INIT); static void ID##_case(Ctx& c, Rng& r)
#define CHECK_INIT_FINI(ID, INIT, FINI) static void ID##_case(Ctx& c, Rng& r); static Reg ID##_reg(#ID, ID##_case, INIT, FINI); static void ID##_case(Ctx& c, Rng& r)
