// Happens-before race detector for the "race" build: gcc's thread-sanitizer instrumentation calls the __tsan_* functions
// below; vector clocks follow mutexes, events, threads, atomics and volatiles. Also delays threads at random at those points.
// This file itself is not instrumented.
#include <winsock2.h>
#include <windows.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "rt.h"
#include "race.h"
#ifdef VERIF_RACE
typedef unsigned char u8; typedef uint32_t u32; typedef uint64_t u64; typedef uintptr_t up;
enum { NT = 64 };
struct VC { u32 c[NT]; };
struct Cell { u64 pc; u32 clock; u8 tid, mask, write, used; };
struct Gran { u64 key; Cell cell[4]; };
struct Thread { VC vc; u8 tid; bool live, known; u64 rnd; void (*once)(void); void* once_key; };
static Thread s_thr[NT]; static u32 s_last[NT]; static int s_next = 1; static DWORD s_tls; static volatile long s_lk; static bool s_on;
enum { GN = 1 << 19, SN = 1 << 17 };
static Gran* s_g; struct Sync { u64 key; VC vc; }; static Sync** s_sync; static u32 s_nsync;
static u64 s_seed = 1; static u32 s_delay; RaceCounts g_race;
static void lock() { int n = 0; while (InterlockedExchange(&s_lk, 1)) if (++n > 50) SwitchToThread(); } static void unlock() { InterlockedExchange(&s_lk, 0); }
static u64 hash(u64 x) { x ^= x >> 31; x *= 0x9e3779b97f4a7c15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; return x ^ (x >> 32); }
static Thread* self() {
    DWORD e = GetLastError(); Thread* t = (Thread*)TlsGetValue(s_tls); if (t) { SetLastError(e); return t; }
    lock(); int i = s_next; for (int k = 0; k < NT; k++, i = (i + 1) % NT) if (!s_thr[i].live) break;
    if (s_thr[i].live) { unlock(); rt_out("@HARNESS too many threads"); ExitProcess(3); }
    s_next = (i + 1) % NT; t = &s_thr[i]; memset(&t->vc, 0, sizeof(t->vc)); t->tid = (u8)i; t->live = true; t->known = false; t->vc.c[i] = ++s_last[i]; t->rnd = hash(s_seed + i * 977 + s_last[i]); g_race.threads++; unlock();
    TlsSetValue(s_tls, t); SetLastError(e); return t;
}
static u64 rnd(Thread* t) { t->rnd ^= t->rnd << 13; t->rnd ^= t->rnd >> 7; t->rnd ^= t->rnd << 17; return t->rnd; }
static void perturb(Thread* t, u32 weight) {     // weight: how likely, in 1/65536 for each unit of delay
    if (!s_delay) return; u64 x = rnd(t); if ((x & 0xffff) >= weight * s_delay) return; g_race.delays++; DWORD e = GetLastError();
    switch ((x >> 20) & 7) { case 0: case 1: case 2: SwitchToThread(); break; case 3: case 4: Sleep(0); break; case 5: for (volatile int i = 0; i < 3000; i = i + 1) ; break; case 6: Sleep(1); break; default: Sleep((x >> 30) % 5); }
    SetLastError(e);
}
static Sync* sync_of(u64 key, bool make) {
    for (u64 h = hash(key);; h++) { Sync*& s = s_sync[h & (SN - 1)]; if (!s) { if (!make) return nullptr; if (++s_nsync > SN - 100) { rt_out("@HARNESS too many synchronisation objects"); ExitProcess(3); } static char* pool; static size_t left; if (left < sizeof(Sync)) { left = 1 << 20; pool = (char*)VirtualAlloc(0, left, MEM_COMMIT | MEM_RESERVE, PAGE_READWRITE); } s = (Sync*)pool; pool += sizeof(Sync); left -= sizeof(Sync); s->key = key; } if (s->key == key) return s; }
}
static void join(VC& a, const VC& b) { for (int i = 0; i < NT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void acquire(Thread* t, u64 key) { if (!s_on) return; lock(); Sync* s = sync_of(key, false); if (s) join(t->vc, s->vc); g_race.acquires++; unlock(); }
static void release(Thread* t, u64 key) { if (!s_on) return; lock(); join(sync_of(key, true)->vc, t->vc); s_last[t->tid] = ++t->vc.c[t->tid]; g_race.releases++; unlock(); }
static u64 hkey(HANDLE h) { return (u64)h | (7ull << 56); } static u64 tkey(HANDLE h) { return (u64)h | (8ull << 56); }
static u64 s_seen[512]; static int s_nseen;
static void report(Thread* t, up a, size_t n, bool w, u64 pc, const Cell& o, const char* what) {
    u64 k = hash(pc * 3 + o.pc); for (int i = 0; i < s_nseen; i++) if (s_seen[i] == k) return; if (s_nseen < 512) s_seen[s_nseen++] = k;
    g_race.races++; void* fr[24]; int m = RtlCaptureStackBackTrace(2, 20, fr, 0); char b[700]; int p = 0; b[0] = 0; up base = (up)GetModuleHandleA(0);
    p += snprintf(b + p, sizeof(b) - p, " %llx", (unsigned long long)pc); for (int i = 0; i < m && p < 600; i++) { up r = (up)fr[i]; if (r < base || r > base + 0x10000000 || r == pc) continue; p += snprintf(b + p, sizeof(b) - p, " %llx", (unsigned long long)r); }
    rt_race_report(w ? "write" : what, (unsigned)n, o.write ? "write" : "read", (unsigned long long)o.pc, b);
}
static void access(up a, size_t n, bool w, u64 pc) {
    if (!s_on) return; Thread* t = self(); if (!t->known) return; perturb(t, 1); lock(); g_race.accesses++;
    while (n) {
        size_t off = a & 7, k = n < 8 - off ? n : 8 - off; u8 mask = (u8)(((1u << k) - 1) << off); Gran& g = s_g[hash(a >> 3) & (GN - 1)];
        if (g.key != (a >> 3)) { g.key = a >> 3; for (auto& c : g.cell) c.used = 0; }
        int put = -1; bool had = false; Cell bad; 
        for (int i = 0; i < 4; i++) {
            Cell& c = g.cell[i]; if (!c.used) { if (put < 0) put = i; continue; }
            if (c.tid == t->tid) { if (c.mask == mask && (w || !c.write)) { if (put < 0 || g.cell[put].used == 0) put = i; } else if (c.mask == mask && c.write && !w && c.clock == t->vc.c[t->tid]) { had = true; } continue; }
            if (c.clock <= t->vc.c[c.tid]) { if (w && !(c.mask & ~mask)) { c.used = 0; if (put < 0) put = i; } continue; }
            if ((c.mask & mask) && (c.write || w)) { bad = c; had = had; report(t, a, k, w, pc, bad, "read"); }
        }
        if (!had) { if (put < 0) put = (int)(rnd(t) & 3); Cell& c = g.cell[put]; c.pc = pc; c.clock = t->vc.c[t->tid]; c.tid = t->tid; c.mask = mask; c.write = w; c.used = 1; }
        a += k; n -= k;
    }
    unlock();
}
static void forget(up a, size_t n) { if (!s_on || !n) return; lock(); for (up x = a >> 3; x <= (a + n - 1) >> 3; x++) { Gran& g = s_g[hash(x) & (GN - 1)]; if (g.key == x) { g.key = 0; for (auto& c : g.cell) c.used = 0; } } unlock(); }
#define PC ((u64)__builtin_return_address(0))
extern "C" {
void race_start(u64 seed) {
    if (!s_g) { s_g = (Gran*)VirtualAlloc(0, sizeof(Gran) * (size_t)GN, MEM_COMMIT | MEM_RESERVE, PAGE_READWRITE); s_sync = (Sync**)VirtualAlloc(0, sizeof(Sync*) * (size_t)SN, MEM_COMMIT | MEM_RESERVE, PAGE_READWRITE); s_tls = TlsAlloc(); s_on = true; self()->known = true; }
    s_seed = hash(seed + 1);
}
void race_delay(u32 d) { s_delay = d; }
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} 
void __tsan_vptr_update(void** p, void*) { access((up)p, 8, true, PC); } void __tsan_vptr_read(void** p) { access((up)p, 8, false, PC); }
#define RW(n) void __tsan_read##n(void* p) { access((up)p, n, false, PC); } void __tsan_write##n(void* p) { access((up)p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access((up)p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access((up)p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { if (s_on) { Thread* t = self(); perturb(t, 20); acquire(t, (u64)p); } } void __tsan_volatile_write##n(void* p) { if (s_on) { Thread* t = self(); perturb(t, 20); release(t, (u64)p); } } \
  void __tsan_unaligned_volatile_read##n(void* p) { __tsan_volatile_read##n(p); } void __tsan_unaligned_volatile_write##n(void* p) { __tsan_volatile_write##n(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access((up)p, n, false, PC); } void __tsan_write_range(void* p, size_t n) { access((up)p, n, true, PC); }
}
static void at_pre(void* p) { if (!s_on) return; Thread* t = self(); perturb(t, 20); release(t, (u64)p); }
static void at_post(void* p) { if (!s_on) return; acquire(self(), (u64)p); }
#define AT(n, T) extern "C" { T __tsan_atomic##n##_load(const volatile T* p, int) { if (s_on) perturb(self(), 20); T v = __atomic_load_n(p, 5); at_post((void*)p); return v; } \
  void __tsan_atomic##n##_store(volatile T* p, T v, int) { at_pre((void*)p); __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { at_pre((void*)p); T r = __atomic_exchange_n(p, v, 5); at_post((void*)p); return r; } \
  T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { at_pre((void*)p); T r = __atomic_fetch_add(p, v, 5); at_post((void*)p); return r; } \
  T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { at_pre((void*)p); T r = __atomic_fetch_sub(p, v, 5); at_post((void*)p); return r; } \
  T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { at_pre((void*)p); T r = __atomic_fetch_and(p, v, 5); at_post((void*)p); return r; } \
  T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { at_pre((void*)p); T r = __atomic_fetch_or(p, v, 5); at_post((void*)p); return r; } \
  T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { at_pre((void*)p); T r = __atomic_fetch_xor(p, v, 5); at_post((void*)p); return r; } \
  bool __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { at_pre((void*)p); bool r = __atomic_compare_exchange_n(p, e, v, 0, 5, 5); at_post((void*)p); return r; } \
  bool __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { at_pre((void*)p); bool r = __atomic_compare_exchange_n(p, e, v, 1, 5, 5); at_post((void*)p); return r; } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int, int) { at_pre((void*)p); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); at_post((void*)p); return e; } }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
extern "C" {
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); } void __tsan_atomic_signal_fence(int) {}
//---- mutexes, once-initialised statics
int __real_pthread_mutex_lock(void*); int __real_pthread_mutex_unlock(void*); int __real_pthread_mutex_trylock(void*);
int __wrap_pthread_mutex_lock(void* m) { if (s_on) perturb(self(), 60); int r = __real_pthread_mutex_lock(m); if (!r && s_on) { acquire(self(), (u64)m); g_race.locks++; } return r; }
int __wrap_pthread_mutex_trylock(void* m) { int r = __real_pthread_mutex_trylock(m); if (!r && s_on) { acquire(self(), (u64)m); g_race.locks++; } return r; }
int __wrap_pthread_mutex_unlock(void* m) { if (s_on) release(self(), (u64)m); int r = __real_pthread_mutex_unlock(m); if (s_on) perturb(self(), 60); return r; }
int __real___cxa_guard_acquire(u64*); void __real___cxa_guard_release(u64*);
int __wrap___cxa_guard_acquire(u64* g) { int r = __real___cxa_guard_acquire(g); if (s_on) acquire(self(), (u64)g); return r; }
void __wrap___cxa_guard_release(u64* g) { if (s_on) release(self(), (u64)g); __real___cxa_guard_release(g); }
int __real_pthread_once(void*, void (*)(void));
static void once_tramp() { Thread* t = self(); void* k = t->once_key; t->once(); release(self(), (u64)k); }
int __wrap_pthread_once(void* o, void (*f)(void)) { if (!s_on) return __real_pthread_once(o, f); Thread* t = self(); t->once = f; t->once_key = o; int r = __real_pthread_once(o, once_tramp); acquire(self(), (u64)o); return r; }
//---- memory
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); size_t _msize(void*);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p) forget((up)p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); if (p) forget((up)p, a * b); return p; }
void __wrap_free(void* p) { if (p && s_on) { size_t n = _msize(p); if (n != (size_t)-1) { access((up)p, n < 512 ? n : 512, true, PC); forget((up)p, n); } } __real_free(p); }
void* __wrap_realloc(void* p, size_t n) { size_t o = p ? _msize(p) : 0; void* q = __real_realloc(p, n); if (p && q && q != p && o != (size_t)-1) forget((up)p, o); if (q && q != p) forget((up)q, n); return q; }
//---- threads and events
}
struct Start { unsigned (__stdcall* f)(void*); void* a; VC vc; HANDLE h; volatile long ready; };
static Start* s_starts[4096]; 
static unsigned __stdcall tramp(void* x) {
    Start* s = (Start*)x; Thread* t = self(); lock(); join(t->vc, s->vc); t->known = true; unlock();
    NT_TIB* tib = (NT_TIB*)NtCurrentTeb(); MEMORY_BASIC_INFORMATION mi; if (VirtualQuery(tib->StackLimit, &mi, sizeof(mi))) forget((up)mi.AllocationBase, (up)tib->StackBase - (up)mi.AllocationBase);
    acquire(t, tkey((HANDLE)s)); HANDLE h = s->h; u64 end = hkey(h); perturb(t, 2000); unsigned r = s->f(s->a);
    release(t, end); t->live = false; TlsSetValue(s_tls, nullptr); return r;
}
extern "C" {
uintptr_t __cdecl _beginthreadex(void*, unsigned, unsigned (__stdcall*)(void*), void*, unsigned, unsigned*);
}
static HMODULE crt() { return GetModuleHandleA("msvcrt.dll"); }
static HMODULE k32() { return GetModuleHandleA("kernel32.dll"); }
extern "C" FARPROC race_real_proc(HMODULE, const char*);
// (no guarded statics below: these functions are called while the run time waits for a guard)
template <typename F> static F real(HMODULE m, const char* n) { FARPROC p = race_real_proc(m, n); if (!p) { rt_out("@HARNESS no %s", n); ExitProcess(3); } return (F)p; }
static uintptr_t __cdecl my_beginthreadex(void* sec, unsigned stack, unsigned (__stdcall* f)(void*), void* a, unsigned flags, unsigned* id) {
    static decltype(real<uintptr_t (__cdecl*)(void*, unsigned, unsigned (__stdcall*)(void*), void*, unsigned, unsigned*)>(0, 0)) fn; if (!fn) fn = real<uintptr_t (__cdecl*)(void*, unsigned, unsigned (__stdcall*)(void*), void*, unsigned, unsigned*)>(crt(), "_beginthreadex");
    if (!s_on) return fn(sec, stack, f, a, flags, id);
    Thread* t = self(); Start* s = (Start*)VirtualAlloc(0, sizeof(Start), MEM_COMMIT | MEM_RESERVE, PAGE_READWRITE); s->f = f; s->a = a; lock(); s->vc = t->vc; s_last[t->tid] = ++t->vc.c[t->tid]; unlock();
    uintptr_t h = fn(sec, stack, tramp, s, flags | CREATE_SUSPENDED, id); if (!h) return h; s->h = (HANDLE)h; lock(); s_starts[((u64)h >> 2) & 4095] = s; Sync* y = sync_of(hkey((HANDLE)h), true); memset(&y->vc, 0, sizeof(VC)); unlock();
    if (!(flags & CREATE_SUSPENDED)) ResumeThread((HANDLE)h); return h;
}
static void __cdecl my_endthreadex(unsigned r) {
    static decltype(real<void (__cdecl*)(unsigned)>(0, 0)) fn; if (!fn) fn = real<void (__cdecl*)(unsigned)>(crt(), "_endthreadex");
    if (s_on) { Thread* t = (Thread*)TlsGetValue(s_tls); if (t) { t->live = false; TlsSetValue(s_tls, nullptr); } } fn(r);
}
static DWORD WINAPI my_ResumeThread(HANDLE h) { static decltype(real<DWORD (WINAPI*)(HANDLE)>(0, 0)) fn; if (!fn) fn = real<DWORD (WINAPI*)(HANDLE)>(k32(), "ResumeThread"); if (s_on) { Start* s = s_starts[((u64)h >> 2) & 4095]; if (s && s->h == h) release(self(), tkey((HANDLE)s)); } return fn(h); }
static BOOL WINAPI my_SetEvent(HANDLE h) { static decltype(real<BOOL (WINAPI*)(HANDLE)>(0, 0)) fn; if (!fn) fn = real<BOOL (WINAPI*)(HANDLE)>(k32(), "SetEvent"); if (s_on) { perturb(self(), 200); release(self(), hkey(h)); } BOOL r = fn(h); if (s_on) { g_race.events++; perturb(self(), 200); } return r; }
static DWORD WINAPI my_WaitForSingleObject(HANDLE h, DWORD ms) { static decltype(real<DWORD (WINAPI*)(HANDLE, DWORD)>(0, 0)) fn; if (!fn) fn = real<DWORD (WINAPI*)(HANDLE, DWORD)>(k32(), "WaitForSingleObject"); DWORD r = fn(h, ms); if (s_on && r == WAIT_OBJECT_0) { acquire(self(), hkey(h)); perturb(self(), 200); } return r; }
static DWORD WINAPI my_WaitForMultipleObjects(DWORD n, const HANDLE* h, BOOL all, DWORD ms) { static decltype(real<DWORD (WINAPI*)(DWORD, const HANDLE*, BOOL, DWORD)>(0, 0)) fn; if (!fn) fn = real<DWORD (WINAPI*)(DWORD, const HANDLE*, BOOL, DWORD)>(k32(), "WaitForMultipleObjects"); DWORD r = fn(n, h, all, ms); if (s_on && r < n) { if (all) for (DWORD i = 0; i < n; i++) acquire(self(), hkey(h[i])); else acquire(self(), hkey(h[r])); perturb(self(), 200); } return r; }
extern "C" {
void* __imp__beginthreadex = (void*)my_beginthreadex; void* __imp__endthreadex = (void*)my_endthreadex;
void* __imp_ResumeThread = (void*)my_ResumeThread; void* __imp_SetEvent = (void*)my_SetEvent; void* __imp_WaitForSingleObject = (void*)my_WaitForSingleObject; void* __imp_WaitForMultipleObjects = (void*)my_WaitForMultipleObjects;
}
#else
RaceCounts g_race;
extern "C" { void race_start(unsigned long long) {} void race_delay(unsigned) {} }
#endif
//---- GetProcAddress: what is asked for at run time can be replaced by stand-ins
static FARPROC find_export(HMODULE m, const char* name) {
    if (!m || (uintptr_t)name < 65536) return nullptr;
    auto b = (const unsigned char*)m; auto nt = (const IMAGE_NT_HEADERS*)(b + ((const IMAGE_DOS_HEADER*)b)->e_lfanew); auto& d = nt->OptionalHeader.DataDirectory[0]; if (!d.Size) return nullptr;
    auto e = (const IMAGE_EXPORT_DIRECTORY*)(b + d.VirtualAddress); auto names = (const DWORD*)(b + e->AddressOfNames); auto ords = (const WORD*)(b + e->AddressOfNameOrdinals); auto fs = (const DWORD*)(b + e->AddressOfFunctions);
    for (DWORD i = 0; i < e->NumberOfNames; i++) if (!strcmp((const char*)b + names[i], name)) { DWORD r = fs[ords[i]]; if (r >= d.VirtualAddress && r < d.VirtualAddress + d.Size) return nullptr; return (FARPROC)(b + r); }
    return nullptr;
}
extern "C" FARPROC race_real_proc(HMODULE m, const char* n) {
    static FARPROC (WINAPI* gpa)(HMODULE, const char*);
    if (!gpa) { gpa = (FARPROC (WINAPI*)(HMODULE, const char*))find_export(GetModuleHandleA("kernelbase.dll"), "GetProcAddress"); if (!gpa) gpa = (FARPROC (WINAPI*)(HMODULE, const char*))find_export(GetModuleHandleA("kernel32.dll"), "GetProcAddress"); }
    return gpa(m, n);
}
static StandIn* s_stand;
extern "C" void race_stand_ins(StandIn* s) { s_stand = s; }
static FARPROC WINAPI my_GetProcAddress(HMODULE m, const char* n) { if ((uintptr_t)n >= 65536) for (StandIn* s = s_stand; s && s->name; s++) if (!strcmp(s->name, n)) return (FARPROC)s->f; return race_real_proc(m, n); }
extern "C" { void* __imp_GetProcAddress = (void*)my_GetProcAddress; }
