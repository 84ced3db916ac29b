// See rt.h. This file itself is compiled without instrumentation.
#include <winsock2.h>
#include <windows.h>
#include <tlhelp32.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <wchar.h>
#include <new>
#include "rt.h"

typedef unsigned char u8; typedef uint64_t u64; typedef uintptr_t up;

//---- output -----------------------------------------------------------------
static HANDLE s_out; static CRITICAL_SECTION s_cs; static bool s_init;
static char s_ctx[3000];
static volatile long s_asserts, s_reports; static int s_assert_report = 1;

static void raw(const char* p, size_t n) { DWORD w; while (n) { if (!WriteFile(s_out, p, (DWORD)n, &w, 0) || !w) break; p += w; n -= w; } }
// Buffered: millions of event lines would otherwise be one server call each.
static char* s_obuf; static size_t s_olen; enum { OCAP = 1 << 18 };
static void oflush() { if (s_olen) { raw(s_obuf, s_olen); s_olen = 0; } }
static void oput(const char* p, size_t n) {
    if (!s_obuf) s_obuf = (char*)VirtualAlloc(0, OCAP, MEM_COMMIT | MEM_RESERVE, PAGE_READWRITE);
    if (s_olen + n > OCAP) oflush();
    if (n > OCAP) { raw(p, n); return; }
    memcpy(s_obuf + s_olen, p, n); s_olen += n;
}
extern "C" void rt_out(const char* fmt, ...) {
    static char buf[20000];
    EnterCriticalSection(&s_cs);
    va_list a; va_start(a, fmt); int n = vsnprintf(buf, sizeof(buf) - 2, fmt, a); va_end(a);
    if (n < 0 || n > (int)sizeof(buf) - 2) n = sizeof(buf) - 2;
    for (int i = 0; i < n; i++) if (buf[i] == '\n' || buf[i] == '\r') buf[i] = ' ';
    buf[n++] = '\n'; oput(buf, n);
    if (buf[0] == '@' && strncmp(buf, "@EV", 3)) oflush();
    LeaveCriticalSection(&s_cs);
}
extern "C" unsigned rt_assert_count(void) { return s_asserts; }
extern "C" unsigned rt_san_count(void) { return s_reports; }
extern "C" void rt_assert_report(int on) { s_assert_report = on; }
extern "C" void rt_context(const char* t) { strncpy(s_ctx, t, sizeof(s_ctx) - 1); }

static const char* stack_text(int skip) {
    static char b[2000]; void* fr[40]; int n = RtlCaptureStackBackTrace(skip, 24, fr, 0);
    up base = (up)GetModuleHandleA(0); int o = 0; b[0] = 0;
    for (int i = 0; i < n && o < 1900; i++) { up r = (up)fr[i]; if (r < base || r > base + 0x10000000) continue; o += snprintf(b + o, sizeof(b) - o, " %llx", (unsigned long long)(r)); }
    return b;
}

//---- assertions -------------------------------------------------------------
static void on_assert(const char* e, const char* f, unsigned l) {
    s_asserts++;
    if (!s_assert_report || s_asserts > 200) return;
    const char* b = strstr(f, "/src/clink/"); if (b) f = b + 5; else if ((b = strstr(f, "/.build/src/"))) f = b + 12;
    rt_out("@ASSERT %s:%u %s |%s| ctx=%s", f, l, e, stack_text(2), s_ctx);
}
extern "C" {
void rt_assert_fail(const char* e, const char* f, unsigned l) { on_assert(e, f, l); }
void __wrap__assert(const char* e, const char* f, unsigned l) { on_assert(e, f, l); }
void __wrap__wassert(const wchar_t* e, const wchar_t* f, unsigned l) { char a[500], b[500]; snprintf(a, 500, "%ls", e); snprintf(b, 500, "%ls", f); on_assert(a, b, l); }
void __wrap_dbgassertf(const char* f, unsigned l, const char* fmt, ...) { on_assert(fmt, f, l); }
}

//---- crashes ----------------------------------------------------------------
static LONG WINAPI on_crash(EXCEPTION_POINTERS* ep) {
    DWORD c = ep->ExceptionRecord->ExceptionCode;
    if (c == 0x40010006 || c == 0x406D1388 || c == 0xE06D7363 || c == 0x20474343 || c == 0x21474343 || c == 0x22474343 || c == 0x4001000A) return EXCEPTION_CONTINUE_SEARCH;
    static long once; if (InterlockedExchange(&once, 1)) { ExitProcess(78); }
    up base = (up)GetModuleHandleA(0); char b[2200]; int o = 0; b[0] = 0;
    // A small conservative scan of the stack for return addresses (unwinding may itself fault).
    up* sp = (up*)ep->ContextRecord->Rsp; up pc = ep->ContextRecord->Rip;
    o += snprintf(b + o, sizeof(b) - o, " %llx", (unsigned long long)pc);
    if (c != EXCEPTION_STACK_OVERFLOW) for (int i = 0; i < 400 && o < 2000; i++) { MEMORY_BASIC_INFORMATION mi; if (!(i & 127) && (!VirtualQuery(sp + i, &mi, sizeof(mi)) || mi.State != MEM_COMMIT)) break; up r = sp[i]; if (r > base + 0x1000 && r < base + 0x4000000) o += snprintf(b + o, sizeof(b) - o, " %llx", (unsigned long long)r); }
    rt_out("@CRASH %lx addr=%llx |%s| ctx=%s", c, (unsigned long long)(ep->ExceptionRecord->NumberParameters > 1 ? ep->ExceptionRecord->ExceptionInformation[1] : 0), b, s_ctx);
    oflush();
    TerminateProcess(GetCurrentProcess(), 77);
    return EXCEPTION_CONTINUE_SEARCH;
}
static void at_exit_flush() { EnterCriticalSection(&s_cs); oflush(); LeaveCriticalSection(&s_cs); }
static void on_abort(int) { rt_out("@CRASH abort |%s| ctx=%s", stack_text(1), s_ctx); at_exit_flush(); TerminateProcess(GetCurrentProcess(), 77); }
#include <signal.h>
static void early_init() {
    if (s_init) return; s_init = true;
    InitializeCriticalSection(&s_cs);
    HANDLE h = GetStdHandle(STD_OUTPUT_HANDLE);
    if (!DuplicateHandle(GetCurrentProcess(), h, GetCurrentProcess(), &s_out, 0, FALSE, DUPLICATE_SAME_ACCESS)) s_out = h;
}
extern "C" void rt_init(void) {
    early_init();
    SetErrorMode(SEM_FAILCRITICALERRORS | SEM_NOGPFAULTERRORBOX | SEM_NOOPENFILEERRORBOX);
    AddVectoredExceptionHandler(1, [](EXCEPTION_POINTERS* ep) -> LONG {
        DWORD c = ep->ExceptionRecord->ExceptionCode;
        up base = (up)GetModuleHandleA(0), pc = ep->ContextRecord->Rip; // faults inside system code may be handled there
        if (c == EXCEPTION_ACCESS_VIOLATION && (pc < base || pc > base + 0x4000000)) { // system code given a bad size runs past the end of the stack; no handler can run after that
            up at = (up)ep->ExceptionRecord->ExceptionInformation[1], top = (up)((NT_TIB*)NtCurrentTeb())->StackBase;
            if (at >= top && at < top + 0x1000) { char b[600]; int o = 0; b[0] = 0; for (up* sp = (up*)ep->ContextRecord->Rsp; (up)sp < top && o < 500; sp++) if (*sp > base + 0x1000 && *sp < base + 0x4000000) o += snprintf(b + o, sizeof(b) - o, " %llx", (unsigned long long)*sp); rt_out("past the stack: %s", b); return on_crash(ep); }
        }
        if (c != EXCEPTION_STACK_OVERFLOW && (pc < base || pc > base + 0x4000000)) return EXCEPTION_CONTINUE_SEARCH;
        if (c == EXCEPTION_ACCESS_VIOLATION || c == EXCEPTION_STACK_OVERFLOW || c == EXCEPTION_ILLEGAL_INSTRUCTION || c == EXCEPTION_INT_DIVIDE_BY_ZERO || c == 0xC0000374) return on_crash(ep);
        return EXCEPTION_CONTINUE_SEARCH; });
    SetUnhandledExceptionFilter(on_crash);
    signal(SIGABRT, on_abort);
    atexit(at_exit_flush);
}

extern "C" { char rt_now[400]; }   // what the case is doing
static HANDLE s_wd_thread; static volatile long s_wd_tick; static unsigned s_wd_secs, s_wd_wall;
extern "C" void rt_progress(void) { InterlockedIncrement(&s_wd_tick); }
static void thread_stack(HANDLE t, char* b, size_t n) {
    CONTEXT x; memset(&x, 0, sizeof(x)); x.ContextFlags = CONTEXT_FULL; SuspendThread(t); int o = 0; b[0] = 0; if (!GetThreadContext(t, &x)) return;
    up base = (up)GetModuleHandleA(0); up* sp = (up*)x.Rsp; o += snprintf(b + o, n - o, " %llx", (unsigned long long)x.Rip);
    for (int i = 0; i < 3000 && o < (int)n - 200; i++) { MEMORY_BASIC_INFORMATION mi; if ((!i || !((up)(sp + i) & 0xfff)) && (!VirtualQuery(sp + i, &mi, sizeof(mi)) || mi.State != MEM_COMMIT)) break; up r = sp[i]; if (r > base + 0x1000 && r < base + 0x4000000) o += snprintf(b + o, n - o, " %llx", (unsigned long long)r); }
}
static DWORD WINAPI wd_main(void*) {
    long tick = -1; u64 start = 0; DWORD wall = 0;
    for (;;) {
        Sleep(500);
        if (s_wd_wall) {
            DWORD now = GetTickCount();
            if (s_wd_tick != tick) wall = now;
            else if (now - wall > s_wd_wall * 1000) {
                char b[2200]; thread_stack(s_wd_thread, b, sizeof(b));
                HANDLE sn = CreateToolhelp32Snapshot(TH32CS_SNAPTHREAD, 0); THREADENTRY32 te = { sizeof(te) };
                for (BOOL k = Thread32First(sn, &te); k; k = Thread32Next(sn, &te)) if (te.th32OwnerProcessID == GetCurrentProcessId() && te.th32ThreadID != GetCurrentThreadId()) { HANDLE t = OpenThread(THREAD_ALL_ACCESS, FALSE, te.th32ThreadID); char tb[2200]; thread_stack(t, tb, sizeof(tb)); if (tb[0]) rt_out("@THREAD |%s|", tb); CloseHandle(t); }
                rt_out("@STUCK |%s| ctx=%s", b, s_ctx); oflush(); TerminateProcess(GetCurrentProcess(), 78);
            }
        }
        FILETIME a, b, k, u; if (!GetThreadTimes(s_wd_thread, &a, &b, &k, &u)) continue;
        u64 cpu = (((u64)k.dwHighDateTime << 32) | k.dwLowDateTime) + (((u64)u.dwHighDateTime << 32) | u.dwLowDateTime);
        if (s_wd_tick != tick) { tick = s_wd_tick; start = cpu; continue; }
        if (cpu - start > (u64)s_wd_secs * 10000000ull) { char hb[2200]; thread_stack(s_wd_thread, hb, sizeof(hb)); rt_out("hang at %s (in %s)", hb, rt_now); rt_out("@HANG ctx=%s", s_ctx); oflush(); TerminateProcess(GetCurrentProcess(), 78); }
    }
}
extern "C" void rt_watchdog(unsigned secs) {
    bool first = !s_wd_secs; s_wd_secs = secs; if (!first) return;
    DuplicateHandle(GetCurrentProcess(), GetCurrentThread(), GetCurrentProcess(), &s_wd_thread, 0, FALSE, DUPLICATE_SAME_ACCESS);
    CloseHandle(CreateThread(0, 0, wd_main, 0, 0, 0));
}

static void report(const char* kind, const char* fmt, ...) {
    char d[600]; va_list a; va_start(a, fmt); vsnprintf(d, sizeof(d), fmt, a); va_end(a);
    long n = InterlockedIncrement(&s_reports);
    if (n > 400) return;
    if (!s_init) early_init();
    rt_out("@SAN %s %s |%s| ctx=%s", kind, d, stack_text(2), s_ctx);
}

extern "C" void rt_race_report(const char* what, unsigned size, const char* other, unsigned long long other_pc, const char* pcs) {
    if (InterlockedIncrement(&s_reports) > 400) return;
    rt_out("@SAN data-race %s of %u bytes, unordered with a %s at %llx |%s| ctx=%s", what, size, other, other_pc, pcs, s_ctx);
}
extern "C" void rt_watchdog_wall(unsigned secs) { s_wd_wall = secs; }
//---- UBSan ------------------------------------------------------------------
struct SL { const char* f; uint32_t l, c; };
struct TD { uint16_t kind, info; char name[1]; };
static bool seen(SL* s) { // report each location once, like the real runtime
    uint32_t c = __atomic_exchange_n(&s->c, 0xffffffffu, __ATOMIC_RELAXED); return c == 0xffffffffu; }
static const char* sf(const char* f) { const char* b = strstr(f, "/.build/src/"); if (b) return b + 12; b = strstr(f, "/src/clink/"); return b ? b + 5 : f; }
#define UB(name, kind) extern "C" void __ubsan_handle_##name(void* d, void* a, void* b) { SL* s = (SL*)d; uint32_t l = s->l; if (seen(s)) return; report("ub-" kind, "%s:%u a=%llx b=%llx", sf(s->f), l, (unsigned long long)(up)a, (unsigned long long)(up)b); } \
  extern "C" void __ubsan_handle_##name##_abort(void* d, void* a, void* b) { __ubsan_handle_##name(d, a, b); }
UB(add_overflow, "signed-overflow") UB(sub_overflow, "signed-overflow") UB(mul_overflow, "signed-overflow")
UB(negate_overflow, "signed-overflow") UB(divrem_overflow, "div") UB(shift_out_of_bounds, "shift")
UB(out_of_bounds, "bounds") UB(vla_bound_not_positive, "vla") UB(load_invalid_value, "invalid-value")
UB(invalid_builtin, "builtin") UB(float_cast_overflow, "float-cast")
UB(type_mismatch_v1, "type-mismatch") UB(nonnull_arg, "nonnull-arg") UB(nonnull_return_v1, "nonnull-return")
// (offsets from a null pointer that is never dereferenced are not reported)
extern "C" void __ubsan_handle_pointer_overflow(void* d, void* a, void* b) { if (!a) return; SL* s = (SL*)d; uint32_t l = s->l; if (seen(s)) return; report("ub-pointer-overflow", "%s:%u a=%llx b=%llx", sf(s->f), l, (unsigned long long)(up)a, (unsigned long long)(up)b); }
extern "C" void __ubsan_handle_builtin_unreachable(void* d) { SL* s = (SL*)d; report("ub-unreachable", "%s:%u", sf(s->f), s->l); }
extern "C" void __ubsan_handle_missing_return(void* d) { SL* s = (SL*)d; report("ub-missing-return", "%s:%u", sf(s->f), s->l); }

//---- ASan -------------------------------------------------------------------
#define SHADOW_OFF 0x100000000000ull
static bool s_asan;
static inline u8* sh(up a) { return (u8*)((a >> 3) + SHADOW_OFF); }
static long long sysll(long long n, long long a, long long b, long long c, long long d, long long e, long long f) {
    long long r; register long long r10 asm("r10") = d; register long long r8 asm("r8") = e; register long long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); return r; }
static void asan_init() {
    if (s_asan) return;
    long long r = sysll(9, SHADOW_OFF, 1ll << 44, 3, 0x4022 | 0x100000, -1, 0);
    if (r != (long long)SHADOW_OFF) { early_init(); rt_out("@HARNESS shadow mmap failed %lld", r); oflush(); TerminateProcess(GetCurrentProcess(), 79); }
    s_asan = true;
}
#ifdef VERIF_ASAN_RT
// The shadow must exist before any instrumented code (static constructors) runs.
__attribute__((constructor(101))) static void asan_ctor() { asan_init(); early_init(); }

static void bad(up a, size_t n, bool w) {
    // find the first poisoned byte
    u8 v = 0; up x = a; for (; x < a + n; x++) { u8 s = *sh(x); if (s && (s >= 0x80 || (x & 7) >= s)) { v = s; break; } }
    const char* k = "unknown";
    switch (v) { case 0xfa: case 0xfb: k = "heap-buffer-overflow"; break; case 0xfd: k = "heap-use-after-free"; break;
        case 0xf1: case 0xf2: case 0xf3: k = "stack-buffer-overflow"; break; case 0xf8: k = "stack-use-after-scope"; break; case 0xf9: k = "global-buffer-overflow"; break;
        default: k = v < 8 ? "heap-buffer-overflow" : "unknown"; if (v < 8) { u8 nx = *sh((x & ~7ull) + 8); if (nx >= 0xf1 && nx <= 0xf3) k = "stack-buffer-overflow"; } }
    report(k, "%s size=%u off=%u shadow=%02x", w ? "write" : "read", (unsigned)n, (unsigned)(x - a), v);
}
static inline bool poisoned(up a, size_t n) {
    if (!s_asan || !n || (a >> 47)) return false;
    up e = a + n - 1; u8 s = *sh(e);
    if (s && (s >= 0x80 || (e & 7) >= s)) return true;
    for (up x = a & ~7ull; x < (e & ~7ull); x += 8) { s = *sh(x); if (s && (x != (a & ~7ull) || s >= 0x80 || true)) return true; }
    return false;
}
static inline bool poisoned_small(up a, size_t n) {
    if (!s_asan) return false;
    u8 s = *sh(a); up e = a + n - 1;
    if ((a & 7) + n <= 8) return s && (s >= 0x80 || (e & 7) >= s);
    if (s) return true; if (n > 8) { if ((a >> 3) + 1 < (e >> 3) && *sh(a + 8)) return true; }
    s = *sh(e); return s && (s >= 0x80 || (e & 7) >= s);
}
#define LS(n) extern "C" void __asan_load##n##_noabort(up a) { if (__builtin_expect(poisoned_small(a, n), 0)) bad(a, n, false); } \
              extern "C" void __asan_store##n##_noabort(up a) { if (__builtin_expect(poisoned_small(a, n), 0)) bad(a, n, true); } \
              extern "C" void __asan_report_load##n##_noabort(up a) { bad(a, n, false); } \
              extern "C" void __asan_report_store##n##_noabort(up a) { bad(a, n, true); }
LS(1) LS(2) LS(4) LS(8) LS(16)
extern "C" void __asan_loadN_noabort(up a, size_t n) { if (poisoned(a, n)) bad(a, n, false); }
extern "C" void __asan_storeN_noabort(up a, size_t n) { if (poisoned(a, n)) bad(a, n, true); }
extern "C" void __asan_report_load_n_noabort(up a, size_t n) { bad(a, n, false); }
extern "C" void __asan_report_store_n_noabort(up a, size_t n) { bad(a, n, true); }
extern "C" void __asan_handle_no_return(void) {
    NT_TIB* t = (NT_TIB*)NtCurrentTeb(); up lo = (up)__builtin_frame_address(0) & ~7ull, hi = (up)t->StackBase;
    if (lo < hi && hi - lo < (64 << 20)) memset(sh(lo), 0, (hi - lo) >> 3);
}
extern "C" void __asan_before_dynamic_init(void*) {} extern "C" void __asan_after_dynamic_init(void) {}
extern "C" void __asan_poison_stack_memory(up a, size_t n) { if (s_asan) memset(sh(a), 0xf8, (n + 7) >> 3); }
extern "C" void __asan_unpoison_stack_memory(up a, size_t n) { if (s_asan) { memset(sh(a), 0, n >> 3); if (n & 7) *sh(a + n) = n & 7; } }
extern "C" void __asan_alloca_poison(up a, size_t n) { if (!s_asan) return; up e = (a + n + 31) & ~31ull; memset(sh(a - 32), 0xca, 4); if (n & 7) *sh(a + n) = n & 7; memset(sh((a + n + 7) & ~7ull), 0xcb, ((e + 32) - ((a + n + 7) & ~7ull)) >> 3); }
extern "C" void __asan_allocas_unpoison(up top, up bottom) { if (s_asan && top && top <= bottom) memset(sh(top), 0, (bottom - top) >> 3); }

// heap: [16 header][16 left redzone .. data .. right redzone], freed blocks quarantined.
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); }
struct Hd { u64 magic; u64 size; }; enum { RZ = 32 }; static const u64 MAGIC = 0x5a5a1ca7c11a3d00ull;
static const u64 FREED = 0x5a5a1ca7deadbeefull;
enum { QMAX = 1 << 15 }; static const size_t QBYTES = 64 << 20;
static void* s_q[QMAX]; static unsigned s_qh, s_qt; static size_t s_qbytes; static volatile long s_qlock;
static void qlock() { while (InterlockedExchange(&s_qlock, 1)) SwitchToThread(); } static void qunlock() { InterlockedExchange(&s_qlock, 0); }
static bool mine(void* p) { if (!s_asan || ((up)p & 15)) return false; u8 s = *sh((up)p - 16); if (s != 0xfa) return false; Hd* h = (Hd*)((char*)p - 16); return h->magic == MAGIC || h->magic == FREED; }
static int g_fail_in;
extern "C" void rt_fail_malloc(int nth) { g_fail_in = nth; }
static void* as_malloc(size_t n, int fill) {
    if (g_fail_in && --g_fail_in == 0) return 0;
    if (!s_asan) asan_init();
    if (n > (1ull << 40)) return 0;
    size_t tot = n + RZ + ((n + 7) & ~7ull) - n + 32;
    char* b = (char*)__real_malloc(tot + 16); if (!b) return 0;
    char* p = (char*)(((up)b + RZ + 15) & ~15ull);
    *(u64*)(p - 24) = (u64)b; Hd* h = (Hd*)(p - 16); h->magic = MAGIC; h->size = n;
    up s0 = ((up)b + 7) & ~7ull; memset(sh(s0), 0xfa, ((up)p - s0) >> 3);
    memset(sh((up)p), 0, n >> 3); if (n & 7) *sh((up)p + n) = n & 7;
    up r0 = ((up)p + n + 7) & ~7ull; up r1 = ((up)b + tot + 16) & ~7ull; if (r1 > r0) memset(sh(r0), 0xfb, (r1 - r0) >> 3);
    if (fill >= 0) memset(p, fill, n < 65536 || !fill ? n : 65536);
    return p;
}
static void real_release(void* p) { char* b = (char*)*(u64*)((char*)p - 24); Hd* h = (Hd*)((char*)p - 16); size_t n = h->size; h->magic = 0;
    up s0 = ((up)b + 7) & ~7ull, s1 = ((up)p + n + 7) & ~7ull; memset(sh(s0), 0, ((s1 + 48) - s0) >> 3); __real_free(b); }
extern "C" {
void* __wrap_malloc(size_t n) { return as_malloc(n, 0xbe); }
void* __wrap_calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) return 0; return as_malloc(a * b, 0); }
void __wrap_free(void* p) {
    if (!p) return;
    if (!mine(p)) { if (s_asan) { u8 s = *sh((up)p); if (s == 0xfd || s == 0xfa || s == 0xfb || (s >= 0xf1 && s <= 0xf3)) { report("bad-free", "not the start of a live block shadow=%02x", s); return; } } __real_free(p); return; }
    Hd* h = (Hd*)((char*)p - 16);
    if (h->magic == FREED) { report("double-free", "size=%llu", (unsigned long long)h->size); return; }
    size_t n = h->size; h->magic = FREED; memset(p, 0xdd, n < 4096 ? n : 4096); memset(sh((up)p), 0xfd, (n + 7) >> 3); if (!n) *sh((up)p) = 0xfd;
    qlock(); s_q[s_qh++ % QMAX] = p; s_qbytes += n;
    void* rel[64]; int k = 0;
    while (k < 64 && (s_qh - s_qt >= QMAX || s_qbytes > QBYTES) && s_qt < s_qh) { void* x = s_q[s_qt++ % QMAX]; s_qbytes -= ((Hd*)((char*)x - 16))->size; rel[k++] = x; }
    qunlock(); for (int i = 0; i < k; i++) real_release(rel[i]);
}
void* __wrap_realloc(void* p, size_t n) {
    if (!p) return __wrap_malloc(n);
    if (!mine(p)) return __real_realloc(p, n);
    if (!n) { __wrap_free(p); return 0; }
    Hd* h = (Hd*)((char*)p - 16); if (h->magic == FREED) { report("realloc-after-free", "size=%llu", (unsigned long long)h->size); }
    void* q = as_malloc(n, 0xbe); if (!q) return 0; memcpy(q, p, h->size < n ? h->size : n); __wrap_free(p); return q;
}
#define CHK(p, n, w) do { if (poisoned((up)(p), (n))) bad((up)(p), (n), w); } while (0)
void* __asan_memcpy(void* d, const void* s, size_t n) { CHK(s, n, false); CHK(d, n, true); if (n && d != s && (char*)d < (char*)s + n && (char*)s < (char*)d + n) report("memcpy-overlap", "n=%llu", (unsigned long long)n); return memmove(d, s, n); }
void* __asan_memmove(void* d, const void* s, size_t n) { CHK(s, n, false); CHK(d, n, true); return memmove(d, s, n); }
void* __asan_memset(void* d, int c, size_t n) { CHK(d, n, true); return memset(d, c, n); }
size_t __real_strlen(const char*);
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); CHK(s, n + 1, false); return n; }
size_t __real_wcslen(const wchar_t*);
size_t __wrap_wcslen(const wchar_t* s) { size_t n = __real_wcslen(s); CHK(s, (n + 1) * 2, false); return n; }
char* __real_strcpy(char*, const char*);
char* __wrap_strcpy(char* d, const char* s) { size_t n = __real_strlen(s); CHK(s, n + 1, false); CHK(d, n + 1, true); return __real_strcpy(d, s); }
char* __real_strcat(char*, const char*);
char* __wrap_strcat(char* d, const char* s) { size_t n = __real_strlen(s), m = __real_strlen(d); CHK(d, m + 1, false); CHK(s, n + 1, false); CHK(d + m, n + 1, true); return __real_strcat(d, s); }
char* __real_strncpy(char*, const char*, size_t);
char* __wrap_strncpy(char* d, const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; CHK(s, i < n ? i + 1 : n, false); CHK(d, n, true); return __real_strncpy(d, s, n); }
int __real_strcmp(const char*, const char*);
int __wrap_strcmp(const char* a, const char* b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; CHK(a, i + 1, false); CHK(b, i + 1, false); return __real_strcmp(a, b); }
int __real_strncmp(const char*, const char*, size_t);
int __wrap_strncmp(const char* a, const char* b, size_t n) { size_t i = 0; while (i < n && a[i] && a[i] == b[i]) i++; size_t k = i < n ? i + 1 : n; CHK(a, k, false); CHK(b, k, false); return __real_strncmp(a, b, n); }
int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) { CHK(a, n, false); CHK(b, n, false); return __real_memcmp(a, b, n); }
size_t __real_fread(void*, size_t, size_t, FILE*);
size_t __wrap_fread(void* p, size_t a, size_t b, FILE* f) { CHK(p, a * b, true); return __real_fread(p, a, b, f); }
char* __real__strdup(const char*);
char* __wrap_strdup(const char* s) { size_t n = __real_strlen(s) + 1; CHK(s, n, false); char* p = (char*)as_malloc(n, -1); if (p) memcpy(p, s, n); return p; }
char* __wrap__strdup(const char* s) { return __wrap_strdup(s); }
wchar_t* __wrap__wcsdup(const wchar_t* s) { size_t n = (__real_wcslen(s) + 1) * 2; CHK(s, n, false); wchar_t* p = (wchar_t*)as_malloc(n, -1); if (p) memcpy(p, s, n); return p; }
}
#endif // VERIF_ASAN_RT
