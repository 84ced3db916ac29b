#include "../hx.h"
#include "fileops.h"
namespace fo {
const char* op_names[op_count] = { "create", "close", "read", "write", "set-end", "lock", "unlock", "delete" };
Sched* g_sched; Fiber* g_cur;
static std::map<void*, std::wstring> s_paths;
static int s_fails;
#define REAL(name) static decltype(&::name) p = (decltype(&::name))GetProcAddress(GetModuleHandleA("kernel32"), #name)
static BOOL real_close(HANDLE h) { REAL(CloseHandle); return p(h); }
static void to_main() { SwitchToFiber(g_sched->main); }
void crash_here() {
    Fiber* f = g_cur; f->crashed = true; f->done = true; g_sched->crashes.push_back({ f->doing, f->tag });
    for (void* h : f->files) { s_paths.erase(h); real_close(h); } f->files.clear();
    if (f->on_crash) f->on_crash();
    to_main();      // never comes back
}
static void point(Op op, bool after) {
    Fiber* f = g_cur; Sched* s = g_sched; if (!after) { f->ops++; s->ops[op]++; s->hash = s->hash * 1099511628211ull + (uint64_t)(f->tag * 16 + op + 1); s_fails = 0; }
    if (f->crash_at >= 0 && f->ops >= f->crash_at && !f->no_crash && !f->torn && (after || (f->ops & 1))) { crash_here(); }
    if (s->rng->chance(s->switch_pct)) to_main();
}
static void fiber_main(void* a) { Fiber* f = (Fiber*)a; f->body(); f->done = true; for (;;) to_main(); }
static void WINAPI fiber_proc(void* a) { fiber_main(a); }
Fiber* Sched::spawn(std::function<void()> body) { Fiber* f = new Fiber; f->body = body; f->handle = CreateFiber(512 * 1024, fiber_proc, f); fibers.push_back(f); return f; }
void Sched::wait_for(Fiber* f) { while (!f->done) { g_cur->blocked = true; to_main(); } g_cur->blocked = false; }
void Sched::run() {
    g_sched = this; main = IsThreadAFiber() ? GetCurrentFiber() : ConvertThreadToFiber(nullptr);
    for (;;) {
        std::vector<Fiber*> live; for (auto* f : fibers) if (!f->done) live.push_back(f);
        if (live.empty()) break;
        if (s_fails > 400) { deadlock = true; break; }
        if (++steps > 400000) { deadlock = true; break; }
        Fiber* f = live[rng->below((uint32_t)live.size())]; switches += f != g_cur; if (f->blocked) s_fails++;
        g_cur = f; rt_progress(); SwitchToFiber(f->handle); g_cur = nullptr;
    }
    for (auto* f : fibers) { for (void* h : f->files) { s_paths.erase(h); real_close(h); } if (f->handle) DeleteFiber(f->handle); delete f; }
    fibers.clear(); g_sched = nullptr; g_cur = nullptr; s_fails = 0;
}
static std::wstring path_of(HANDLE h) { auto i = s_paths.find(h); return i == s_paths.end() ? L"" : i->second; }
static bool mine(HANDLE h) { return g_cur && g_cur->files.count(h); }
}
using namespace fo;
extern "C" {
static HANDLE WINAPI my_CreateFileW(LPCWSTR n, DWORD a, DWORD s, LPSECURITY_ATTRIBUTES sa, DWORD c, DWORD fl, HANDLE t) {
    REAL(CreateFileW); if (!g_cur) return p(n, a, s, sa, c, fl, t);
    point(op_create, false); if (g_cur->fault && g_cur->fault(op_create, n)) { SetLastError(ERROR_SHARING_VIOLATION); return INVALID_HANDLE_VALUE; }
    HANDLE h = p(n, a, s, sa, c, fl, t); DWORD e = GetLastError(); if (h != INVALID_HANDLE_VALUE) { g_cur->files.insert(h); s_paths[h] = n; }
    if (g_cur->watch) g_cur->watch(op_create, n); point(op_create, true); SetLastError(e); return h;
}
static BOOL WINAPI my_CloseHandle(HANDLE h) {
    if (!mine(h)) return real_close(h);
    point(op_close, false); std::wstring n = path_of(h); g_cur->files.erase(h); s_paths.erase(h); BOOL r = real_close(h); if (g_cur->watch) g_cur->watch(op_close, n); point(op_close, true); return r;
}
static BOOL WINAPI my_ReadFile(HANDLE h, LPVOID b, DWORD n, LPDWORD got, LPOVERLAPPED o) { REAL(ReadFile); if (!mine(h)) return p(h, b, n, got, o); point(op_read, false); return p(h, b, n, got, o); }
static BOOL WINAPI my_WriteFile(HANDLE h, LPCVOID b, DWORD n, LPDWORD put, LPOVERLAPPED o) {
    REAL(WriteFile); if (!mine(h)) return p(h, b, n, put, o);
    point(op_write, false); LARGE_INTEGER zero = {}, pos = {}, size = {}; SetFilePointerEx(h, zero, &pos, FILE_CURRENT); GetFileSizeEx(h, &size);
    if (g_cur->fault && pos.QuadPart + n > size.QuadPart && g_cur->fault(op_write, path_of(h))) { DWORD did = 0; if (n > 1 && g_sched->rng->chance(50)) p(h, b, g_sched->rng->range(1, (int)n - 1), &did, nullptr); if (put) *put = did; g_cur->torn = did > 0; bool part = did && g_sched->rng->chance(50); SetLastError(ERROR_DISK_FULL); return part; }
    BOOL r = p(h, b, n, put, o); if (g_cur->watch) g_cur->watch(op_write, path_of(h)); point(op_write, true); return r;
}
static BOOL WINAPI my_SetEndOfFile(HANDLE h) { REAL(SetEndOfFile); if (!mine(h)) return p(h); point(op_seteof, false); BOOL r = p(h); g_cur->torn = false; if (g_cur->watch) g_cur->watch(op_seteof, path_of(h)); point(op_seteof, true); return r; }
static BOOL WINAPI my_LockFileEx(HANDLE h, DWORD f, DWORD r, DWORD lo, DWORD hi, LPOVERLAPPED o) {
    REAL(LockFileEx); if (!mine(h)) return p(h, f, r, lo, hi, o);
    point(op_lock, false); bool waited = false;
    for (;;) { BOOL ok = p(h, f | LOCKFILE_FAIL_IMMEDIATELY, r, lo, hi, o); if (ok || (f & LOCKFILE_FAIL_IMMEDIATELY) || (GetLastError() != ERROR_LOCK_VIOLATION && GetLastError() != ERROR_IO_PENDING)) { g_cur->blocked = false; if (waited) g_sched->contended++; s_fails = 0; return ok; } waited = true; g_cur->blocked = true; SwitchToFiber(g_sched->main); }
}
static BOOL WINAPI my_UnlockFileEx(HANDLE h, DWORD r, DWORD lo, DWORD hi, LPOVERLAPPED o) { REAL(UnlockFileEx); if (!mine(h)) return p(h, r, lo, hi, o); BOOL ok = p(h, r, lo, hi, o); if (g_cur->watch) g_cur->watch(op_unlock, path_of(h)); point(op_unlock, false); return ok; }
static BOOL WINAPI my_DeleteFileW(LPCWSTR n) { REAL(DeleteFileW); if (!g_cur) return p(n); point(op_delete, false); BOOL r = p(n); DWORD e = GetLastError(); if (g_cur->watch) g_cur->watch(op_delete, n); point(op_delete, true); SetLastError(e); return r; }
void* __imp_CreateFileW = (void*)my_CreateFileW;
void* __imp_CloseHandle = (void*)my_CloseHandle;
void* __imp_ReadFile = (void*)my_ReadFile;
void* __imp_WriteFile = (void*)my_WriteFile;
void* __imp_SetEndOfFile = (void*)my_SetEndOfFile;
void* __imp_LockFileEx = (void*)my_LockFileEx;
void* __imp_UnlockFileEx = (void*)my_UnlockFileEx;
void* __imp_DeleteFileW = (void*)my_DeleteFileW;
}
