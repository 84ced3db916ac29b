// File operations of the code under test become scheduling, crash and fault points.
#pragma once
#include <functional>
#include <set>
#include <string>
#include <vector>
struct Rng;
namespace fo {
enum Op { op_create, op_close, op_read, op_write, op_seteof, op_lock, op_unlock, op_delete, op_count };
extern const char* op_names[op_count];
struct Fiber {
    void* handle = nullptr; std::function<void()> body; bool done = false, crashed = false, blocked = false;
    std::set<void*> files; long ops = 0; long crash_at = -1; bool no_crash = false, torn = false; const char* doing = "";
    int tag = 0;                    // for the workload
    std::function<bool(Op, const std::wstring& path)> fault;     // true: the operation fails
    std::function<void()> on_crash;
    std::function<void(Op, const std::wstring& path)> watch;     // called after each operation
};
struct Sched {
    Rng* rng; int switch_pct = 30; std::vector<Fiber*> fibers; void* main = nullptr; bool deadlock = false; long switches = 0, contended = 0, steps = 0; uint64_t hash = 0; long ops[op_count] = {};
    std::vector<std::pair<std::string, int>> crashes;
    void run();                     // until every fiber ended
    Fiber* spawn(std::function<void()> body);
    void wait_for(Fiber* f);        // from a fiber
};
extern Sched* g_sched; extern Fiber* g_cur;
void crash_here();                  // the current fiber's process ends now
}
