// Runtime shared by all harness executables: event output, assertion/crash capture,
// and (in the san build) the AddressSanitizer/UBSan runtime.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
void rt_init(void);                       // call first in main
void rt_out(const char* fmt, ...);        // one line to the event stream (raw fd 1, bypassing clink)
unsigned rt_assert_count(void);           // internal assertions that failed so far
unsigned rt_san_count(void);              // sanitizer reports so far
void rt_context(const char* text);        // input being processed (printed with reports)
void rt_watchdog_wall(unsigned seconds);      // the same by elapsed time, with @STUCK
void rt_watchdog(unsigned cpu_seconds);     // end the process with @HANG when the calling thread burns that much CPU without rt_progress
void rt_progress(void);
void rt_fail_malloc(int nth);                // san only: the nth allocation from now fails (0: none)
void rt_assert_report(int on);            // report failed assertions as @ASSERT lines
}
