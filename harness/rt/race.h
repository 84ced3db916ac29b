// Race detector of the "race" build (does nothing in the others), and stand-ins for functions looked up at run time.
#pragma once
struct RaceCounts { unsigned long long accesses, acquires, releases, locks, events, threads, delays, races; };
extern RaceCounts g_race;
struct StandIn { const char* name; void* f; };
extern "C" {
void race_start(unsigned long long seed);
void race_delay(unsigned level);            // 0: none; 65536/level accesses on average between two delays
void race_stand_ins(StandIn* list);         // ends with a null name
void rt_race_report(const char* what, unsigned size, const char* other, unsigned long long other_pc, const char* pcs);
}
