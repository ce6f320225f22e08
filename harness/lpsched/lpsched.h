// lpsched: a deterministic, controlled scheduler and dynamic race detector for code compiled with
// `g++ -fsanitize=thread -c` and linked WITHOUT libtsan. See lpsched.cpp.
#ifndef LPSCHED_H
#define LPSCHED_H

#ifdef __cplusplus
extern "C" {
#endif

// Appends one JSON object (already formatted; printf-style) to the trace of the running schedule. Atomic w.r.t. the
// schedule; a scheduling point follows.
void lps_event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// As lps_event, but without the scheduling point.
void lps_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// Number of the calling simulated thread (0 = main thread of the scenario).
int lps_self();
// Virtual time in microseconds since the beginning of the scenario.
long long lps_now_us();

// One-shot flags with happens-before edges, for the harness to order its own threads.
void lps_flag_set(int flag);
void lps_flag_wait(int flag);
int lps_flag_isset(int flag);

// Blocks until every other thread is blocked and `us` of virtual time have passed with no timer due before.
void lps_idle(long long us);
void lps_yield();
// After this many scheduling steps an execution is taken to go on for ever.
void lps_limit(unsigned long long steps);
// An unchecked section: accesses in it are not recorded (the harness' own bookkeeping). No scheduling either.
void lps_quiet_begin();
void lps_quiet_end();

// Runs `scenario(arg)` under `count` schedules (forking a child for each), seeds seed..seed+count-1, and appends one line
// "[ev,ev,...]" per schedule to the stream `fd`. `tag` is put into the first event of every trace.
//   mode 0: timers fire only if nothing else can run (prompt machine)
//   mode 1: timers (and spurious wake-ups) may fire at any time (slow machine)
typedef struct
{
  long long schedules, steps, races, switches, distinct;
} lps_stats;
void lps_explore(int fd, const char* tag, void (*scenario)(void*), void* arg, unsigned seed, int count, int mode, lps_stats* stats);

#ifdef __cplusplus
}
#endif
#endif
