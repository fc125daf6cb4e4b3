/* Controlled execution of two threads: the library is compiled with ThreadSanitizer's instrumentation, whose callbacks
   land here instead of in its runtime. Every memory access is a scheduling point of a cooperative scheduler, and a
   vector-clock detector judges the accesses to the registered shared memory. */
#ifndef CONC_RT_H
#define CONC_RT_H
#include <stdint.h>
#include <stddef.h>
enum { SCHED_UNIFORM, SCHED_BURSTS, SCHED_PREEMPT, SCHED_PRIORITY, SCHED_KINDS };
typedef struct {
    int      kind;
    unsigned rate;          /* mean accesses between switches */
    int      npre;          /* preemption points */
    uint32_t pre[8];        /* global access numbers */
    uint32_t len[8];        /* accesses the other thread then gets (0: until it ends) */
    int      stale;         /* atomic loads may return older values the memory model allows */
    int      quiet;         /* calls over their budget end the case without a verdict */
    uint64_t rng;
} sched_t;
typedef struct {
    const char *name;
    void       *p;
    size_t      n;
} region_t;
/* runs fn(0) and fn(1) as two threads under the schedule */
void     conc_run(const sched_t *s, void (*fn)(int), const region_t *regions, int nregions);
void     conc_stop(void); /* accesses are no longer scheduled or judged (after a violation) */
void     conc_call(uint64_t budget); /* the current thread starts a library call of at most so many accesses */
uint64_t conc_accesses(void);
uint64_t conc_switches(void);  /* switches in the middle of a library call */
uint64_t conc_overlaps(void);  /* accesses made while the other thread was inside a call */
uint64_t conc_signature(void); /* hash of the interleaving */
int      conc_stale_reads(void);
void     conc_return(void);    /* the current thread left the library */
int      conc_self(void);
const char *conc_race(void);   /* description of the first race, or NULL */
#endif
