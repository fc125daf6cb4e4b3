/* X07: how much stack, and for calls on single elements how many basic blocks, each call into the library takes.
   The library's objects report function entry and exit here (mon_cost_enter/exit), the drivers' own objects to
   mon_drv_enter/exit: a driver function entered during a call is a callback, whose cost is not the library's. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include "mon.h"
#define REGION (16 * 1024)
#define STACK_LIMIT 2048
#define STACK_LIMIT_TEXT 12288 /* sprintf belongs to the C library */
#define EDGE_LIMIT 1000
#define BULK_LIMIT 8192   /* bytes handled by memcpy and the like in a call on a single element */
#define PAT 0x9E3779B97F4A7C15ull
#define NI __attribute__((noinline, no_instrument_function))

typedef struct { void *fn; char name[64]; uint32_t api, one, limit, depth; uint64_t edges, calls, bulk, bulkmax; } fn_t;
static fn_t     fns[4096];
static uint32_t nfns;
static fn_t    *top;     /* the call being measured */
static void    *topfn;
static int      depth;   /* frames of it */
static int      away;    /* callbacks under way */
static uint64_t edges, edges0, measured, bulk;
static char    *base;
static uint64_t low;     /* deepest use seen so far in this call */

static int suffix(const char *n, const char *s) {
    size_t a = strlen(n), b = strlen(s);
    return a >= b && !strcmp(n + a - b, s);
}
static const char *const ONE[] = {
    "circular_buf_putc", "circular_buf_getc", "circular_buf_size", "circular_buf_capacity", "is_circular_buf_empty", "is_circular_buf_full",
    "circular_buf_reset", "circular_event_log_new_event", "circular_event_log_total_events", "debounce_filter_single", "pulse_level",
    "scheduler_get_entry", "scheduler_get_entry_mut", "scheduler_set_entry", "scheduler_is_schedule_entry_enabled", "scheduler_disable_schedule_entry",
    "keypad_get_key_state", "pman_process_page_event", "pman_page_update", "pman_back", "pman_swap_page", "pman_swap_page_extra", "pman_change_page",
    "pman_change_page_extra", "pman_init", "stopwatch_start", "stopwatch_stop", "stopwatch_pause", "stopwatch_restart", "stopwatch_change", "stopwatch_set",
    "stopwatch_get_state", "stopwatch_get_elapsed", "stopwatch_get_remaining", "stopwatch_is_timer_reached", "stopwatch_setngo", "gel_timer_reset",
    "gel_timer_stop", "gel_timer_resume", "gel_timer_pause", "gel_timer_change_period", "gel_timer_manage_callback", "gel_timer_get_remaining",
    "watcher_trigger_cb", "parameter_to_long", "parameter_to_index", "parameter_to_bool", "parameter_operator", "parameter_clone",
    NULL};
NI static fn_t *look(void *fn) {
    uint32_t h = (uint32_t)((uintptr_t)fn * 0x9E3779B1u >> 7) & 4095;
    while (fns[h].fn && fns[h].fn != fn)
        h = (h + 1) & 4095;
    fn_t *f = &fns[h];
    if (!f->fn && nfns < 4000) {
        Dl_info i;
        f->fn = fn;
        nfns++;
        if (dladdr(fn, &i) && i.dli_saddr == fn && i.dli_sname) {
            snprintf(f->name, sizeof f->name, "%s", i.dli_sname);
            f->api   = 1;
            f->limit = !strncmp(f->name, "parameter_to_string", 19) ? STACK_LIMIT_TEXT : !strcmp(f->name, "wearleveling_write") /* keeps a copy of the value */ || !strncmp(f->name, "par_", 4) /* ours */ ? UINT32_MAX : STACK_LIMIT;
            for (int k = 0; ONE[k]; k++)
                f->one |= !strcmp(f->name, ONE[k]);
            /* instances of stacks, queues and state machines */
            int stack = !strncmp(f->name, "navigation_stack_", 17) || (!strncmp(f->name, "st", 2) && strpbrk(f->name, "0123456789")), queue = f->name[0] == 'q';
            static const char *const coll[] = {"_enqueue", "_count", "_push", "_pop", "_drop", "_is_empty", "_is_full", NULL};
            for (int k = 0; coll[k]; k++)
                f->one |= (stack || queue) && suffix(f->name, coll[k]);
            f->one |= f->name[0] == 'l' && (f->name[1] == 'w' || f->name[2] == '_'); /* insertion, removal, tests and steps of lists */
            /* these handle as many bytes as the caller's value has */
            f->bulk = !strncmp(f->name, "watcher", 7) ? UINT64_MAX : BULK_LIMIT;
            int wide = strstr(f->name, "s70001_") || strstr(f->name, "s2000_"); /* might copy by a loop of their own */
            f->one |= (suffix(f->name, "_peek") && stack) || (suffix(f->name, "_dequeue") && queue) || suffix(f->name, "_sm_send_event");
            f->one &= !wide;
        }
    }
    return f;
}
NI static void paint(void) {
    volatile uint64_t mark[4];
    uint64_t *hi = (uint64_t *)(((uintptr_t)mark - 256) & ~(uintptr_t)63), *lo = hi - REGION / 8;
    __asm__ volatile("" : "+r"(lo), "+r"(hi)::"memory");
    for (uint64_t *p = lo; p < hi; p++)
        *p = PAT;
    __asm__ volatile("" ::: "memory");
}
/* deepest changed word below the base of the measured call */
NI static void scan(void) {
    volatile uint64_t mark[4];
    uint64_t *hi = (uint64_t *)(((uintptr_t)mark - 256) & ~(uintptr_t)63), *lo = (uint64_t *)(((uintptr_t)base - REGION + 2048) & ~(uintptr_t)63);
    __asm__ volatile("" : "+r"(lo), "+r"(hi)::"memory");
    for (; lo + 64 <= hi; lo += 64) {
        uint64_t d = 0;
        for (int i = 0; i < 64; i++)
            d |= lo[i] ^ PAT;
        if (d)
            break;
    }
    while (lo < hi && *lo == PAT)
        lo++;
    if (lo < hi && (uint64_t)(base - (char *)lo) > low)
        low = base - (char *)lo;
}
NI void mon_cost_enter(void *fn, void *site) {
    (void)site;
    if (depth && (char *)__builtin_frame_address(1) > base - 16) /* a callback left the call for good (power cut) */
        depth = away = 0;
    if (!MON || away)
        return;
    if (depth++ == 0) {
        fn_t *f = look(fn);
        if (!f->api) { /* a wrapper of the harness */
            depth = 0;
            return;
        }
        top    = f;
        topfn  = fn;
        base   = (char *)__builtin_frame_address(1) + 16;
        low    = 0;
        edges0 = edges;
        bulk   = 0;
        paint();
    } else {
        char *here = __builtin_frame_address(0);
        if ((uint64_t)(base - here) > low + 512 && base - here > REGION / 2) /* beyond the painted part */
            low = base - here;
    }
}
NI void mon_cost_exit(void *fn, void *site) {
    (void)site;
    if (!MON || away || depth == 0 || --depth > 0)
        return;
    (void)fn;
    uint64_t e = edges - edges0;
    scan();
    fn_t *f = top;
    top     = NULL;
    f->calls++;
    measured++;
    if (low > f->depth)
        f->depth = low;
    if (e > f->edges)
        f->edges = e;
    if (bulk > f->bulkmax)
        f->bulkmax = bulk;
    if (f->one && bulk > f->bulk)
        mon_fail("cost:bulk", "%s, working on a single element, set, copied or compared %llu bytes", f->name, (unsigned long long)bulk);
    if (low > f->limit)
        mon_fail("cost:stack", "%s took at least %llu bytes of stack (at most %u are allowed)", f->name, (unsigned long long)low, f->limit);
    if (f->one && e > EDGE_LIMIT)
        mon_fail("cost:time", "%s, working on a single element, executed %llu basic blocks", f->name, (unsigned long long)e);
}
NI void mon_drv_enter(void *fn, void *site) {
    (void)fn, (void)site;
    if (depth && (char *)__builtin_frame_address(1) > base - 16)
        depth = away = 0;
    if (depth && away++ == 0)
        scan();
}
NI void mon_drv_exit(void *fn, void *site) {
    (void)fn, (void)site;
    if (depth && away && --away == 0)
        paint();
}
/* the library's calls of these functions come here */
NI static void amount(size_t n) {
    if (depth && !away)
        bulk += n;
}
NI void *mon_cost_memset(void *d, int c, size_t n) { return amount(n), memset(d, c, n); }
NI void *mon_cost_memcpy(void *d, const void *s, size_t n) { return amount(n), memcpy(d, s, n); }
NI void *mon_cost_memmove(void *d, const void *s, size_t n) { return amount(n), memmove(d, s, n); }
NI int   mon_cost_memcmp(const void *a, const void *b, size_t n) { return amount(n), memcmp(a, b, n); }
NI static void env(int in) {
    if (in < 0)
        depth = away = 0, top = NULL; /* a new case */
    else if (in)
        mon_drv_enter(NULL, NULL);
    else
        mon_drv_exit(NULL, NULL);
}
NI void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a, (void)b; }
NI void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    mon_ctx *m = MON;
    (void)g;
    edges++;
    if (depth && !away) {
        uint64_t used = base - (char *)__builtin_frame_address(0); /* the stack pointer itself, in every basic block */
        if (used > low && used < (64u << 20))
            low = used;
    }
    if (m && ++m->steps > m->budget && m->budget)
        mon_hang();
}
NI static void report(void) {
    unsigned n = 0, one = 0, deep = 0, slow = 0;
    for (int i = 0; i < 4096; i++)
        if (fns[i].calls) {
            n++, one += fns[i].one;
            if (fns[i].limit == STACK_LIMIT && fns[i].depth > deep)
                deep = fns[i].depth;
            if (fns[i].one && fns[i].edges > slow)
                slow = (unsigned)fns[i].edges;
            if (getenv("MON_COST"))
                fprintf(stderr, "%-40s calls %-9llu stack %-6u bulk %-9llu blocks %llu%s\n", fns[i].name, (unsigned long long)fns[i].calls, fns[i].depth, (unsigned long long)fns[i].bulkmax, (unsigned long long)fns[i].edges, fns[i].one ? " *" : "");
        }
    printf("@@S calls_measured %llu\n@@S max_functions_measured %u\n@@S max_single_element_functions %u\n@@S max_deepest_stack %u\n@@S max_most_blocks_single %u\n", (unsigned long long)measured, n, one, deep, slow);
}
__attribute__((constructor)) static void hook(void) {
    static char alt[1 << 16]; /* the watchdog's signal frame must not be taken for stack use of the call */
    stack_t     st = {.ss_sp = alt, .ss_size = sizeof alt};
    sigaltstack(&st, NULL);
    mon_env_hook    = env;
    mon_report_hook = report;
}
