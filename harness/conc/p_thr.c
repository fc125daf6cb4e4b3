/* C01, C03 with real threads: a writer and a reader run freely on two processors, with random delays. Under
   ThreadSanitizer its runtime judges the races; the stream and progress checks are the same everywhere. The harness
   shares only relaxed counters between the threads, so it adds no ordering of its own. */
#include "mon.h"
#include <pthread.h>
#include <sys/prctl.h>
#include <time.h>
#include <stdatomic.h>
#include "collections/circular_buffer.h"

#define ESZ sizeof(GEL_CBUF_TYPE)
#define MAXLEN 300
typedef struct {
    circular_buf_t  cb;
    GEL_CBUF_TYPE  *mem;
    size_t          cap;
    uint64_t        total;
    _Alignas(128) atomic_ullong hs; /* accepted by calls that returned */
    _Alignas(128) atomic_ullong ho; /* offered at most */
    _Alignas(128) atomic_ullong ts; /* taken by calls that returned */
    _Alignas(128) atomic_int stop;
    time_t          until;
    struct {
        uint64_t rng;
        int      bad, style;
        char     key[40], msg[200];
        uint64_t ops, full, moved, waits;
        GEL_CBUF_TYPE buf[MAXLEN];
    } t[2];
    pthread_barrier_t bar;
} st_t;
#define G(x) atomic_load_explicit(&(x), memory_order_relaxed)
#define P(x, v) atomic_store_explicit(&(x), v, memory_order_relaxed)
static uint64_t rng(uint64_t *x) {
    uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
#define BAD(k, ...)                                                                                                    \
    do {                                                                                                               \
        snprintf(s->t[me].key, sizeof s->t[me].key, "%s", k);                                                          \
        snprintf(s->t[me].msg, sizeof s->t[me].msg, __VA_ARGS__);                                                      \
        s->t[me].bad = 1;                                                                                              \
        P(s->stop, 1);                                                                                                 \
        return NULL;                                                                                                   \
    } while (0)
/* The traffic of one case ends early on a machine too busy to run both threads at once. */
static int over(st_t *s, uint64_t ops) {
    struct timespec t;
    if (ops % 64)
        return 0;
    clock_gettime(CLOCK_MONOTONIC, &t);
    if (t.tv_sec < s->until)
        return 0;
    P(s->stop, 2);
    return 1;
}
static void pause_a_bit(st_t *s, int me) {
    uint64_t r = rng(&s->t[me].rng);
    if (s->t[me].style == 0 ? r % 4 == 0 : s->t[me].style == 1 ? r % 64 == 0 : 0) {
        volatile int spin = 0;
        for (int i = 0, n = (int)(r >> 32) % (s->t[me].style ? 4000 : 60); i < n; i++)
            spin++;
    }
}
/* Nothing to do: leave the processor to the other side. */
static void wait_a_bit(uint64_t idle) {
    if (idle == 60)
        prctl(PR_SET_TIMERSLACK, 1UL);
    if (idle >= 60)
        nanosleep(&(struct timespec){0, idle < 2000 ? 1 : 50000}, NULL);
}
static void *writer(void *arg) {
    st_t    *s  = arg;
    int      me = 0;
    uint64_t hs = 0, idle = 0;
    pthread_barrier_wait(&s->bar);
    while (hs < s->total && !G(s->stop) && !over(s, s->t[0].ops)) {
        uint64_t r    = rng(&s->t[0].rng);
        size_t   len  = r % 3 == 0 ? 1 : r % 3 == 1 ? (r >> 8) % (s->cap + 3) : (r >> 8) % 9;
        uint64_t ts   = G(s->ts), room = s->cap - (hs - ts);
        int      got, how = (int)((r >> 40) % 4);
        if (hs - ts > s->cap)
            room = 0;
        if (how == 0 || len == 1) {
            int full = is_circular_buf_full(&s->cb);
            mon_elem(s->t[0].buf, ESZ, hs);
            P(s->ho, hs + 1);
            got = circular_buf_putc(&s->cb, s->t[0].buf[0]) == 0;
            if ((!full || room > 0) && !got)
                BAD("free-space-refused", "putc refused although the writer saw free space");
        } else {
            if (how == 1) {
                size_t n = circular_buf_size(&s->cb);
                if (n > s->cap)
                    BAD("size-bounds", "the writer saw a fill level of %zu, capacity %zu", n, s->cap);
                len = s->cap - n;
            }
            if (len > MAXLEN)
                len = MAXLEN;
            for (size_t i = 0; i < len; i++)
                mon_elem((uint8_t *)s->t[0].buf + i * ESZ, ESZ, hs + i);
            P(s->ho, hs + len);
            got = circular_buf_puts(&s->cb, s->t[0].buf, len);
            if (got < 0 || got > (int)len)
                BAD("puts-count", "puts of %zu elements returned %d", len, got);
            if (how == 1 && got != (int)len)
                BAD("free-space-refused", "the writer saw room for %zu elements but could put only %d", len, got);
            if ((uint64_t)got < (len < room ? len : room))
                BAD("puts-refused", "puts of %zu elements accepted %d although %llu were free", len, got, (unsigned long long)room);
        }
        hs += (uint64_t)got;
        P(s->hs, hs);
        s->t[0].ops++;
        s->t[0].moved += got > 0;
        s->t[0].full += got < (int)len;
        if (got)
            idle = 0;
        else
            wait_a_bit(++idle);
        pause_a_bit(s, 0);
    }
    return NULL;
}
static void *reader(void *arg) {
    st_t    *s  = arg;
    int      me = 1;
    uint64_t ts = 0, idle = 0;
    pthread_barrier_wait(&s->bar);
    while (ts < s->total && !G(s->stop) && !over(s, s->t[1].ops)) {
        uint64_t r   = rng(&s->t[1].rng);
        size_t   len = r % 3 == 0 ? 1 : r % 3 == 1 ? (r >> 8) % (s->cap + 3) : (r >> 8) % 9;
        uint64_t hs  = G(s->hs), there = hs > ts ? hs - ts : 0;
        int      got, how = (int)((r >> 40) % 6), data = 1, take = 1;
        if (len > MAXLEN)
            len = MAXLEN;
        if (how == 0) {
            int empty = is_circular_buf_empty(&s->cb);
            len       = 1;
            got       = circular_buf_getc(&s->cb, s->t[1].buf) == 0;
            if ((!empty || there > 0) && !got)
                BAD("level-not-readable", "getc failed although the reader saw elements");
        } else if (how == 1) {
            size_t n = circular_buf_size(&s->cb);
            if (n > s->cap)
                BAD("size-bounds", "the reader saw a fill level of %zu, capacity %zu", n, s->cap);
            len = n;
            got = circular_buf_gets(&s->cb, s->t[1].buf, (int)len);
            if (got != (int)len)
                BAD("level-not-readable", "the reader saw %zu elements but could get only %d", len, got);
        } else if (how == 2) {
            got  = circular_buf_drop(&s->cb, (int)len);
            data = 0;
        } else if (how == 3) {
            got  = circular_buf_peek(&s->cb, s->t[1].buf, (int)len);
            take = 0;
        } else
            got = circular_buf_gets(&s->cb, s->t[1].buf, (int)len);
        if (got < 0 || got > (int)len)
            BAD("gets-count", "a read of %zu elements returned %d", len, got);
        if ((uint64_t)got < (len < there ? len : there))
            BAD("gets-refused", "a read of %zu elements returned %d although %llu were stored", len, got, (unsigned long long)there);
        if (ts + (uint64_t)got > G(s->ho))
            BAD("invented", "the reader got %d elements at position %llu, more than were offered", got, (unsigned long long)ts);
        for (int i = 0; data && i < got; i++)
            if (!mon_elem_is((uint8_t *)s->t[1].buf + i * ESZ, ESZ, ts + (uint64_t)i))
                BAD("fifo", "element %d of %d read is not the one written at position %llu of the stream", i, got, (unsigned long long)(ts + (uint64_t)i));
        if (take)
            ts += (uint64_t)got;
        P(s->ts, ts);
        s->t[1].ops++;
        s->t[1].moved += got > 0;
        s->t[1].full += got < (int)len;
        if (got)
            idle = 0;
        else
            wait_a_bit(++idle);
        pause_a_bit(s, 1);
    }
    return NULL;
}
static void run(int property) {
    st_t *s = mon_zalloc(sizeof *s + 128);
    s       = (st_t *)(((uintptr_t)s + 127) & ~(uintptr_t)127);
    size_t bufsize = chance(1, 4) ? 20 + rn(240) : 2 + rn(12);
    s->cap         = bufsize - 1;
    s->mem         = mon_guard(bufsize * ESZ);
    s->total       = MON->thorough ? 60000 : 6000;
    for (int i = 0; i < 2; i++) {
        s->t[i].rng   = rnd();
        s->t[i].style = rn(4);
    }
    OP("init, capacity %zu, elements of %zu bytes, %llu elements through real threads", s->cap, ESZ, (unsigned long long)s->total);
    CHECK_EQ(circular_buf_init(&s->cb, s->mem, bufsize), 0, "init", "init");
    struct timespec now;
    clock_gettime(CLOCK_MONOTONIC, &now);
    s->until = now.tv_sec + (MON->thorough ? 20 : 2);
    pthread_barrier_init(&s->bar, NULL, 2);
    pthread_t th[2];
    pthread_create(&th[0], NULL, writer, s);
    pthread_create(&th[1], NULL, reader, s);
    for (int i = 0; i < 2; i++)
        pthread_join(th[i], NULL);
    pthread_barrier_destroy(&s->bar);
    MON->events += s->t[0].ops + s->t[1].ops;
    MON->ops += s->t[0].ops + s->t[1].ops;
    OBS(s->cap);
    OBS(s->t[0].ops);
    OBS(s->t[1].ops);
    mon_state(mon_mix(s->t[0].full, mon_mix(s->t[1].full, s->t[0].ops)));
    if (property == 1)
        for (int i = 0; i < 2; i++)
            if (s->t[i].bad)
                mon_fail(s->t[i].key, "real threads: %s", s->t[i].msg);
    if (!s->t[0].bad && !s->t[1].bad && property == 1) {
        CHECK_EQ(circular_buf_size(&s->cb), G(s->hs) - G(s->ts), "lost", "elements left after both threads ended");
        mon_guard_check(s->mem, "ring storage");
    }
    if (s->t[0].full && s->t[1].full && s->t[0].moved > 100)
        mon_nontrivial();
}
static void c01(void) { run(1); }
static void c03(void) { run(3); }
DRIVER("C01", c01, "real writer and reader threads; non-trivial: both met a full or empty buffer in the middle of the traffic")
DRIVER("C03", c03, "real writer and reader threads; non-trivial: both met a full or empty buffer in the middle of the traffic")
