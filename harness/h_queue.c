/* Sample queue: arbitrary interleaving of one producer, one consumer and a shutdown, against a reference FIFO.
 * -DQS queue size, -DBLK blocking?, -DOPS number of operations, -DBS buffer size */
#define VP_CUSTOM_cond
#define VP_CUSTOM_mutex
#include "vp_env.h"
#include "queue.h"

static int held;      /* the queue mutex */
static int wakes;     /* broadcasts + signals */
static bool in_wait;
static int waits;
static queue *q;

/* ---- reference model ---- */
#define MAXP 12
static float m_tag[MAXP]; static size_t m_len[MAXP];
static int m_head, m_tail;          /* pending = [head,tail) */
static bool m_detached; static float d_tag; static size_t d_len; static vp_cf *d_buf;
static bool m_poison; static int tagno;

int vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void) m; (void) a; return 0; }
int vp_pthread_mutex_destroy(pthread_mutex_t *m) { (void) m; return 0; }
int vp_pthread_mutex_lock(pthread_mutex_t *m) { (void) m; VP_ASSERT(held == 0, "queue lock is never taken twice by one thread"); held++; return 0; }
int vp_pthread_mutex_trylock(pthread_mutex_t *m) { return vp_pthread_mutex_lock(m); }
int vp_pthread_mutex_unlock(pthread_mutex_t *m) { (void) m; VP_ASSERT(held == 1, "queue lock released only while held"); held--; return 0; }
int vp_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void) c; (void) a; return 0; }
int vp_pthread_cond_destroy(pthread_cond_t *c) { (void) c; return 0; }
int vp_pthread_cond_signal(pthread_cond_t *c) { (void) c; wakes++; return 0; }
int vp_pthread_cond_broadcast(pthread_cond_t *c) { (void) c; wakes++; return 0; }

static int pending(void) { return m_tail - m_head; }
static int capacity(void) { return QS - pending() - (m_detached ? 1 : 0); }
static void model_put(float tag, size_t len) {
    if (capacity() > 0) { m_tag[m_tail] = tag; m_len[m_tail] = len; m_tail++; }
    else if (pending() > 0) { m_tag[m_tail - 1] = tag; m_len[m_tail - 1] = len; }
}
static void check_content(vp_cf *b, float tag, size_t len) {
    for (size_t i = 0; i < BS; i++)
        if (i < len) VP_ASSERT(((float *) b)[2 * i] == tag && ((float *) b)[2 * i + 1] == (float) i, "a delivered buffer is exactly the one that was put");
}
static bool consumer_waiting;
static int waiter_side; /* 1 consumer waits, 2 producer waits */

static void do_put(void) {
    vp_cf in[BS];
    size_t len = (size_t) nd_range(1, BS);
    float tag = (float) (++tagno);
    for (size_t i = 0; i < BS; i++) { ((float *) &in[i])[0] = tag; ((float *) &in[i])[1] = (float) i; }
    int before = wakes;
    bool was_poison = m_poison;
    waiter_side = in_wait ? waiter_side : 2;
    int code = queue_put(in, len, q);
    VP_ASSERT(held == 0, "queue lock is free after an operation");
    if (BLK && m_poison) {
        /* after shutdown a blocking queue refuses data; a put that was already satisfied may complete */
        if (was_poison) { VP_ASSERT(code != 0, "a put after shutdown is refused"); return; }
        if (code != 0) return;
    }
    VP_ASSERT(code == 0, "a valid put succeeds");
    if (!in_wait && BLK) VP_ASSERT(capacity() > 0, "a blocking put only completes when there is room");
    model_put(tag, len);
    VP_ASSERT(wakes > before || pending() == 0, "a put wakes the consumer");
}
static void do_take(void) {
    vp_cf *b = NULL; size_t len = 0;
    waiter_side = 1;
    take_buffer_for_processing(&b, &len, q);
    VP_ASSERT(held == 0, "queue lock is free after an operation");
    if (b == NULL) {
        VP_ASSERT(m_poison, "end of stream is reported only after shutdown");
        VP_ASSERT(pending() == 0, "everything accepted before shutdown is delivered first");
        return;
    }
    VP_ASSERT(pending() > 0, "nothing is delivered that was not put");
    VP_ASSUME(pending() > 0);
    VP_ASSERT(len == m_len[m_head], "a delivered buffer has the length that was put");
    check_content(b, m_tag[m_head], m_len[m_head]);
    d_tag = m_tag[m_head]; d_len = m_len[m_head]; d_buf = b; m_detached = true;
    m_head++;
}
static void do_complete(void) {
    check_content(d_buf, d_tag, d_len);
    int before = wakes;
    complete_buffer_processing(q);
    VP_ASSERT(held == 0, "queue lock is free after an operation");
    m_detached = false;
    if (BLK) VP_ASSERT(wakes > before, "returning a buffer wakes the producer");
}
static void do_interrupt(void) {
    int before = wakes;
    interrupt_waiting_the_data(q);
    VP_ASSERT(held == 0, "queue lock is free after an operation");
    m_poison = true;
    VP_ASSERT(wakes > before, "shutdown wakes every waiter");
}
int vp_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    (void) c; (void) m;
    if (in_wait) { VP_ASSERT(false, "an operation that has nothing to wait for does not wait"); VP_STOP(); return 0; }
    VP_ASSERT(held == 1, "waiting happens with the lock held");
    VP_ASSERT(!m_poison, "after shutdown nobody waits");
    if (waiter_side == 1) VP_ASSERT(pending() == 0, "the consumer waits only when there is nothing to deliver");
    else { VP_ASSERT(BLK, "a non-blocking producer never waits"); VP_ASSERT(capacity() == 0, "the producer waits only when the queue is full"); }
    /* bound on consecutive waits of one operation; constant along a path, so the unrolling stops here */
    if (waits >= WAITS) { VP_STOP(); return 0; }
    waits++;
    held = 0; in_wait = true;
    int side = waiter_side;
    uint8_t what = nd_u8();
    /* the other side moves (or nobody: a spurious wake-up); the shutdown may follow before the waiter gets the lock back */
    if (what & 1) { if (waiter_side == 1) do_put(); else if (m_detached) do_complete(); else if (pending() > 0) do_take(); }
    if (what & 2) do_interrupt();
    in_wait = false; held = 1; waiter_side = side;
    return 0;
}
int vp_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { (void) t; return vp_pthread_cond_wait(c, m); }

VP_MAIN {
    int code = create_queue(BS, QS, BLK, &q);
    VP_ASSERT(code == 0, "creation succeeds when memory is available");
    VP_ASSUME(code == 0);
    /* concrete prefix of the history, then OPS arbitrary operations */
    const char *prefix = PREFIX;
    for (int k = 0; prefix[k] != 0; k++) {
        waits = 0;
        if (prefix[k] == 'p') do_put(); else if (prefix[k] == 't') do_take(); else do_complete();
    }
    for (int k = 0; k < OPS; k++) {
        uint8_t op = nd_u8();
        waits = 0;
        if (op == 0) do_put();
        else if (op == 1) { if (m_detached) do_complete(); else do_take(); }
        else if (op == 2) do_interrupt();
    }
    if (OPS == 0) {
        vp_cf in[BS + 1];
        VP_ASSERT(queue_put(in, BS + 1, q) != 0, "a buffer larger than the limit is refused");
        VP_ASSERT(queue_put(in, 0, q) != 0, "an empty buffer is refused");
        VP_ASSERT(queue_put(NULL, 1, q) != 0, "a missing buffer is refused");
        if (pending() > 0) do_take();
    }
    if (m_poison || OPS == 0) VP_COVER("shutdown");
    destroy_queue(q);
    VP_ASSERT(vp_live == 0, "destroying the queue releases everything");
    VP_COVER("end");
}
