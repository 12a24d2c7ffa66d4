/* libsim: the deterministic simulator that lambdapic's ranks run under.
 *
 * LD_PRELOADed into one "zygote" Python process.  For each simulated run the
 * zygote forks N ranks that share one MAP_SHARED arena.  Exactly one rank
 * holds the baton at any time; every MPI call, every file operation inside
 * the run's scratch root, and every explicit sim_yield() is a point where a
 * seeded decision stream may hand the baton to another rank, delay a message,
 * choose rendezvous instead of eager sending, postpone copying received data,
 * stall a rank, kill a rank, deliver a signal or fail a file operation.
 *
 *   seams:  MPI_*            -> in-memory network (this file)
 *           GOMP_parallel &c -> coroutines in seeded order (this file)
 *           __tsan_*         -> preemption points + race detector (this file)
 *           open/write/...   -> fault injecting file layer (this file)
 *           clock_gettime, getrandom -> virtual clock, seeded entropy
 */
#define _GNU_SOURCE
#include <mpi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <malloc.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#define MAXR 32
#define MAXDEC (1u << 21)
#define MAXMSG (1u << 20)
#define MAXCOLL (1u << 15)
#define MAXLOG (1u << 15)
#define MAXFAULT 64
#define ARENA_BYTES (768ull << 20)

enum { ST_IDLE, ST_RUNNING, ST_DONE, ST_DEADLOCK, ST_ABORTED, ST_KILLED, ST_LIMIT, ST_INTERNAL };
enum { R_UNUSED, R_RUN, R_DONE, R_DEAD };

/* decision kinds */
enum { D_SCHED, D_DELAY, D_RDV, D_LAZY, D_COLL, D_STALL, D_OMP, D_PREEMPT, D_IOSHORT, D_KILLDELAY, D_NKIND };
/* counters */
enum { C_SWITCH, C_DELAYED, C_RDV, C_LAZY, C_STALL, C_OMPPERM, C_PREEMPT, C_KILL, C_SIGNAL, C_IOERR, C_IOSHORT,
       C_ABORT, C_MSG, C_REORDER, C_COLLASYNC, C_OMPREGION, C_FILEOP, C_RACE, C_TRUNC, C_COLLMISMATCH, C_ORPHAN,
       C_UNCOMPLETED, C_CLOCKJUMP, C_TAGUB, C_NCTR };
/* op kinds for the log / hash */
enum { O_SEND, O_RECV, O_WAIT, O_BARRIER, O_BCAST, O_GATHER, O_SCATTER, O_ALLGATHER, O_REDUCE, O_ALLREDUCE, O_DUP,
       O_PROBE, O_ABORT, O_FILE, O_USER, O_EXIT, O_KILL, O_SIGNAL, O_IOFAULT, O_SWITCH, O_STALL, O_TEST, O_MATCH,
       O_OMP, O_PREEMPT, O_RACE, O_ALLTOALL };

enum { F_KILL, F_SIGNAL, F_IOERR, F_IOSHORT, F_CLOCK, F_STALL };

typedef struct { int kind, rank; uint64_t at; int64_t arg; int done; int domain; int fired; } Fault;

typedef struct {
    int src, dst, tag; uint32_t ctx;
    int64_t bytes; uint64_t payload; uint64_t deliver_at, seq;
    int ready, matched, next; int rdv; int inuse; int consumed;
} Msg;

typedef struct {
    uint32_t ctx; uint32_t seq; int op, root; int count; int used;
    uint64_t off[MAXR]; int64_t len[MAXR]; unsigned char have[MAXR]; int left;
} Coll;

typedef struct { uint64_t now; int16_t rank, op; int32_t a, b, c; } LogEnt;

typedef struct {
    int st, blocked; uint64_t seen, wake_at, stall_until, ops, fops; int inbox; int exit_code; int why; int wa, wb, wc;
    uint64_t rng; int64_t clock_skew;
} RankS;

typedef struct {
    volatile int cur; volatile uint32_t fut[MAXR + 1];
    int nranks, state, killing; uint64_t kill_at; int abort_rank, abort_code;
    uint64_t now, epoch, steps, maxsteps, seq;
    uint64_t lastdel[MAXR][MAXR];
    RankS r[MAXR];
    /* decisions */
    int replay; uint32_t ndec, nreplay;
    double p[D_NKIND]; int nmax[D_NKIND];
    uint64_t prng;
    uint64_t dcount[D_NKIND];
    uint64_t ctr[C_NCTR]; uint64_t hash;
    Fault faults[MAXFAULT]; int nfaults;
    uint32_t nmsg, ncoll, nlog; uint64_t logdrop; uint64_t arena_top;
    int omp_threads; int tsan_mode; int tag_ub; int detail[8]; char note[512];
    uint64_t maxinflight; char root[512]; int rootlen; int nospawn; int orphan_src, orphan_dst, orphan_tag;
    uint8_t dkind[MAXDEC]; uint16_t dec[MAXDEC]; uint16_t rep[MAXDEC];
    Msg msg[MAXMSG]; Coll coll[MAXCOLL]; LogEnt log[MAXLOG];
    unsigned char arena[];
} Shm;

static Shm *S = NULL;
static int me = -1;              /* rank of this process, -1: zygote / not simulated */
static pthread_t main_thr; static int main_thr_set;
#include <pthread.h>
static inline int active(void) { return me >= 0 && S && pthread_equal(pthread_self(), main_thr); }

/* ------------------------------------------------------------------ rng */
static uint64_t sm64(uint64_t *s) {
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static void hashmix(uint64_t v) { S->hash = (S->hash ^ v) * 0x100000001b3ull; S->hash ^= S->hash >> 29; }

/* One seeded choice in [0,n): 0 is always the benign one. */
static int decide(int kind, int n) {
    if (n <= 1) return 0;
    uint32_t i = S->ndec++;
    if (i >= MAXDEC) { S->ndec = MAXDEC; return 0; }
    int v = 0;
    if (S->replay) { v = i < S->nreplay ? S->rep[i] : 0; if (v >= n) v = n - 1; }
    else {
        double u = (sm64(&S->prng) >> 11) * (1.0 / 9007199254740992.0);
        uint64_t z = sm64(&S->prng);
        if (u < S->p[kind]) v = 1 + (int)(z % (uint64_t)(n - 1));
    }
    S->dec[i] = (uint16_t)v; S->dkind[i] = (uint8_t)kind; S->dcount[kind]++;
    return v;
}

static void logop(int op, int a, int b, int c) {
    if (S->nlog < MAXLOG) { LogEnt *e = &S->log[S->nlog++]; e->now = S->now; e->rank = (int16_t)me; e->op = (int16_t)op; e->a = a; e->b = b; e->c = c; }
    else { LogEnt *e = &S->log[(MAXLOG / 2) + (S->logdrop++ % (MAXLOG / 2))]; e->now = S->now; e->rank = (int16_t)me; e->op = (int16_t)op; e->a = a; e->b = b; e->c = c; }
}

static uint64_t aalloc(int64_t n) {
    uint64_t o = (S->arena_top + 15) & ~15ull;
    if (o + (uint64_t)n > ARENA_BYTES) { snprintf(S->note, sizeof S->note, "arena exhausted"); S->state = ST_INTERNAL; S->killing = 1; S->kill_at = 0; return 0; }
    S->arena_top = o + (uint64_t)n;
    return o;
}

/* ------------------------------------------------------------------ baton */
static long futex(volatile uint32_t *u, int op, uint32_t v) { return syscall(SYS_futex, u, op, v, NULL, NULL, 0); }
static void wake_slot(int r) { __atomic_add_fetch(&S->fut[r], 1, __ATOMIC_SEQ_CST); futex(&S->fut[r], FUTEX_WAKE, 64); }
static void wait_baton(void) {
    while (__atomic_load_n(&S->cur, __ATOMIC_SEQ_CST) != me) {
        uint32_t v = __atomic_load_n(&S->fut[me], __ATOMIC_SEQ_CST);
        if (__atomic_load_n(&S->cur, __ATOMIC_SEQ_CST) == me) break;
        futex(&S->fut[me], FUTEX_WAIT, v);
    }
}
static void give(int r) { __atomic_store_n(&S->cur, r, __ATOMIC_SEQ_CST); wake_slot(r < 0 ? MAXR : r); }

static int eligible(int r) {
    RankS *x = &S->r[r];
    if (x->st != R_RUN) return 0;
    if (S->killing && S->now >= S->kill_at) return 1;
    if (x->stall_until > S->now) return 0;
    if (x->blocked && x->seen == S->epoch && x->wake_at > S->now) return 0;
    return 1;
}

static uint64_t earliest_undelivered(int r) {
    uint64_t best = UINT64_MAX;
    for (int i = S->r[r].inbox; i; i = S->msg[i].next) if (S->msg[i].deliver_at > S->now && S->msg[i].deliver_at < best) best = S->msg[i].deliver_at;
    return best;
}

/* Choose who runs next; -1 when nobody is left, -2 on deadlock. */
static int pick(int allow_self) {
    for (int iter = 0; iter < 64; iter++) {
        int el[MAXR], n = 0;
        for (int k = 0; k < S->nranks; k++) { int r = (me + k) % S->nranks; if (r == me && !allow_self) continue; if (eligible(r)) el[n++] = r; }
        if (n == 1) return el[0];
        if (n > 1) return el[decide(D_SCHED, n)];
        uint64_t t = UINT64_MAX; int alive = 0;
        for (int r = 0; r < S->nranks; r++) {
            if (S->r[r].st != R_RUN) continue;
            if (r == me && !allow_self) continue;
            alive = 1;
            if (S->r[r].stall_until > S->now) { if (S->r[r].stall_until < t) t = S->r[r].stall_until; continue; }
            if (S->r[r].blocked) { if (S->r[r].wake_at > S->now && S->r[r].wake_at < t) t = S->r[r].wake_at; }
        }
        if (!alive) return -1;
        if (S->killing && S->kill_at > S->now && S->kill_at < t) t = S->kill_at;
        if (t == UINT64_MAX) return -2;
        S->now = t;
    }
    return -2;
}

static void declare(int st) {
    if (S->state == ST_RUNNING) S->state = st;
    S->killing = 1; S->kill_at = 0;
}

static void die(int code) __attribute__((noreturn));
static void die(int code) {
    S->r[me].st = R_DEAD; S->r[me].exit_code = code;
    int n = pick(0);
    if (n == -2) { declare(ST_DEADLOCK); n = pick(0); }
    give(n);
    _exit(code);
}

static void check_dead(void) { if (S->killing && S->now >= S->kill_at) die(S->state == ST_ABORTED ? 1 : 137); }

static void job_kill(int st, int extra) {
    if (S->state == ST_RUNNING) S->state = st;
    if (!S->killing) { S->killing = 1; S->kill_at = S->now + 1 + (uint64_t)extra; }
}

static void switch_away(void) {
    int n = pick(1);
    if (n == -2) {
        for (int r = 0; r < S->nranks; r++) if (S->r[r].st == R_RUN) { S->detail[r & 7] = S->r[r].why; }
        declare(ST_DEADLOCK); check_dead();
    }
    if (n != me) {
        S->ctr[C_SWITCH]++; hashmix((uint64_t)n * 31 + 7); logop(O_SWITCH, n, 0, 0);
        give(n); wait_baton();
    }
    check_dead();
}

static void do_faults(int domain, uint64_t idx) {
    for (int i = 0; i < S->nfaults; i++) {
        Fault *f = &S->faults[i];
        if (f->done || f->rank != me || f->domain != domain || idx < f->at) continue;
        if (f->kind == F_KILL) {
            f->done = 1; S->ctr[C_KILL]++; logop(O_KILL, me, (int)f->arg, 0);
            job_kill(ST_KILLED, (int)f->arg); S->abort_rank = me; die(137);
        } else if (f->kind == F_SIGNAL) {
            f->done = 1; S->ctr[C_SIGNAL]++; logop(O_SIGNAL, me, (int)f->arg, 0); hashmix(0x5151 + me);
            raise((int)f->arg);
        } else if (f->kind == F_CLOCK) {
            f->done = 1; S->ctr[C_CLOCKJUMP]++; S->r[me].clock_skew += f->arg;
        } else if (f->kind == F_STALL) {
            f->done = 1; S->ctr[C_STALL]++; S->r[me].stall_until = S->now + (uint64_t)f->arg; logop(O_STALL, me, (int)f->arg, 1);
        }
    }
}

/* while held, a rank's operations are not counted for faults nor disturbed (work outside the run under test) */
static int io_held; static uint64_t fidx;
void sim_io_hold(int on) { io_held = on; }
static void yield_point(int op, int a, int b, int c) {
    RankS *x = &S->r[me];
    S->steps++; S->now++; x->ops++;
    logop(op, a, b, c);
    hashmix(((uint64_t)me << 32) ^ ((uint64_t)op << 24) ^ (uint64_t)(uint32_t)b);
    if (S->steps > S->maxsteps) { declare(ST_LIMIT); }
    check_dead();
    if (!io_held) do_faults(0, ++fidx);
    if (S->p[D_STALL] > 0) {
        int s = decide(D_STALL, 64);
        if (s) { x->stall_until = S->now + (uint64_t)s * 16; S->ctr[C_STALL]++; logop(O_STALL, me, s * 16, 0); }
    }
    switch_away();
}

typedef int (*cond_t)(void *);
static void progress(void);
static void block_until(cond_t c, void *arg, int why, int wa, int wb, int wc) {
    RankS *x = &S->r[me];
    for (;;) {
        progress();
        if (c(arg)) return;
        x->blocked = 1; x->seen = S->epoch; x->wake_at = earliest_undelivered(me); x->why = why; x->wa = wa; x->wb = wb; x->wc = wc;
        S->steps++;
        if (S->steps > S->maxsteps) declare(ST_LIMIT);
        switch_away();
        x->blocked = 0;
    }
}

/* ------------------------------------------------------------------ control API (ctypes) */
size_t sim_shm_size(void) { return sizeof(Shm) + ARENA_BYTES; }
void sim_init(void) {
    if (S) return;
    S = mmap(NULL, sim_shm_size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); _exit(3); }
}
void sim_reset(int nranks, uint64_t seed, uint64_t maxsteps, int omp_threads, int tsan_mode, const char *root) {
    uint64_t top = S->arena_top; uint32_t nm = S->nmsg, nc = S->ncoll;
    memset(S, 0, offsetof(Shm, dkind));
    if (nm) memset(S->msg, 0, sizeof(Msg) * (nm + 2 < MAXMSG ? nm + 2 : MAXMSG));
    if (nc) memset(S->coll, 0, sizeof(Coll) * (nc + 1 < MAXCOLL ? nc + 1 : MAXCOLL));
    if (top > (8u << 20)) madvise(S->arena, ARENA_BYTES, MADV_REMOVE);
    S->nranks = nranks; S->state = ST_RUNNING; { uint64_t t = seed ^ 0x6a09e667f3bcc909ull; S->prng = sm64(&t); S->prng ^= sm64(&t) >> 1; } S->maxsteps = maxsteps;
    S->nmsg = 1; S->omp_threads = omp_threads; S->tsan_mode = tsan_mode; S->abort_rank = -1; S->tag_ub = INT_MAX;
    S->hash = 0xcbf29ce484222325ull; S->epoch = 1; S->orphan_src = -1;
    for (int r = 0; r < nranks; r++) { S->r[r].st = R_RUN; S->r[r].rng = seed ^ (0xabcdefull * (uint64_t)(r + 1)); S->r[r].wake_at = UINT64_MAX; }
    S->cur = 0;
    if (root) { snprintf(S->root, sizeof S->root, "%s", root); S->rootlen = (int)strlen(S->root); }
}
void sim_prob(int kind, double p) { S->p[kind] = p; }
void sim_delaymax(int n) { S->nmax[D_DELAY] = n; }
void sim_tagub(int n) { S->tag_ub = n; }
void sim_fault(int kind, int rank, uint64_t at, int64_t arg, int domain) {
    if (S->nfaults < MAXFAULT) { Fault *f = &S->faults[S->nfaults++]; f->kind = kind; f->rank = rank; f->at = at; f->arg = arg; f->done = 0; f->domain = domain; }
}
int sim_fault_fired(int i) { return S->faults[i].done || S->faults[i].fired; }
void sim_replay(const uint16_t *v, uint32_t n) { S->replay = 1; S->nreplay = n < MAXDEC ? n : MAXDEC; memcpy(S->rep, v, S->nreplay * 2); }
void sim_attach(int rank) { me = rank; main_thr = pthread_self(); main_thr_set = 1; wait_baton(); check_dead(); }
void sim_finish(int code) {
    /* normal end of a rank */
    S->r[me].st = R_DONE; S->r[me].exit_code = code; logop(O_EXIT, me, code, 0);
    S->epoch++;
    int n = pick(0);
    if (n == -1) { if (S->state == ST_RUNNING) S->state = ST_DONE; }
    if (n == -2) { declare(ST_DEADLOCK); n = pick(0); }
    give(n);
}
void sim_killall(void) { S->killing = 1; S->kill_at = 0; }
int sim_state(void) { return S->state; }
int sim_rank_state(int r) { return S->r[r].st; }
int sim_rank_why(int r, int i) { RankS *x = &S->r[r]; return i == 0 ? x->blocked : i == 1 ? x->why : i == 2 ? x->wa : i == 3 ? x->wb : x->wc; }
int sim_exit_code(int r) { return S->r[r].exit_code; }
uint64_t sim_ops(int r) { return S->r[r].ops; }
uint64_t sim_fops(int r) { return S->r[r].fops; }
uint64_t sim_ctr(int i) { return S->ctr[i]; }
uint64_t sim_hash(void) { return S->hash; }
uint64_t sim_steps(void) { return S->steps; }
uint64_t sim_now(void) { return S->now; }
int sim_abort_rank(void) { return S->abort_rank; }
int sim_abort_code(void) { return S->abort_code; }
uint32_t sim_ndec(void) { return S->ndec; }
const uint16_t *sim_dec(void) { return S->dec; }
const uint8_t *sim_dkind(void) { return S->dkind; }
uint32_t sim_nlog(void) { return S->nlog; }
const LogEnt *sim_log(void) { return S->log; }
const char *sim_note(void) { return S->note; }
int sim_orphan(int i) { return i == 0 ? S->orphan_src : i == 1 ? S->orphan_dst : S->orphan_tag; }
int sim_me(void) { return me; }
int sim_is_active(void) { return active(); }
void sim_user_yield(int a) { if (active()) yield_point(O_USER, a, 0, 0); }
void sim_set_omp(int n) { S->omp_threads = n; }

/* unmatched messages / requests left over; called by the controller at the end */
int sim_orphans(void) {
    int n = 0;
    for (uint32_t i = 1; i < S->nmsg; i++) if (S->msg[i].inuse && !S->msg[i].consumed) { n++; if (S->orphan_src < 0) { S->orphan_src = S->msg[i].src; S->orphan_dst = S->msg[i].dst; S->orphan_tag = S->msg[i].tag; } }
    return n;
}
/* after a crash: may the files be looked at */
/* ------------------------------------------------------------------ communicators */
#define NPOOL 96
static MPI_Comm pool[NPOOL]; static int npool, upool;
typedef struct { MPI_Comm h; uint32_t ctx; uint32_t ndup, ncoll; int used; } CommRec;
static CommRec comms[NPOOL + 4]; static int ncomms;

void sim_mpi_prepare(void) {
    for (int i = 0; i < NPOOL; i++) { PMPI_Comm_dup(MPI_COMM_SELF, &pool[i]); npool++; }
    comms[0].h = MPI_COMM_WORLD; comms[0].ctx = 1; comms[0].used = 1; ncomms = 1;
}
static CommRec *crec(MPI_Comm c) {
    for (int i = 0; i < ncomms; i++) if (comms[i].used && comms[i].h == c) return &comms[i];
    return NULL;
}
#define SIMC(c) (active() && (cr = crec(c)))

int MPI_Comm_rank(MPI_Comm c, int *r) { CommRec *cr; if (me >= 0 && (cr = crec(c))) { *r = me; return MPI_SUCCESS; } return PMPI_Comm_rank(c, r); }
int MPI_Comm_size(MPI_Comm c, int *n) { CommRec *cr; if (me >= 0 && (cr = crec(c))) { *n = S->nranks; return MPI_SUCCESS; } return PMPI_Comm_size(c, n); }
int MPI_Comm_get_attr(MPI_Comm c, int key, void *val, int *flag) {
    CommRec *cr;
    if (key == MPI_TAG_UB && me >= 0 && (cr = crec(c))) { *(int **)val = &S->tag_ub; *flag = 1; return MPI_SUCCESS; }
    return PMPI_Comm_get_attr(c, key, val, flag);
}

/* ------------------------------------------------------------------ requests */
typedef struct Req {
    int kind; /* 0 send, 1 recv */
    int msg; const void *sbuf; void *rbuf; int count; MPI_Datatype dt; int src, tag; uint32_t ctx;
    int done, lazy, copied, matched; int st_src, st_tag, st_err; int64_t st_bytes; int magic;
    struct Req *next; int detached;
} Req;
#define MAGIC 0x51a15e77
static Req *posted_head, *posted_tail; /* recvs not matched yet, in posting order */
static Req *sends;                     /* rendezvous sends not packed yet */
static Req *rmatched;                  /* recvs matched, waiting for payload / copy */
static long live_reqs;
long sim_live_reqs(void) { return live_reqs; }

static int64_t dt_bytes(int count, MPI_Datatype dt) { int sz; PMPI_Type_size(dt, &sz); return (int64_t)sz * count; }
static void pack_to(uint64_t off, const void *buf, int count, MPI_Datatype dt, int64_t bytes) {
    if (!bytes) return;
    int pos = 0; PMPI_Pack(buf, count, dt, S->arena + off, (int)bytes, &pos, MPI_COMM_SELF);
}
static void unpack_from(uint64_t off, int64_t bytes, void *buf, int count, MPI_Datatype dt) {
    if (!bytes) return;
    int pos = 0; int sz; PMPI_Type_size(dt, &sz);
    int n = sz ? (int)(bytes / sz) : 0; if (n > count) n = count;
    PMPI_Unpack(S->arena + off, (int)bytes, &pos, buf, n, dt, MPI_COMM_SELF);
}

static void complete_copy(Req *q) {
    Msg *m = &S->msg[q->msg];
    int64_t cap = q->count < 0 ? m->bytes : dt_bytes(q->count, q->dt), n = m->bytes;
    q->st_err = MPI_SUCCESS;
    if (n > cap) { q->st_err = MPI_ERR_TRUNCATE; S->ctr[C_TRUNC]++; snprintf(S->note, sizeof S->note, "truncation: rank %d got %lld bytes from %d tag %d into %lld", me, (long long)n, m->src, m->tag, (long long)cap); n = cap; }
    unpack_from(m->payload, n, q->rbuf, q->count, q->dt);
    q->copied = 1; m->consumed = 1; q->st_src = m->src; q->st_tag = m->tag; q->st_bytes = n;
}

static void progress(void) {
    /* rendezvous sends whose partner has matched */
    for (Req **pp = &sends; *pp;) {
        Req *q = *pp; Msg *m = &S->msg[q->msg];
        if (m->matched) {
            m->payload = aalloc(m->bytes); pack_to(m->payload, q->sbuf, q->count, q->dt, m->bytes); m->ready = 1; q->done = 1; *pp = q->next; S->epoch++;
            if (q->detached) { free(q); live_reqs--; }
        }
        else pp = &q->next;
    }
    /* match delivered messages in arrival order */
    int *link = &S->r[me].inbox;
    while (*link) {
        Msg *m = &S->msg[*link];
        if (m->deliver_at > S->now) { link = &m->next; continue; }
        Req *prev = NULL, *q = posted_head;
        while (q && !((q->ctx == m->ctx) && (q->src == MPI_ANY_SOURCE || q->src == m->src) && (q->tag == MPI_ANY_TAG || q->tag == m->tag))) { prev = q; q = q->next; }
        if (!q) { link = &m->next; continue; }
        if (prev) prev->next = q->next; else posted_head = q->next;
        if (posted_tail == q) posted_tail = prev;
        q->msg = *link; q->matched = 1; m->matched = 1; *link = m->next; q->next = rmatched; rmatched = q; S->epoch++;
        logop(O_MATCH, m->src, m->tag, (int)m->bytes);
    }
    for (Req **pp = &rmatched; *pp;) {
        Req *q = *pp; Msg *m = &S->msg[q->msg];
        if (m->ready) { if (!q->lazy) complete_copy(q); q->done = 1; *pp = q->next; }
        else pp = &q->next;
    }
}

static int send_common(const void *buf, int count, MPI_Datatype dt, int dst, int tag, CommRec *cr, Req *q, int force_rdv) {
    if (tag > S->tag_ub || tag < 0) { S->ctr[C_TAGUB]++; snprintf(S->note, sizeof S->note, "invalid tag %d", tag); return MPI_ERR_TAG; }
    if (dst < 0 || dst >= S->nranks) return MPI_ERR_RANK;
    if (S->nmsg >= MAXMSG - 1) { snprintf(S->note, sizeof S->note, "msg pool exhausted"); declare(ST_INTERNAL); check_dead(); }
    int i = (int)S->nmsg++; Msg *m = &S->msg[i];
    memset(m, 0, sizeof *m);
    m->inuse = 1; m->src = me; m->dst = dst; m->tag = tag; m->ctx = cr->ctx; m->bytes = dt_bytes(count, dt); m->seq = S->seq++;
    uint64_t d = S->now;
    int dl = decide(D_DELAY, S->nmax[D_DELAY] > 1 ? S->nmax[D_DELAY] : 1);
    if (dl) { S->ctr[C_DELAYED]++; d += (uint64_t)dl; }
    if (d < S->lastdel[me][dst]) d = S->lastdel[me][dst];     /* MPI non-overtaking */
    S->lastdel[me][dst] = d; m->deliver_at = d;
    m->rdv = force_rdv || decide(D_RDV, 2);
    S->ctr[C_MSG]++;
    if (m->rdv) { S->ctr[C_RDV]++; q->next = sends; sends = q; q->done = 0; }
    else { m->payload = aalloc(m->bytes); pack_to(m->payload, buf, count, dt, m->bytes); m->ready = 1; q->done = 1; }
    q->msg = i; q->sbuf = buf; q->count = count; q->dt = dt; q->kind = 0;
    /* insert by (deliver_at, seq) */
    int *link = &S->r[dst].inbox;
    while (*link && S->msg[*link].deliver_at <= m->deliver_at) link = &S->msg[*link].next;
    if (*link) S->ctr[C_REORDER]++;
    m->next = *link; *link = i;
    S->epoch++;
    return MPI_SUCCESS;
}

static Req *newreq(void) { Req *q = calloc(1, sizeof *q); q->magic = MAGIC; live_reqs++; return q; }
static int isreq(MPI_Request r) { return active() && r != MPI_REQUEST_NULL && r && ((Req *)r)->magic == MAGIC; }
static void set_status(MPI_Status *st, Req *q) {
    if (st == MPI_STATUS_IGNORE) return;
    if (q && q->kind == 1) { st->MPI_SOURCE = q->st_src; st->MPI_TAG = q->st_tag; st->MPI_ERROR = q->st_err; st->_ucount = (size_t)q->st_bytes; }
    else { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = MPI_SUCCESS; st->_ucount = 0; }
    st->_cancelled = 0;
}
static int finish_req(Req *q, MPI_Status *st) {
    if (q->kind == 1 && q->src != MPI_PROC_NULL && !q->copied) complete_copy(q);
    set_status(st, q);
    int e = q->kind == 1 ? q->st_err : MPI_SUCCESS;
    q->magic = 0; free(q); live_reqs--;
    return e;
}
static int req_done(void *p) { return ((Req *)p)->done; }

int MPI_Isend(const void *buf, int count, MPI_Datatype dt, int dst, int tag, MPI_Comm c, MPI_Request *r) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Isend(buf, count, dt, dst, tag, c, r);
    yield_point(O_SEND, dst, tag, (int)cr->ctx);
    Req *q = newreq();
    if (dst == MPI_PROC_NULL) { q->done = 1; *r = (MPI_Request)q; return MPI_SUCCESS; }
    int e = send_common(buf, count, dt, dst, tag, cr, q, 0);
    if (e) { free(q); live_reqs--; return e; }
    *r = (MPI_Request)q; progress();
    return MPI_SUCCESS;
}
int MPI_Issend(const void *buf, int count, MPI_Datatype dt, int dst, int tag, MPI_Comm c, MPI_Request *r) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Issend(buf, count, dt, dst, tag, c, r);
    yield_point(O_SEND, dst, tag, (int)cr->ctx);
    Req *q = newreq(); int e = send_common(buf, count, dt, dst, tag, cr, q, 1);
    if (e) { free(q); live_reqs--; return e; }
    *r = (MPI_Request)q; progress(); return MPI_SUCCESS;
}
static int send_block(const void *buf, int count, MPI_Datatype dt, int dst, int tag, CommRec *cr, int sync) {
    yield_point(O_SEND, dst, tag, (int)cr->ctx);
    if (dst == MPI_PROC_NULL) return MPI_SUCCESS;
    Req *q = newreq(); int e = send_common(buf, count, dt, dst, tag, cr, q, sync);
    if (e) { free(q); live_reqs--; return e; }
    block_until(req_done, q, O_SEND, dst, tag, (int)cr->ctx);
    return finish_req(q, MPI_STATUS_IGNORE);
}
int MPI_Send(const void *buf, int count, MPI_Datatype dt, int dst, int tag, MPI_Comm c) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Send(buf, count, dt, dst, tag, c);
    return send_block(buf, count, dt, dst, tag, cr, 0);
}
int MPI_Ssend(const void *buf, int count, MPI_Datatype dt, int dst, int tag, MPI_Comm c) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Ssend(buf, count, dt, dst, tag, c);
    return send_block(buf, count, dt, dst, tag, cr, 1);
}
static Req *recv_common(void *buf, int count, MPI_Datatype dt, int src, int tag, CommRec *cr) {
    Req *q = newreq(); q->kind = 1; q->rbuf = buf; q->count = count; q->dt = dt; q->src = src; q->tag = tag; q->ctx = cr->ctx;
    if (src == MPI_PROC_NULL) { q->done = 1; q->copied = 1; q->st_src = MPI_PROC_NULL; q->st_tag = MPI_ANY_TAG; return q; }
    q->lazy = decide(D_LAZY, 2); if (q->lazy) S->ctr[C_LAZY]++;
    if (posted_tail) posted_tail->next = q; else posted_head = q;
    posted_tail = q; q->next = NULL;
    return q;
}
int MPI_Irecv(void *buf, int count, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Request *r) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Irecv(buf, count, dt, src, tag, c, r);
    yield_point(O_RECV, src, tag, (int)cr->ctx);
    *r = (MPI_Request)recv_common(buf, count, dt, src, tag, cr); progress();
    return MPI_SUCCESS;
}
int MPI_Recv(void *buf, int count, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Status *st) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Recv(buf, count, dt, src, tag, c, st);
    yield_point(O_RECV, src, tag, (int)cr->ctx);
    Req *q = recv_common(buf, count, dt, src, tag, cr);
    block_until(req_done, q, O_RECV, src, tag, (int)cr->ctx);
    return finish_req(q, st);
}
int MPI_Sendrecv(const void *sb, int sc, MPI_Datatype sd, int dst, int stag, void *rb, int rc, MPI_Datatype rd, int src, int rtag, MPI_Comm c, MPI_Status *st) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Sendrecv(sb, sc, sd, dst, stag, rb, rc, rd, src, rtag, c, st);
    MPI_Request a, b; MPI_Irecv(rb, rc, rd, src, rtag, c, &a); int e = MPI_Isend(sb, sc, sd, dst, stag, c, &b); if (e) return e;
    MPI_Wait(&b, MPI_STATUS_IGNORE); return MPI_Wait(&a, st);
}
int MPI_Wait(MPI_Request *r, MPI_Status *st) {
    if (active() && *r == MPI_REQUEST_NULL) { set_status(st, NULL); return MPI_SUCCESS; }
    if (!isreq(*r)) return PMPI_Wait(r, st);
    Req *q = (Req *)*r;
    yield_point(O_WAIT, q->kind, q->kind ? q->tag : S->msg[q->msg].tag, (int)q->ctx);
    block_until(req_done, q, O_WAIT, q->kind, q->kind ? q->src : S->msg[q->msg].dst, q->kind ? q->tag : S->msg[q->msg].tag);
    *r = MPI_REQUEST_NULL;
    return finish_req(q, st);
}
typedef struct { int n; MPI_Request *r; } RArr;
static int all_done(void *p) { RArr *a = p; for (int i = 0; i < a->n; i++) if (a->r[i] != MPI_REQUEST_NULL && !((Req *)a->r[i])->done) return 0; return 1; }
static int any_done(void *p) { RArr *a = p; int any = 0; for (int i = 0; i < a->n; i++) if (a->r[i] != MPI_REQUEST_NULL) { any = 1; if (((Req *)a->r[i])->done) return 1; } return !any; }
static int first_pending(RArr *a) { for (int i = 0; i < a->n; i++) if (a->r[i] != MPI_REQUEST_NULL && !((Req *)a->r[i])->done) return i; return -1; }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) {
    if (!active()) return PMPI_Waitall(n, r, st);
    yield_point(O_WAIT, 2, n, 0);
    RArr a = {n, r};
    progress(); int i0 = first_pending(&a); Req *q0 = i0 >= 0 ? (Req *)r[i0] : NULL;
    block_until(all_done, &a, O_WAIT, q0 ? q0->kind : 2, q0 ? (q0->kind ? q0->src : S->msg[q0->msg].dst) : -1, q0 ? (q0->kind ? q0->tag : S->msg[q0->msg].tag) : -1);
    int e = MPI_SUCCESS;
    for (int i = 0; i < n; i++) {
        MPI_Status *s = st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i];
        if (r[i] == MPI_REQUEST_NULL) { set_status(s, NULL); continue; }
        int x = finish_req((Req *)r[i], s); if (x) e = MPI_ERR_IN_STATUS; r[i] = MPI_REQUEST_NULL;
    }
    return e;
}
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st) {
    if (!active()) return PMPI_Waitany(n, r, idx, st);
    yield_point(O_WAIT, 3, n, 0);
    RArr a = {n, r}; block_until(any_done, &a, O_WAIT, 3, n, 0);
    for (int k = 0; k < n; k++) if (r[k] != MPI_REQUEST_NULL && ((Req *)r[k])->done) { *idx = k; int e = finish_req((Req *)r[k], st); r[k] = MPI_REQUEST_NULL; return e; }
    *idx = MPI_UNDEFINED; set_status(st, NULL); return MPI_SUCCESS;
}
int MPI_Waitsome(int n, MPI_Request *r, int *out, int *idx, MPI_Status *st) {
    if (!active()) return PMPI_Waitsome(n, r, out, idx, st);
    yield_point(O_WAIT, 4, n, 0);
    RArr a = {n, r}; block_until(any_done, &a, O_WAIT, 4, n, 0);
    int o = 0, any = 0;
    for (int k = 0; k < n; k++) if (r[k] != MPI_REQUEST_NULL) { any = 1; if (((Req *)r[k])->done) { idx[o] = k; finish_req((Req *)r[k], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[o]); r[k] = MPI_REQUEST_NULL; o++; } }
    *out = any ? o : MPI_UNDEFINED; return MPI_SUCCESS;
}
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st) {
    if (active() && *r == MPI_REQUEST_NULL) { *flag = 1; set_status(st, NULL); return MPI_SUCCESS; }
    if (!isreq(*r)) return PMPI_Test(r, flag, st);
    yield_point(O_TEST, 0, 0, 0); progress();
    Req *q = (Req *)*r; *flag = q->done;
    if (!q->done) { S->r[me].stall_until = S->now + 4; return MPI_SUCCESS; }
    *r = MPI_REQUEST_NULL; return finish_req(q, st);
}
int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *st) {
    if (!active()) return PMPI_Testall(n, r, flag, st);
    yield_point(O_TEST, 1, n, 0); progress();
    RArr a = {n, r}; *flag = all_done(&a); if (!*flag) return MPI_SUCCESS;
    for (int i = 0; i < n; i++) { MPI_Status *s = st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]; if (r[i] == MPI_REQUEST_NULL) { set_status(s, NULL); continue; } finish_req((Req *)r[i], s); r[i] = MPI_REQUEST_NULL; }
    return MPI_SUCCESS;
}
int MPI_Testany(int n, MPI_Request *r, int *idx, int *flag, MPI_Status *st) {
    if (!active()) return PMPI_Testany(n, r, idx, flag, st);
    yield_point(O_TEST, 2, n, 0); progress(); *flag = 0; int any = 0;
    for (int k = 0; k < n; k++) if (r[k] != MPI_REQUEST_NULL) { any = 1; if (((Req *)r[k])->done) { *idx = k; *flag = 1; int e = finish_req((Req *)r[k], st); r[k] = MPI_REQUEST_NULL; return e; } }
    if (!any) { *flag = 1; *idx = MPI_UNDEFINED; }
    return MPI_SUCCESS;
}
int MPI_Request_free(MPI_Request *r) {
    if (!isreq(*r)) return PMPI_Request_free(r);
    Req *q = (Req *)*r; *r = MPI_REQUEST_NULL;
    if (q->kind == 0 && q->done) { free(q); live_reqs--; } else q->detached = 1;
    return MPI_SUCCESS;
}
int MPI_Cancel(MPI_Request *r) { if (!isreq(*r)) return PMPI_Cancel(r); return MPI_SUCCESS; }
int MPI_Request_get_status(MPI_Request r, int *flag, MPI_Status *st) {
    if (!isreq(r)) return PMPI_Request_get_status(r, flag, st);
    yield_point(O_TEST, 3, 0, 0); progress(); *flag = ((Req *)r)->done; if (*flag) set_status(st, (Req *)r); return MPI_SUCCESS;
}

/* probes */
typedef struct { CommRec *cr; int src, tag; int found; } Probe;
static int probe_find(void *p) {
    Probe *b = p; int *link = &S->r[me].inbox;
    while (*link) { Msg *m = &S->msg[*link]; if (m->deliver_at <= S->now && m->ctx == b->cr->ctx && (b->src == MPI_ANY_SOURCE || b->src == m->src) && (b->tag == MPI_ANY_TAG || b->tag == m->tag)) { b->found = *link; return 1; } link = &m->next; }
    return 0;
}
static void probe_status(MPI_Status *st, int i) { if (st != MPI_STATUS_IGNORE) { Msg *m = &S->msg[i]; st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->_ucount = (size_t)m->bytes; st->_cancelled = 0; } }
static void take(int i) { int *link = &S->r[me].inbox; while (*link && *link != i) link = &S->msg[*link].next; if (*link) *link = S->msg[i].next; S->msg[i].matched = 1; S->epoch++; }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *st) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Probe(src, tag, c, st);
    yield_point(O_PROBE, src, tag, (int)cr->ctx); Probe b = {cr, src, tag, 0}; block_until(probe_find, &b, O_PROBE, src, tag, (int)cr->ctx); probe_status(st, b.found); return MPI_SUCCESS;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *st) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Iprobe(src, tag, c, flag, st);
    yield_point(O_PROBE, src, tag, (int)cr->ctx); progress(); Probe b = {cr, src, tag, 0}; *flag = probe_find(&b); if (*flag) probe_status(st, b.found); else S->r[me].stall_until = S->now + 4; return MPI_SUCCESS;
}
static Req *msgreq(int i) { Req *q = newreq(); q->kind = 1; q->msg = i; q->src = S->msg[i].src; q->tag = S->msg[i].tag; q->ctx = S->msg[i].ctx; q->matched = 1; q->count = -1; return q; }
int MPI_Mprobe(int src, int tag, MPI_Comm c, MPI_Message *m, MPI_Status *st) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Mprobe(src, tag, c, m, st);
    yield_point(O_PROBE, src, tag, (int)cr->ctx); Probe b = {cr, src, tag, 0}; block_until(probe_find, &b, O_PROBE, src, tag, (int)cr->ctx);
    take(b.found); probe_status(st, b.found); *m = (MPI_Message)msgreq(b.found); return MPI_SUCCESS;
}
int MPI_Improbe(int src, int tag, MPI_Comm c, int *flag, MPI_Message *m, MPI_Status *st) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Improbe(src, tag, c, flag, m, st);
    yield_point(O_PROBE, src, tag, (int)cr->ctx); progress(); Probe b = {cr, src, tag, 0}; *flag = probe_find(&b);
    if (*flag) { take(b.found); probe_status(st, b.found); *m = (MPI_Message)msgreq(b.found); } else S->r[me].stall_until = S->now + 4;
    return MPI_SUCCESS;
}
int MPI_Mrecv(void *buf, int count, MPI_Datatype dt, MPI_Message *m, MPI_Status *st) {
    if (!active() || *m == MPI_MESSAGE_NULL || ((Req *)*m)->magic != MAGIC) return PMPI_Mrecv(buf, count, dt, m, st);
    Req *q = (Req *)*m; *m = MPI_MESSAGE_NULL; q->rbuf = buf; q->count = count; q->dt = dt; q->next = rmatched; rmatched = q;
    yield_point(O_RECV, q->src, q->tag, (int)q->ctx);
    block_until(req_done, q, O_RECV, q->src, q->tag, (int)q->ctx); return finish_req(q, st);
}
int MPI_Imrecv(void *buf, int count, MPI_Datatype dt, MPI_Message *m, MPI_Request *r) {
    if (!active() || *m == MPI_MESSAGE_NULL || ((Req *)*m)->magic != MAGIC) return PMPI_Imrecv(buf, count, dt, m, r);
    Req *q = (Req *)*m; *m = MPI_MESSAGE_NULL; q->rbuf = buf; q->count = count; q->dt = dt; q->next = rmatched; rmatched = q; *r = (MPI_Request)q;
    yield_point(O_RECV, q->src, q->tag, (int)q->ctx); progress(); return MPI_SUCCESS;
}

/* ------------------------------------------------------------------ collectives */
static Coll *coll_enter(CommRec *cr, int op, int root) {
    yield_point(op, root, (int)cr->ncoll, (int)cr->ctx);
    uint32_t seq = cr->ncoll++;
    for (uint32_t i = 0; i < S->ncoll; i++) {
        Coll *k = &S->coll[(S->ncoll - 1) - i];
        if (k->ctx == cr->ctx && k->seq == seq) {
            if (k->op != op || k->root != root) {
                S->ctr[C_COLLMISMATCH]++; snprintf(S->note, sizeof S->note, "collective mismatch on ctx %u seq %u: rank %d called op %d root %d, others op %d root %d", cr->ctx, seq, me, op, root, k->op, k->root);
                declare(ST_DEADLOCK); check_dead();
            }
            return k;
        }
    }
    if (S->ncoll >= MAXCOLL) { snprintf(S->note, sizeof S->note, "coll pool exhausted"); declare(ST_INTERNAL); check_dead(); }
    Coll *k = &S->coll[S->ncoll++]; memset(k, 0, sizeof *k); k->ctx = cr->ctx; k->seq = seq; k->op = op; k->root = root;
    return k;
}
static void coll_give(Coll *k, const void *buf, int count, MPI_Datatype dt) {
    int64_t b = buf ? dt_bytes(count, dt) : 0;
    k->off[me] = aalloc(b); k->len[me] = b; if (b) pack_to(k->off[me], buf, count, dt, b);
    k->have[me] = 1; k->count++; S->epoch++;
}
static int coll_all(void *p) { return ((Coll *)p)->count == S->nranks; }
static int coll_root(void *p) { Coll *k = p; return k->have[k->root]; }
static void coll_wait_all(Coll *k) { block_until(coll_all, k, k->op, k->root, (int)k->seq, (int)k->ctx); }
/* a rank that MPI lets go early either leaves at once or waits for everybody: seeded */
static void coll_leave(Coll *k) { if (decide(D_COLL, 2)) { coll_wait_all(k); } else S->ctr[C_COLLASYNC]++; }

int MPI_Barrier(MPI_Comm c) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Barrier(c);
    Coll *k = coll_enter(cr, O_BARRIER, 0); coll_give(k, NULL, 0, MPI_BYTE); coll_wait_all(k); return MPI_SUCCESS;
}
int MPI_Bcast(void *buf, int n, MPI_Datatype dt, int root, MPI_Comm c) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Bcast(buf, n, dt, root, c);
    Coll *k = coll_enter(cr, O_BCAST, root);
    if (me == root) { coll_give(k, buf, n, dt); coll_leave(k); }
    else { coll_give(k, NULL, 0, dt); block_until(coll_root, k, O_BCAST, root, (int)k->seq, (int)k->ctx);
           if (k->len[root] > dt_bytes(n, dt)) { S->ctr[C_TRUNC]++; return MPI_ERR_TRUNCATE; }
           unpack_from(k->off[root], k->len[root], buf, n, dt); coll_leave(k); }
    return MPI_SUCCESS;
}
static void put_block(void *rb, int64_t disp, int cnt, MPI_Datatype rd, Coll *k, int r) {
    MPI_Aint lb, ext; PMPI_Type_get_extent(rd, &lb, &ext);
    if (k->len[r] > dt_bytes(cnt, rd)) { S->ctr[C_TRUNC]++; }
    unpack_from(k->off[r], k->len[r], (char *)rb + disp * ext, cnt, rd);
}
static const void *inplace_src(const void *sb, void *rb, int64_t disp, MPI_Datatype rd) { if (sb != MPI_IN_PLACE) return sb; MPI_Aint lb, ext; PMPI_Type_get_extent(rd, &lb, &ext); return (char *)rb + disp * ext; }
int MPI_Gather(const void *sb, int sc, MPI_Datatype sd, void *rb, int rc, MPI_Datatype rd, int root, MPI_Comm c) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Gather(sb, sc, sd, rb, rc, rd, root, c);
    Coll *k = coll_enter(cr, O_GATHER, root);
    if (sb == MPI_IN_PLACE) { sb = inplace_src(sb, rb, (int64_t)me * rc, rd); sc = rc; sd = rd; }
    coll_give(k, sb, sc, sd);
    if (me == root) { coll_wait_all(k); for (int r = 0; r < S->nranks; r++) put_block(rb, (int64_t)r * rc, rc, rd, k, r); } else coll_leave(k);
    return MPI_SUCCESS;
}
int MPI_Gatherv(const void *sb, int sc, MPI_Datatype sd, void *rb, const int *rc, const int *dp, MPI_Datatype rd, int root, MPI_Comm c) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Gatherv(sb, sc, sd, rb, rc, dp, rd, root, c);
    Coll *k = coll_enter(cr, O_GATHER, root);
    if (sb == MPI_IN_PLACE) { sb = inplace_src(sb, rb, dp[me], rd); sc = rc[me]; sd = rd; }
    coll_give(k, sb, sc, sd);
    if (me == root) { coll_wait_all(k); for (int r = 0; r < S->nranks; r++) put_block(rb, dp[r], rc[r], rd, k, r); } else coll_leave(k);
    return MPI_SUCCESS;
}
int MPI_Allgather(const void *sb, int sc, MPI_Datatype sd, void *rb, int rc, MPI_Datatype rd, MPI_Comm c) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Allgather(sb, sc, sd, rb, rc, rd, c);
    Coll *k = coll_enter(cr, O_ALLGATHER, 0);
    if (sb == MPI_IN_PLACE) { sb = inplace_src(sb, rb, (int64_t)me * rc, rd); sc = rc; sd = rd; }
    coll_give(k, sb, sc, sd); coll_wait_all(k);
    for (int r = 0; r < S->nranks; r++) put_block(rb, (int64_t)r * rc, rc, rd, k, r);
    return MPI_SUCCESS;
}
int MPI_Allgatherv(const void *sb, int sc, MPI_Datatype sd, void *rb, const int *rc, const int *dp, MPI_Datatype rd, MPI_Comm c) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Allgatherv(sb, sc, sd, rb, rc, dp, rd, c);
    Coll *k = coll_enter(cr, O_ALLGATHER, 0);
    if (sb == MPI_IN_PLACE) { sb = inplace_src(sb, rb, dp[me], rd); sc = rc[me]; sd = rd; }
    coll_give(k, sb, sc, sd); coll_wait_all(k);
    for (int r = 0; r < S->nranks; r++) put_block(rb, dp[r], rc[r], rd, k, r);
    return MPI_SUCCESS;
}
static int scatter_common(CommRec *cr, const void *sb, int sc, const int *scs, const int *dps, MPI_Datatype sd, void *rb, int rc, MPI_Datatype rd, int root) {
    Coll *k = coll_enter(cr, O_SCATTER, root);
    if (me == root) {
        MPI_Aint lb, ext; PMPI_Type_get_extent(sd, &lb, &ext);
        int64_t tot = 0; for (int r = 0; r < S->nranks; r++) tot += dt_bytes(scs ? scs[r] : sc, sd);
        uint64_t tab = aalloc((int64_t)S->nranks * 16), o = aalloc(tot);
        int64_t *t = (int64_t *)(S->arena + tab); int64_t cur = 0;
        for (int r = 0; r < S->nranks; r++) { int n = scs ? scs[r] : sc; int64_t d = dps ? dps[r] : (int64_t)r * sc; int64_t b = dt_bytes(n, sd); t[2 * r] = (int64_t)o + cur; t[2 * r + 1] = b; pack_to(o + (uint64_t)cur, (const char *)sb + d * ext, n, sd, b); cur += b; }
        k->off[me] = tab; k->len[me] = S->nranks * 16; k->have[me] = 1; k->count++; S->epoch++;
        if (rb != MPI_IN_PLACE) unpack_from((uint64_t)t[2 * me], t[2 * me + 1], rb, rc, rd);
        coll_leave(k);
    } else {
        coll_give(k, NULL, 0, MPI_BYTE); block_until(coll_root, k, O_SCATTER, root, (int)k->seq, (int)k->ctx);
        int64_t *t = (int64_t *)(S->arena + k->off[root]);
        if (t[2 * me + 1] > dt_bytes(rc, rd)) { S->ctr[C_TRUNC]++; return MPI_ERR_TRUNCATE; }
        unpack_from((uint64_t)t[2 * me], t[2 * me + 1], rb, rc, rd); coll_leave(k);
    }
    return MPI_SUCCESS;
}
int MPI_Scatter(const void *sb, int sc, MPI_Datatype sd, void *rb, int rc, MPI_Datatype rd, int root, MPI_Comm c) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Scatter(sb, sc, sd, rb, rc, rd, root, c);
    return scatter_common(cr, sb, sc, NULL, NULL, sd, rb, rc, rd, root);
}
int MPI_Scatterv(const void *sb, const int *sc, const int *dp, MPI_Datatype sd, void *rb, int rc, MPI_Datatype rd, int root, MPI_Comm c) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Scatterv(sb, sc, dp, sd, rb, rc, rd, root, c);
    return scatter_common(cr, sb, 0, sc, dp, sd, rb, rc, rd, root);
}
static void reduce_into(Coll *k, void *rb, int n, MPI_Datatype dt, MPI_Op op) {
    int64_t b = dt_bytes(n, dt); if (!b) return;
    char *acc = malloc((size_t)b), *tmp = malloc((size_t)b);
    unpack_from(k->off[0], k->len[0], acc, n, dt);
    for (int r = 1; r < S->nranks; r++) { unpack_from(k->off[r], k->len[r], tmp, n, dt); /* inout = in op inout: keep rank order */
        PMPI_Reduce_local(acc, tmp, n, dt, op); memcpy(acc, tmp, (size_t)b); }
    memcpy(rb, acc, (size_t)b); free(acc); free(tmp);
}
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype dt, MPI_Op op, int root, MPI_Comm c) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Reduce(sb, rb, n, dt, op, root, c);
    Coll *k = coll_enter(cr, O_REDUCE, root); coll_give(k, sb == MPI_IN_PLACE ? rb : sb, n, dt);
    if (me == root) { coll_wait_all(k); reduce_into(k, rb, n, dt, op); } else coll_leave(k);
    return MPI_SUCCESS;
}
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Allreduce(sb, rb, n, dt, op, c);
    Coll *k = coll_enter(cr, O_ALLREDUCE, 0); coll_give(k, sb == MPI_IN_PLACE ? rb : sb, n, dt); coll_wait_all(k); reduce_into(k, rb, n, dt, op);
    return MPI_SUCCESS;
}
int MPI_Alltoall(const void *sb, int sc, MPI_Datatype sd, void *rb, int rc, MPI_Datatype rd, MPI_Comm c) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Alltoall(sb, sc, sd, rb, rc, rd, c);
    Coll *k = coll_enter(cr, O_ALLTOALL, 0); coll_give(k, sb, sc * S->nranks, sd); coll_wait_all(k);
    MPI_Aint lb, ext; PMPI_Type_get_extent(rd, &lb, &ext); int64_t b = dt_bytes(sc, sd);
    for (int r = 0; r < S->nranks; r++) unpack_from(k->off[r] + (uint64_t)(b * me), b, (char *)rb + (int64_t)r * rc * ext, rc, rd);
    return MPI_SUCCESS;
}
#define UNSUP(name, proto, call) int name proto { CommRec *cr; if (!SIMC(c)) return call; snprintf(S->note, sizeof S->note, "unsupported " #name); declare(ST_INTERNAL); check_dead(); return MPI_ERR_OTHER; }
UNSUP(MPI_Comm_split, (MPI_Comm c, int a, int b, MPI_Comm *o), PMPI_Comm_split(c, a, b, o))
UNSUP(MPI_Comm_create, (MPI_Comm c, MPI_Group g, MPI_Comm *o), PMPI_Comm_create(c, g, o))
UNSUP(MPI_Alltoallv, (const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c), PMPI_Alltoallv(sb, sc, sd, st, rb, rc, rd, rt, c))
UNSUP(MPI_Scan, (const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c), PMPI_Scan(sb, rb, n, d, op, c))
UNSUP(MPI_Exscan, (const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c), PMPI_Exscan(sb, rb, n, d, op, c))
UNSUP(MPI_Ibarrier, (MPI_Comm c, MPI_Request *r), PMPI_Ibarrier(c, r))
UNSUP(MPI_Iallreduce, (const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c, MPI_Request *r), PMPI_Iallreduce(sb, rb, n, d, op, c, r))

int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) {
    CommRec *cr; if (!SIMC(c)) return PMPI_Comm_dup(c, out);
    Coll *k = coll_enter(cr, O_DUP, 0); coll_give(k, NULL, 0, MPI_BYTE); coll_wait_all(k);
    if (upool >= npool) { snprintf(S->note, sizeof S->note, "comm pool exhausted"); declare(ST_INTERNAL); check_dead(); }
    uint32_t ctx = cr->ctx * 131u + (++cr->ndup);
    CommRec *n = &comms[ncomms++]; memset(n, 0, sizeof *n); n->h = pool[upool++]; n->ctx = ctx; n->used = 1; *out = n->h;
    return MPI_SUCCESS;
}
int MPI_Comm_free(MPI_Comm *c) {
    CommRec *cr; if (!SIMC(*c)) return PMPI_Comm_free(c);
    cr->used = 0; *c = MPI_COMM_NULL; return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm c, int code) {
    if (!active()) return PMPI_Abort(c, code);
    S->steps++; S->now++;
    logop(O_ABORT, code, 0, 0); S->ctr[C_ABORT]++;
    if (S->state == ST_RUNNING) { S->abort_rank = me; S->abort_code = code; }
    int d = decide(D_KILLDELAY, 32); if (!S->replay && S->p[D_KILLDELAY] == 0) d = 0;
    job_kill(ST_ABORTED, d * 8);
    die(code);
}
double MPI_Wtime(void) { if (!active()) return PMPI_Wtime(); return 1e-6 * (double)S->now + 1e-6 * (double)S->r[me].clock_skew; }
int MPI_Finalize(void) { if (me >= 0) return MPI_SUCCESS; return PMPI_Finalize(); }
int MPI_Finalized(int *f) { return PMPI_Finalized(f); }

/* ------------------------------------------------------------------ clock, entropy, sleep */
static int (*real_clock_gettime)(clockid_t, struct timespec *);
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!real_clock_gettime) real_clock_gettime = dlsym(RTLD_NEXT, "clock_gettime");
    if (!active()) return real_clock_gettime(id, ts);
    uint64_t us = 1700000000ull * 1000000ull + S->now + (uint64_t)S->r[me].clock_skew + 1000ull * (uint64_t)me;
    if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW) us = 1000000ull * 1000 + S->now;
    ts->tv_sec = (time_t)(us / 1000000); ts->tv_nsec = (long)(us % 1000000) * 1000;
    return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); (void)tz; if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; } return 0;
}
time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
static int (*real_clock_nanosleep)(clockid_t, int, const struct timespec *, struct timespec *);
int clock_nanosleep(clockid_t id, int flags, const struct timespec *rq, struct timespec *rm) {
    if (!real_clock_nanosleep) real_clock_nanosleep = dlsym(RTLD_NEXT, "clock_nanosleep");
    if (!active()) return real_clock_nanosleep(id, flags, rq, rm);
    S->r[me].stall_until = S->now + 1000; yield_point(O_USER, -1, 0, 0); return 0;
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (!active()) return syscall(SYS_getrandom, buf, n, flags);
    unsigned char *p = buf; for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(sm64(&S->r[me].rng) >> 24);
    return (ssize_t)n;
}
int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) < 0 ? -1 : 0; }
/* numba's OpenMP layer refuses to run in a fork of the process that loaded it;
   our OpenMP runtime has no threads, so that is safe here. */
pid_t getppid(void) { if (me >= 0) return 1; return (pid_t)syscall(SYS_getppid); }

/* ------------------------------------------------------------------ files */
static unsigned char tracked[65536];
static int under_root(const char *p) { return active() && S->rootlen && p && strncmp(p, S->root, (size_t)S->rootlen) == 0; }
static int rel_root(int d, const char *p);
static inline int tfd(int fd) { return fd >= 0 && fd < 65536 && tracked[fd] && active(); }

/* domain 1 faults count file operations of the rank; returns errno to inject or 0; *shortn for short writes */
static int file_point(int what, int64_t n, int64_t *shortn) {
    if (io_held) return 0;
    RankS *x = &S->r[me];
    uint64_t idx = ++x->fops; S->ctr[C_FILEOP]++;
    yield_point(O_FILE, what, (int)n, (int)idx);
    do_faults(1, idx);
    for (int i = 0; i < S->nfaults; i++) {
        Fault *f = &S->faults[i];
        if (f->rank != me || f->domain != 1) continue;
        if (f->kind == F_IOERR && !f->done && idx >= f->at && (what == 1 || what == 3 || what == 4 || what == 5)) {
            /* ENOSPC stays (a full disk); EIO happens once */
            if ((int)f->arg != ENOSPC) f->done = 1;
            f->fired = 1; S->ctr[C_IOERR]++; logop(O_IOFAULT, what, (int)f->arg, (int)idx);
            return (int)f->arg;
        }
        if (f->kind == F_IOSHORT && !f->done && idx >= f->at && what == 1 && n > 1) { f->done = 1; S->ctr[C_IOSHORT]++; logop(O_IOFAULT, what, -1, (int)idx); if (shortn) *shortn = n / 2; return 0; }
    }
    if (what == 1 && n > 1 && shortn && S->p[D_IOSHORT] > 0) { if (decide(D_IOSHORT, 2)) { S->ctr[C_IOSHORT]++; *shortn = 1 + n / 2; } }
    return 0;
}
static int rel_root(int d, const char *p) { return p && p[0] != '/' && tfd(d); }
/* what: 0 open 1 write 2 close 3 truncate/fsync 4 mkdir/rename/link 5 unlink/rmdir 6 read */
typedef int (*open_t)(const char *, int, ...);
static int open_common(const char *name, const char *path, int flags, mode_t mode, int dirfd, int at) {
    static open_t ro; static int (*roat)(int, const char *, int, ...);
    if (!ro) { ro = dlsym(RTLD_NEXT, "open64"); roat = dlsym(RTLD_NEXT, "openat64"); }
    (void)name;
    int t = under_root(path) || (at && rel_root(dirfd, path));
    if (t) { int e = 0; if (flags & (O_CREAT | O_WRONLY | O_RDWR)) e = file_point(flags & O_CREAT ? 4 : 0, 0, NULL); if (e) { errno = e; return -1; } }
    int fd = at ? roat(dirfd, path, flags, mode) : ro(path, flags, mode);
    if (fd >= 0 && fd < 65536) tracked[fd] = (unsigned char)t;
    return fd;
}
#define MODEARG mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODEARG return open_common("open", path, flags, mode, 0, 0); }
int open64(const char *path, int flags, ...) { MODEARG return open_common("open64", path, flags, mode, 0, 0); }
int openat(int dfd, const char *path, int flags, ...) { MODEARG return open_common("openat", path, flags, mode, dfd, 1); }
int openat64(int dfd, const char *path, int flags, ...) { MODEARG return open_common("openat64", path, flags, mode, dfd, 1); }
ssize_t write(int fd, const void *buf, size_t n) {
    static ssize_t (*rw)(int, const void *, size_t); if (!rw) rw = dlsym(RTLD_NEXT, "write");
    if (tfd(fd)) { int64_t sn = (int64_t)n; int e = file_point(1, (int64_t)n, &sn); if (e) { errno = e; return -1; } n = (size_t)sn; }
    return rw(fd, buf, n);
}
static ssize_t pwrite_common(int fd, const void *buf, size_t n, off_t o) {
    static ssize_t (*rw)(int, const void *, size_t, off_t); if (!rw) rw = dlsym(RTLD_NEXT, "pwrite64");
    if (tfd(fd)) { int64_t sn = (int64_t)n; int e = file_point(1, (int64_t)n, &sn); if (e) { errno = e; return -1; } n = (size_t)sn; }
    return rw(fd, buf, n, o);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { return pwrite_common(fd, buf, n, o); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) { return pwrite_common(fd, buf, n, o); }
static ssize_t pread_common(int fd, void *buf, size_t n, off_t o) {
    static ssize_t (*rr)(int, void *, size_t, off_t); if (!rr) rr = dlsym(RTLD_NEXT, "pread64");
    if (tfd(fd)) file_point(6, (int64_t)n, NULL);
    return rr(fd, buf, n, o);
}
ssize_t pread(int fd, void *buf, size_t n, off_t o) { return pread_common(fd, buf, n, o); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) { return pread_common(fd, buf, n, o); }
int close(int fd) {
    static int (*rc)(int); if (!rc) rc = dlsym(RTLD_NEXT, "close");
    if (tfd(fd)) { tracked[fd] = 0; file_point(2, 0, NULL); }
    return rc(fd);
}
#define FD_OP(fn, proto, fd, what, types, call) int fn proto { static int (*rf) types; if (!rf) rf = dlsym(RTLD_NEXT, #fn); if (tfd(fd)) { int e = file_point(what, 0, NULL); if (e) { errno = e; return -1; } } return call; }
FD_OP(fsync, (int fd), fd, 3, (int), rf(fd))
FD_OP(fdatasync, (int fd), fd, 3, (int), rf(fd))
FD_OP(ftruncate, (int fd, off_t l), fd, 3, (int, off_t), rf(fd, l))
FD_OP(ftruncate64, (int fd, off64_t l), fd, 3, (int, off64_t), rf(fd, l))
#define PATH_OP(fn, proto, path, what, types, call) PATH_OPC(fn, proto, under_root(path), what, types, call)
#define PATH_OPC(fn, proto, cond, what, types, call) int fn proto { static int (*rf) types; if (!rf) rf = dlsym(RTLD_NEXT, #fn); if (cond) { int e = file_point(what, 0, NULL); if (e && what == 4) { errno = e; return -1; } if (e && what == 5 && e != ENOSPC) { errno = e; return -1; } } return call; }
PATH_OP(mkdir, (const char *p, mode_t m), p, 4, (const char *, mode_t), rf(p, m))
PATH_OPC(mkdirat, (int d, const char *p, mode_t m), under_root(p) || rel_root(d, p), 4, (int, const char *, mode_t), rf(d, p, m))
PATH_OP(rename, (const char *a, const char *b), a, 4, (const char *, const char *), rf(a, b))
PATH_OPC(renameat, (int d, const char *a, int d2, const char *b), under_root(a) || rel_root(d, a), 4, (int, const char *, int, const char *), rf(d, a, d2, b))
PATH_OP(unlink, (const char *p), p, 5, (const char *), rf(p))
PATH_OPC(unlinkat, (int d, const char *p, int f), under_root(p) || rel_root(d, p), 5, (int, const char *, int), rf(d, p, f))
PATH_OP(rmdir, (const char *p), p, 5, (const char *), rf(p))

/* ------------------------------------------------------------------ OpenMP as coroutines */
#define MAXT 16
#define STK (1u << 20)
typedef struct { ucontext_t uc; char *stk; int fin, waiting; } Co;
static Co co[MAXT]; static ucontext_t main_uc; static int cur_t = -1, n_t, in_par; static void (*par_fn)(void *); static void *par_data;
static int bar_count; static volatile int switching;
static uint32_t region_id = 1; static int omp_default = 1;
static int nthreads(void) { return me >= 0 && S ? (S->omp_threads > 0 ? S->omp_threads : 1) : omp_default; }

static void co_main(void) { par_fn(par_data); co[cur_t].fin = 1; swapcontext(&co[cur_t].uc, &main_uc); abort(); }
static void run_region(void) {
    S->ctr[C_OMPREGION]++;
    bar_count = 0;
    for (int t = 0; t < n_t; t++) {
        if (!co[t].stk) { co[t].stk = mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
        getcontext(&co[t].uc); co[t].uc.uc_stack.ss_sp = co[t].stk; co[t].uc.uc_stack.ss_size = STK; co[t].uc.uc_link = NULL; co[t].fin = co[t].waiting = 0;
        makecontext(&co[t].uc, co_main, 0);
    }
    int last = n_t - 1, moved = 0;
    for (;;) {
        int el[MAXT], n = 0;
        for (int k = 1; k <= n_t; k++) { int t = (last + k) % n_t; if (!co[t].fin && !co[t].waiting) el[n++] = t; }
        if (!n) {
            int w = 0; for (int t = 0; t < n_t; t++) if (!co[t].fin) w++;
            if (!w) break;
            /* barrier reached by everybody still running */
            for (int t = 0; t < n_t; t++) co[t].waiting = 0;
            region_id++; continue;
        }
        int i = n > 1 ? decide(D_OMP, n) : 0;
        if (i) moved = 1;
        last = el[i]; cur_t = el[i];
        swapcontext(&main_uc, &co[cur_t].uc);
        if (!co[last].fin && !co[last].waiting) { /* preempted: continue from a different place next time */ }
        cur_t = -1;
    }
    if (moved) S->ctr[C_OMPPERM]++;
    region_id++;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nth, unsigned flags) {
    (void)flags;
    int n = nth ? (int)nth : nthreads(); if (n > MAXT) n = MAXT;
    if (nth && nthreads() == 1 && !active()) n = 1;
    if (in_par || n <= 1 || !active()) { int sv = in_par, st = cur_t, sn = n_t; in_par = 1; cur_t = 0; int on = n_t; n_t = 1; fn(data); n_t = on; in_par = sv; cur_t = st; n_t = sn; return; }
    in_par = 1; n_t = n; par_fn = fn; par_data = data;
    run_region();
    in_par = 0; n_t = 0; cur_t = -1;
}
int omp_get_thread_num(void) { return in_par && cur_t >= 0 ? cur_t : 0; }
int omp_get_num_threads(void) { return in_par ? (n_t ? n_t : 1) : 1; }
int omp_get_max_threads(void) { return in_par ? 1 : nthreads(); }
int omp_get_num_procs(void) { return nthreads(); }
int omp_in_parallel(void) { return in_par; }
void omp_set_num_threads(int n) { if (me >= 0 && S) { if (n > 0) S->omp_threads = n; } else omp_default = n > 0 ? n : 1; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_get_level(void) { return in_par; }
int omp_get_active_level(void) { return in_par; }
void omp_set_nested(int n) { (void)n; } void omp_set_dynamic(int n) { (void)n; } int omp_get_nested(void) { return 0; } int omp_get_dynamic(void) { return 0; }
void omp_set_max_active_levels(int n) { (void)n; } int omp_get_max_active_levels(void) { return 1; }
void omp_set_schedule(int k, int c) { (void)k; (void)c; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
void GOMP_barrier(void) { if (!in_par || n_t <= 1 || cur_t < 0) return; int t = cur_t; co[t].waiting = 1; swapcontext(&co[t].uc, &main_uc); }
static int crit_owner = -1; static int crit_depth; static uint32_t crit_epoch;
static void co_yield(void) { int t = cur_t; swapcontext(&co[t].uc, &main_uc); }
static void lock_enter(void) { if (!in_par || n_t <= 1) { return; } while (crit_owner >= 0 && crit_owner != cur_t && !co[crit_owner].fin) co_yield(); crit_owner = cur_t; crit_depth++; }
static void lock_exit(void) { if (!in_par || n_t <= 1) { return; } if (--crit_depth == 0) crit_owner = -1; (void)crit_epoch; }
void GOMP_critical_start(void) { lock_enter(); } void GOMP_critical_end(void) { lock_exit(); }
void GOMP_critical_name_start(void **p) { (void)p; lock_enter(); } void GOMP_critical_name_end(void **p) { (void)p; lock_exit(); }
void GOMP_atomic_start(void) { lock_enter(); } void GOMP_atomic_end(void) { lock_exit(); }
/* dynamic loops: one shared counter; single */
static long wl_next, wl_end, wl_incr, wl_chunk; static uint32_t wl_region; static int wl_seen[MAXT]; static int wl_gen, wl_tgen[MAXT];
static int loop_next(long *s, long *e) {
    if (wl_incr > 0 ? wl_next >= wl_end : wl_next <= wl_end) return 0;
    *s = wl_next; long n = wl_next + wl_incr * wl_chunk; if (wl_incr > 0 ? n > wl_end : n < wl_end) n = wl_end; *e = n; wl_next = n;
    if (in_par && n_t > 1) co_yield();
    return 1;
}
static void loop_init(long st, long en, long inc, long ch) { wl_next = st; wl_end = en; wl_incr = inc; wl_chunk = ch > 0 ? ch : 1; }
static int loop_start(long st, long en, long inc, long ch, long *s, long *e) {
    int t = cur_t < 0 ? 0 : cur_t;
    if (wl_region != region_id) { wl_region = region_id; wl_gen = 0; memset(wl_tgen, 0, sizeof wl_tgen); }
    if (++wl_tgen[t] > wl_gen) { wl_gen = wl_tgen[t]; loop_init(st, en, inc, ch); }
    return loop_next(s, e);
}
int GOMP_loop_dynamic_start(long a, long b, long c, long d, long *s, long *e) { return loop_start(a, b, c, d, s, e); }
int GOMP_loop_nonmonotonic_dynamic_start(long a, long b, long c, long d, long *s, long *e) { return loop_start(a, b, c, d, s, e); }
int GOMP_loop_guided_start(long a, long b, long c, long d, long *s, long *e) { return loop_start(a, b, c, d, s, e); }
int GOMP_loop_nonmonotonic_guided_start(long a, long b, long c, long d, long *s, long *e) { return loop_start(a, b, c, d, s, e); }
int GOMP_loop_runtime_start(long a, long b, long c, long *s, long *e) { return loop_start(a, b, c, 1, s, e); }
int GOMP_loop_dynamic_next(long *s, long *e) { return loop_next(s, e); }
int GOMP_loop_nonmonotonic_dynamic_next(long *s, long *e) { return loop_next(s, e); }
int GOMP_loop_guided_next(long *s, long *e) { return loop_next(s, e); }
int GOMP_loop_nonmonotonic_guided_next(long *s, long *e) { return loop_next(s, e); }
int GOMP_loop_runtime_next(long *s, long *e) { return loop_next(s, e); }
void GOMP_loop_end(void) { GOMP_barrier(); } void GOMP_loop_end_nowait(void) {}
#define PLOOP(nm) void nm(void (*fn)(void *), void *data, unsigned nth, long a, long b, long c, long d, unsigned fl) { loop_init(a, b, c, d); wl_region = region_id; wl_gen = 1; for (int i = 0; i < MAXT; i++) wl_tgen[i] = 1; GOMP_parallel(fn, data, nth, fl); }
PLOOP(GOMP_parallel_loop_dynamic) PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic) PLOOP(GOMP_parallel_loop_guided) PLOOP(GOMP_parallel_loop_nonmonotonic_guided)
static uint32_t sg_region; static int sg_gen, sg_t[MAXT];
int GOMP_single_start(void) { int t = cur_t < 0 ? 0 : cur_t; if (sg_region != region_id) { sg_region = region_id; sg_gen = 0; memset(sg_t, 0, sizeof sg_t); } if (++sg_t[t] > sg_gen) { sg_gen = sg_t[t]; return 1; } return 0; }

/* ------------------------------------------------------------------ -fsanitize=thread callbacks: race detector + preemption */
#define SHB 20
/* one entry per 8-byte word touched in the current region (between two barriers): who wrote and who read each byte */
typedef struct { uint64_t addr; uint32_t reg; uint8_t wmask, rmask, rmulti; uint8_t wtid[8], rtid[8]; } Sh;
static Sh *shadow;
static char race_note[256]; static uint64_t race_count; static void *race_pc[16]; static int nrace_pc;
uint64_t sim_race_count(void) { return race_count; }
const char *sim_race_note(void) { return race_note; }
static void race_found(uintptr_t a, int t1, int t2, int w, void *pc) {
    race_count++; S->ctr[C_RACE]++;
    for (int i = 0; i < nrace_pc; i++) if (race_pc[i] == pc) return;
    if (nrace_pc < 16) race_pc[nrace_pc++] = pc;
    Dl_info di; const char *so = "?", *fn = "?"; if (dladdr(pc, &di)) { so = di.dli_fname ? strrchr(di.dli_fname, '/') ? strrchr(di.dli_fname, '/') + 1 : di.dli_fname : "?"; fn = di.dli_sname ? di.dli_sname : "static"; }
    (void)a;
    if (!race_note[0]) snprintf(race_note, sizeof race_note, "%s race between threads %d and %d in %s (%s)", w ? "write" : "read/write", t1, t2, so, fn);
    logop(O_RACE, t1, t2, w);
}
static inline void acc(uintptr_t a, unsigned sz, int w, void *pc) {
    if (!in_par || n_t <= 1 || cur_t < 0) return;
    int mode = S->tsan_mode;
    if (!mode) return;
    if (mode & 1) {
        if (crit_owner == cur_t) goto pre; /* inside a critical section */
        char *sp = co[cur_t].stk; if ((char *)a >= sp && (char *)a < sp + STK) return; /* own stack */
        if (!shadow) { shadow = mmap(NULL, sizeof(Sh) << SHB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
        while (sz) {
            uintptr_t base = a & ~(uintptr_t)7; unsigned off = (unsigned)(a - base), n = 8 - off < sz ? 8 - off : sz;
            uint8_t mask = (uint8_t)(((1u << n) - 1) << off);
            uint64_t h = (base >> 3) * 0x9e3779b97f4a7c15ull >> (64 - SHB);
            Sh *s = NULL;
            for (int k = 0; k < 16; k++) { Sh *x = &shadow[(h + (unsigned)k) & ((1u << SHB) - 1)]; if (x->reg != region_id) { memset(x, 0, sizeof *x); x->reg = region_id; x->addr = base; s = x; break; } if (x->addr == base) { s = x; break; } }
            if (s) {
                int t = cur_t, other = -1;
                for (unsigned b = off; b < off + n; b++) {
                    uint8_t m = (uint8_t)(1u << b);
                    if ((s->wmask & m) && s->wtid[b] != t) other = s->wtid[b];
                    else if (w && (s->rmask & m) && (s->rtid[b] != t || (s->rmulti & m))) other = s->rtid[b];
                    if (w) { s->wmask |= m; s->wtid[b] = (uint8_t)t; }
                    else { if ((s->rmask & m) && s->rtid[b] != t) s->rmulti |= m; s->rmask |= m; s->rtid[b] = (uint8_t)t; }
                }
                if (other >= 0) race_found(base, other, t, w, pc);
            }
            a += n; sz -= n;
        }
    }
pre:
    if ((mode & 2) && w && crit_owner != cur_t) { if (decide(D_PREEMPT, 2)) { S->ctr[C_PREEMPT]++; co_yield(); } }
}
/* memory freed inside a region may be handed to another thread: forget who used it */
static void forget(void *p) {
    if (!in_par || n_t <= 1 || cur_t < 0 || !S || !(S->tsan_mode & 1) || !shadow || !p) return;
    uintptr_t a = (uintptr_t)p & ~(uintptr_t)7, e = (uintptr_t)p + malloc_usable_size(p);
    for (; a < e; a += 8) {
        uint64_t h = (a >> 3) * 0x9e3779b97f4a7c15ull >> (64 - SHB);
        for (int k = 0; k < 16; k++) { Sh *x = &shadow[(h + (unsigned)k) & ((1u << SHB) - 1)]; if (x->reg != region_id) break; if (x->addr == a) { x->wmask = x->rmask = x->rmulti = 0; break; } }
    }
}
extern void __libc_free(void *); extern void *__libc_realloc(void *, size_t);
void free(void *p) { forget(p); __libc_free(p); }
void *realloc(void *p, size_t n) { forget(p); return __libc_realloc(p, n); }
#define PC __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void *a) { acc((uintptr_t)a, n, 0, PC); } void __tsan_write##n(void *a) { acc((uintptr_t)a, n, 1, PC); } \
  void __tsan_unaligned_read##n(void *a) { acc((uintptr_t)a, n, 0, PC); } void __tsan_unaligned_write##n(void *a) { acc((uintptr_t)a, n, 1, PC); } \
  void __tsan_volatile_read##n(void *a) { acc((uintptr_t)a, n, 0, PC); } void __tsan_volatile_write##n(void *a) { acc((uintptr_t)a, n, 1, PC); } \
  void __tsan_read##n##_pc(void *a, void *p) { acc((uintptr_t)a, n, 0, p); } void __tsan_write##n##_pc(void *a, void *p) { acc((uintptr_t)a, n, 1, p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { acc((uintptr_t)a, (unsigned)n, 0, PC); }
void __tsan_write_range(void *a, size_t n) { acc((uintptr_t)a, (unsigned)n, 1, PC); }
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; } void __tsan_vptr_read(void **a) { (void)a; }
void __tsan_func_entry(void *p) { (void)p; } void __tsan_func_exit(void) {} void __tsan_init(void) {}
#define AT(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T *p, int m) { (void)m; return *p; } \
 void __tsan_atomic##bits##_store(volatile T *p, T v, int m) { (void)m; *p = v; } \
 T __tsan_atomic##bits##_exchange(volatile T *p, T v, int m) { (void)m; T o = *p; *p = v; return o; } \
 T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int m) { (void)m; T o = *p; *p = (T)(o + v); return o; } \
 T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int m) { (void)m; T o = *p; *p = (T)(o - v); return o; } \
 T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int m) { (void)m; T o = *p; *p = (T)(o | v); return o; } \
 T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int m) { (void)m; T o = *p; *p = (T)(o & v); return o; } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int m, int f) { (void)m; (void)f; if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int m, int f) { (void)m; (void)f; if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int m, int f) { (void)m; (void)f; T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; }
