/*
 * simrt.c -- deterministic simulation runtime for the Minim interpreter.
 *
 * The interpreter's own, unmodified sources (including main()) are linked
 * against this file.  Every source of nondeterminism they touch is here:
 *
 *   - the garbage collector: object placement, slot reuse, the moment of every
 *     collection and finalizer run (GC_* entry points);
 *   - stdio: fopen/tmpfile/getc/putc/... work on an in-memory disk through
 *     fopencookie streams; every read/write/open/close/seek may be split,
 *     shortened, failed or turned into a crash by the fault plan;
 *   - the process: getcwd/chdir/realpath are virtual, exit() is intercepted,
 *     crashes keep exactly the bytes that had reached the disk;
 *   - the size of the interpreter's stack segments (hook MINIM_SIM).
 *
 * A worker process starts once ("zygote": real start-up code runs, loading the
 * real prelude and libraries) and then forks one child per simulated run.
 * One run is a pure function of (zygote configuration, request).
 *
 * This file is compiled WITHOUT AddressSanitizer; the interpreter is compiled
 * with it, and the arena below poisons freed and slack memory.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <dirent.h>
#include <sys/stat.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/syscall.h>
#define _exit(c) sim_os_exit(c)
static void sim_os_exit(int c) __attribute__((noreturn));
static void sim_os_exit(int c) { for (;;) syscall(SYS_exit_group, c); }

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

void __asan_poison_memory_region(void const volatile *addr, size_t size);
void __asan_unpoison_memory_region(void const volatile *addr, size_t size);
void __asan_set_death_callback(void (*cb)(void));

extern int minim_main(int argc, char **argv);
/* the size of a stack segment: the hook in src/core/minim.h reads this */
size_t minim_sim_stack_size = 65520;

/* ------------------------------------------------------------------ */
/* fixed address map                                                    */

#define ARENA_BASE   0x200000000000ull
#define ARENA_SIZE   (48ull << 30)
#define CHUNK_SHIFT  16
#define CHUNK_SIZE   (1ull << CHUNK_SHIFT)
#define MAX_CHUNKS   (ARENA_SIZE >> CHUNK_SHIFT)
#define META_BASE    0x210000000000ull       /* collector metadata          */
#define META_SIZE    (32ull << 30)
#define CTAB_BASE    0x220000000000ull       /* chunk table                 */
#define SHARED_BASE  0x230000000000ull       /* results, survives the child */
#define SHARED_SIZE  (1ull << 30)
#define STACK_BASE   0x240000000000ull
#define STACK_SIZE   (8ull << 20)
#define MARK_BASE    0x250000000000ull
#define MARK_SIZE    (4ull << 30)
#define DIRTY_BASE   0x260000000000ull
#define ROM_BASE     0x270000000000ull
#define ROM_SIZE     (256ull << 20)
#define STATE_BASE   0x280000000000ull

static void *map_at(u64 addr, u64 size, int shared) {
    void *p = mmap((void *)addr, size, PROT_READ | PROT_WRITE,
                   (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
                   -1, 0);
    if (p != (void *)addr) { perror("simrt: mmap"); _exit(120); }
    return p;
}

/* ------------------------------------------------------------------ */
/* shared (survives the child): streams' output, disk, result            */

enum { END_NONE, END_EXIT, END_CRASH, END_SIGNAL, END_LIMIT, END_TIMEOUT, END_ASAN, END_INTERNAL };

#define MAX_FILES 512
#define MAX_DIRS 128
#define MAX_VIOL 64
#define MAX_FAULTS 64
#define MAX_FIRED 256
#define MAX_GCLOG 4096
#define MAX_PATH 512

typedef struct {
    char path[MAX_PATH];
    u64 off, len, cap;      /* data in shared heap (or ROM) */
    int rom, exists, readonly, unreadable, touched;
} vfile;

typedef struct { char kind[24]; u64 at; int errn; long keep; int crash; char where[512]; } fired_t;

enum { EV_ALLOC, EV_GC, EV_GETC, EV_PUTC, EV_OPEN, EV_CLOSE, EV_READ, EV_WRITE, EV_SEEK,
       EV_TMP, EV_CHDIR, EV_GETCWD, EV_REALPATH, EV_FINAL, EV_FLUSH, EV_EXIT, EV_OTHER, EV_KINDS };
static const char *ev_name[EV_KINDS] = { "alloc", "gc", "getc", "putc", "open", "close", "read", "write",
    "seek", "tmpfile", "chdir", "getcwd", "realpath", "finalize", "flush", "exit", "other" };

typedef struct {
    int end, code, sig;
    u64 fault_addr, fault_pc;
    char note[512];
    u64 out_off, out_len, out_cap;   /* stdout bytes that reached the OS */
    u64 err_off, err_len, err_cap;
    vfile files[MAX_FILES]; int nfiles;
    char dirs[MAX_DIRS][MAX_PATH]; int ndirs;
    char viol[MAX_VIOL][160]; int nviol;
    fired_t fired[MAX_FIRED]; int nfired;
    u64 counts[EV_KINDS];
    u64 events, hash, iohash;
    u64 alloc_bytes, live_bytes, live_objs, max_live_bytes;
    int gc_out, open_streams, max_open, opened_total, open_at_end, fin_run, stdout_flush_failed, flush_failed;
    u64 gclog[MAX_GCLOG][3]; int ngclog;
    u64 stack_low;                   /* deepest C stack use seen */
    u64 heap_top;
    char cwd[MAX_PATH];
    u64 trace_off, trace_len, trace_cap;
} shared_t;

#define SH ((shared_t *)SHARED_BASE)
#define SHEAP_BASE (SHARED_BASE + ((sizeof(shared_t) + 0xffff) & ~0xffffull))

static u64 sh_alloc(u64 n) {
    u64 r = SH->heap_top;
    SH->heap_top += (n + 63) & ~63ull;
    if (SHEAP_BASE + SH->heap_top > SHARED_BASE + SHARED_SIZE) { SH->end = END_INTERNAL; strcpy(SH->note, "shared heap full"); _exit(97); }
    return r;
}
static char *sh_ptr(u64 off) { return (char *)(SHEAP_BASE + off); }
static void sh_grow(u64 *off, u64 *cap, u64 len, u64 need) {
    if (need <= *cap) return;
    u64 nc = *cap ? *cap : 256;
    while (nc < need) nc *= 2;
    u64 no = sh_alloc(nc);
    if (len) __builtin_memcpy(sh_ptr(no), sh_ptr(*off), len);
    *off = no; *cap = nc;
}

/* ------------------------------------------------------------------ */
/* private simulator state (never scanned by the collector)              */

enum { GC_NONE, GC_EVERY, GC_PROB, GC_BYTES };
enum { PL_BUMP, PL_RANDOM };
enum { RU_NEVER, RU_LIFO, RU_RANDOM };

typedef struct { char kind[24]; char path[96]; int not; u64 nth, seen; int errn; long keep; int sticky, crash, active; } fault_t;

typedef struct { void *obj; void (*fn)(void *, void *); void *cd; } final_t;

enum { ST_STDIN, ST_STDOUT, ST_STDERR, ST_FILE, ST_TMP };
typedef struct {
    FILE *fp; int kind, file, can_read, can_write, append, closed, dir;
    u64 pos, off, len, cap;      /* tmp files: own data */
    u64 id;
} stream_t;
#define MAX_STREAMS 16384

#define MAX_ROOTS 256
#define NCLASS 20
static const u32 class_size[NCLASS] = { 32, 48, 64, 96, 128, 192, 256, 384, 512, 768, 1024, 1536, 2048,
    3072, 4096, 6144, 8192, 12288, 16384, 32768 };

typedef struct { u32 slot; u32 nslots; u32 nchunks; u32 head_back; u8 used, large, pad[2]; u64 meta; u32 *freel; u32 nfree; } chunk_t;
typedef struct { u32 size; u8 live, mark, atomic, final; } smeta;

typedef struct {
    int phase;                       /* 0 = start-up, 1 = in a run */
    u64 rng_layout, rng_io, rng_gc;
    int gc_mode; u64 gc_a, gc_from, gc_to, gc_start_bytes;
    u64 gc_at[256]; int ngc_at;
    int placement, reuse, junk;
    u64 allocs, since_gc_bytes, gc_work;
    int gc_off, in_gc;
    u32 next_chunk, first_new_chunk;
    int cur[2][NCLASS];              /* current chunk per class */
    u64 meta_top;
    u64 nroots; void *roots[MAX_ROOTS][2];
    final_t *finals; u64 nfinals, capfinals;
    u64 live_objs, live_bytes;
    u64 limit_events; u64 crash_event; u64 fbuf;
    u64 disk_cap; int fdlimit;
    int chunk_mode; u64 chunk_max;
    fault_t faults[MAX_FAULTS]; int nfaults;
    stream_t streams[MAX_STREAMS]; int nstreams; u64 stream_id;
    char *in_data; u64 in_len, in_pos;
    int trace;
    char start_extra[MAX_PATH];
    u64 rom_top;
    int serve_at;                    /* 0 program, 1 immediately */
    int req_fd, rsp_fd, errcap_fd;
    char *reqbuf;
    u64 ndirty;
    u32 cpu;
    u64 final_gc;
} state_t;
#define S ((state_t *)STATE_BASE)
#define CT ((chunk_t *)CTAB_BASE)
#define DIRTY ((u8 *)DIRTY_BASE)

static void serve(const char *why);
static void finish(int end, int code) __attribute__((noreturn));

static u64 splitmix(u64 *s) {
    u64 z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static u64 rnd(u64 *s, u64 n) { return n ? splitmix(s) % n : 0; }

static void mix(u64 *h, u64 v) { *h = (*h ^ v) * 0x100000001b3ull; *h ^= *h >> 29; }

static void vtrace(const char *fmt, ...) {
    if (!S->trace) return;
    char buf[400]; va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (n > 399) n = 399;
    if (SH->trace_len + n + 64 > (2u << 20)) return;
    char pre[40]; int m = sprintf(pre, "%lu ", (unsigned long)SH->events);
    sh_grow(&SH->trace_off, &SH->trace_cap, SH->trace_len, SH->trace_len + n + m + 1);
    char *p = sh_ptr(SH->trace_off) + SH->trace_len;
    __builtin_memcpy(p, pre, m); __builtin_memcpy(p + m, buf, n); p[m + n] = '\n';
    SH->trace_len += n + m + 1;
}

/* every interaction with the world is an event */
static void event(int kind, u64 a) {
    SH->counts[kind]++;
    SH->events++;
    mix(&SH->hash, kind * 0x9e37 + a);
    if (kind >= EV_OPEN && kind != EV_OTHER) mix(&SH->iohash, kind * 0x51ed + a);
    if (S->phase) {
        if (S->crash_event && SH->events >= S->crash_event) {
            if (SH->nfired < MAX_FIRED) {
                fired_t *f = &SH->fired[SH->nfired++];
                strcpy(f->kind, "crash-at-event"); f->at = SH->events; f->crash = 1;
            }
            vtrace("crash (event %lu)", (unsigned long)SH->events);
            finish(END_CRASH, 0);
        }
        if (S->limit_events && SH->events >= S->limit_events) finish(END_LIMIT, 0);
    }
}

static void violation(const char *fmt, ...) {
    if (SH->nviol >= MAX_VIOL) return;
    va_list ap; va_start(ap, fmt);
    vsnprintf(SH->viol[SH->nviol++], 160, fmt, ap);
    va_end(ap);
    vtrace("violation: %s", SH->viol[SH->nviol - 1]);
}

/* ------------------------------------------------------------------ */
/* fault plan                                                            */

/* looks for a fault armed for `kind`; returns it when it fires now */
static fault_t *fault_check(const char *kind, const char *where) {
    fault_t *hit = NULL;
    if (!S->phase) return NULL;
    const char *colon = strchr(kind, ':');
    size_t base = colon ? (size_t)(colon - kind) : strlen(kind);
    for (int i = 0; i < S->nfaults; i++) {
        fault_t *f = &S->faults[i];
        int m = strcmp(f->kind, kind) == 0 || (strlen(f->kind) == base && strncmp(f->kind, kind, base) == 0);
        if (m && f->path[0]) m = (strcmp(f->path, where ? where : "") == 0) != f->not;
        if (!m) continue;
        f->seen++;
        if (!hit && (f->seen == f->nth || (f->sticky && f->seen > f->nth))) hit = f;
    }
    if (hit) {
        if (SH->nfired < MAX_FIRED) {
            fired_t *r = &SH->fired[SH->nfired++];
            snprintf(r->kind, sizeof r->kind, "%s", kind);
            r->at = SH->events; r->errn = hit->errn; r->keep = hit->keep; r->crash = hit->crash;
            snprintf(r->where, sizeof r->where, "%s", where ? where : "");
        }
        mix(&SH->iohash, 77777 + hit->errn);
        vtrace("fault %s errno=%d keep=%ld crash=%d %s", kind, hit->errn, hit->keep, hit->crash, where ? where : "");
    }
    return hit;
}

/* ------------------------------------------------------------------ */
/* collector                                                             */

static int class_of(u64 n) {
    for (int i = 0; i < NCLASS; i++) if (class_size[i] >= n) return i;
    return -1;
}
static void *meta_alloc(u64 n) {
    n = (n + 15) & ~15ull;
    u64 r = META_BASE + S->meta_top;
    S->meta_top += n;
    if (S->meta_top > META_SIZE) { SH->end = END_INTERNAL; strcpy(SH->note, "meta full"); _exit(97); }
    return (void *)r;
}
static smeta *metas(chunk_t *c) { return (smeta *)c->meta; }

static u32 new_chunk(u32 slot, u32 nslots, u32 nchunks, int large) {
    u32 i = S->next_chunk;
    if (S->placement == PL_RANDOM) i += rnd(&S->rng_layout, 4);
    if (i + nchunks >= MAX_CHUNKS) { finish(END_LIMIT, 1); }
    S->next_chunk = i + nchunks;
    chunk_t *c = &CT[i];
    c->slot = slot; c->nslots = nslots; c->nchunks = nchunks; c->used = 1; c->large = large; c->head_back = 0;
    c->meta = (u64)meta_alloc(sizeof(smeta) * nslots);
    for (u32 k = 1; k < nchunks; k++) { CT[i + k].used = 1; CT[i + k].head_back = k; }
    if (!large) {
        c->freel = meta_alloc(4 * nslots);
        c->nfree = nslots;
        for (u32 k = 0; k < nslots; k++) c->freel[k] = nslots - 1 - k;
    }
    __asan_poison_memory_region((void *)(ARENA_BASE + ((u64)i << CHUNK_SHIFT)), (u64)nchunks << CHUNK_SHIFT);
    return i;
}

static int find_slot(u64 p, u32 *ci, u32 *si) {
    if (p < ARENA_BASE || p >= ARENA_BASE + ((u64)S->next_chunk << CHUNK_SHIFT)) return 0;
    u32 i = (p - ARENA_BASE) >> CHUNK_SHIFT;
    chunk_t *c = &CT[i];
    if (!c->used) return 0;
    if (c->head_back) { i -= c->head_back; c = &CT[i]; }
    u64 off = p - (ARENA_BASE + ((u64)i << CHUNK_SHIFT));
    u32 s = c->large ? 0 : off / c->slot;
    if (s >= c->nslots) return 0;
    if (!metas(c)[s].live) return 0;
    *ci = i; *si = s;
    return 1;
}
static u64 slot_addr(u32 ci, u32 si) { return ARENA_BASE + ((u64)ci << CHUNK_SHIFT) + (u64)si * CT[ci].slot; }

static void fill(void *p, int byte, u64 n) {
    volatile u64 *w = p; u64 v = 0x0101010101010101ull * (u8)byte;
    u64 i; for (i = 0; i + 8 <= n; i += 8) *w++ = v;
    volatile u8 *b = (volatile u8 *)w; for (; i < n; i++) *b++ = byte;
}

static void free_slot(u32 ci, u32 si) {
    chunk_t *c = &CT[ci];
    smeta *m = &metas(c)[si];
    u64 a = slot_addr(ci, si);
    __asan_unpoison_memory_region((void *)a, m->size);
    fill((void *)a, 0xDB, m->size < 256 ? m->size : 256);
    __asan_poison_memory_region((void *)a, m->size);
    if (ci >= S->first_new_chunk) { S->live_objs--; S->live_bytes -= m->size; }
    m->live = 0; m->mark = 0;
    if (S->reuse != RU_NEVER && !c->large && ci >= S->first_new_chunk) {
        c->freel[c->nfree++] = si;
    }
}

static u64 *mark_sp;
static void mark_word(u64 w) {
    u32 ci, si;
    if (!find_slot(w, &ci, &si)) return;
    if (ci < S->first_new_chunk) return;       /* start-up objects are permanent in a run */
    smeta *m = &metas(&CT[ci])[si];
    if (m->mark) return;
    m->mark = 1;
    if (!m->atomic) { *mark_sp++ = slot_addr(ci, si); *mark_sp++ = m->size; }
}
static void scan(u64 lo, u64 hi) {
    lo = (lo + 7) & ~7ull;
    for (u64 *p = (u64 *)lo; (u64)(p + 1) <= hi; p++) {
        u64 w = *p;
        if (w - ARENA_BASE < ARENA_SIZE) mark_word(w);
    }
}
static void drain(void) {
    while (mark_sp > (u64 *)MARK_BASE) {
        u64 n = *--mark_sp, a = *--mark_sp;
        scan(a, a + n);
    }
}

extern char __data_start[], _end[];

static __attribute__((noinline)) void collect_inner(u64 sp) {
    mark_sp = (u64 *)MARK_BASE;
    scan((u64)__data_start, (u64)_end); drain();
    scan(sp, STACK_BASE + STACK_SIZE); drain();
    for (u64 i = 0; i < S->nroots; i++) { scan((u64)S->roots[i][0], (u64)S->roots[i][1]); drain(); }
    if (S->first_new_chunk) {
        /* start-up heap written since the snapshot */
        u64 npages = ((u64)S->first_new_chunk << CHUNK_SHIFT) >> 12, left = S->ndirty;
        for (u64 i = 0; i < npages && left; i++)
            if (DIRTY[i]) { left--; scan(ARENA_BASE + (i << 12), ARENA_BASE + ((i + 1) << 12)); drain(); }
    }
    /* finalizers: resurrect once */
    u64 nq = 0, keep = 0;
    final_t *q = NULL;
    for (u64 i = 0; i < S->nfinals; i++) {
        u32 ci, si;
        final_t f = S->finals[i];
        int dead = find_slot((u64)f.obj, &ci, &si) && ci >= S->first_new_chunk && !metas(&CT[ci])[si].mark;
        if (dead) {
            if (!q) q = meta_alloc(sizeof(final_t) * (S->nfinals - i));
            q[nq++] = f;
        } else S->finals[keep++] = f;
    }
    S->nfinals = keep;
    for (u64 i = 0; i < nq; i++) { mark_word((u64)q[i].obj); drain(); }
    /* sweep */
    for (u32 i = S->first_new_chunk; i < S->next_chunk; ) {
        chunk_t *c = &CT[i];
        if (!c->used) { i++; continue; }
        smeta *m = metas(c);
        S->gc_work += c->nslots;
        for (u32 s = 0; s < c->nslots; s++)
            if (m[s].live) { if (m[s].mark) m[s].mark = 0; else free_slot(i, s); }
        i += c->nchunks;
    }
    S->gc_work += 4 * S->live_objs + 512 * S->ndirty + 2000;
    S->since_gc_bytes = 0;
    event(EV_GC, S->live_objs);
    SH->live_bytes = S->live_bytes; SH->live_objs = S->live_objs;
    if (S->live_bytes > SH->max_live_bytes) SH->max_live_bytes = S->live_bytes;
    if (SH->ngclog < MAX_GCLOG) {
        SH->gclog[SH->ngclog][0] = S->allocs; SH->gclog[SH->ngclog][1] = S->live_bytes;
        SH->gclog[SH->ngclog][2] = SH->out_len; SH->ngclog++;
    }
    vtrace("gc live=%lu bytes=%lu", (unsigned long)S->live_objs, (unsigned long)S->live_bytes);
    S->in_gc = 0;
    for (u64 i = 0; i < nq; i++) {
        event(EV_FINAL, 0);
        SH->fin_run++;
        q[i].fn(q[i].obj, q[i].cd);
    }
}

static __attribute__((noinline)) void collect(void) {
    if (S->in_gc) return;
    S->in_gc = 1;
    __builtin_unwind_init();                 /* spill callee-saved registers */
    u64 sp = (u64)__builtin_frame_address(0);
    u64 regs[8];
    __asm__ volatile("mov %%rbx,0(%0)\n mov %%rbp,8(%0)\n mov %%r12,16(%0)\n mov %%r13,24(%0)\n mov %%r14,32(%0)\n mov %%r15,40(%0)\n"
                     :: "r"(regs) : "memory");
    u64 low = (u64)regs < sp ? (u64)regs : sp;
    if (low < STACK_BASE || low >= STACK_BASE + STACK_SIZE) { S->in_gc = 0; return; }
    collect_inner(low);
}

#define GC_WORK_MAX 400000000ull
static void gc_maybe(void) {
    if (S->gc_off || S->in_gc) return;
    int go = 0;
    u64 n = S->allocs;
    /* a run's collections are worth a bounded amount of work; after that only large growth collects */
    if (S->gc_work > GC_WORK_MAX && S->since_gc_bytes < (32u << 20)) { SH->gc_out = 1; return; }
    switch (S->gc_mode) {
    case GC_EVERY: go = n >= S->gc_from && n < S->gc_to && S->gc_a && (n - S->gc_from) % S->gc_a == 0; break;
    case GC_PROB: go = n >= S->gc_from && n < S->gc_to && rnd(&S->rng_gc, 65536) < S->gc_a; break;
    case GC_BYTES: go = S->since_gc_bytes > S->gc_a; break;
    default: break;
    }
    for (int i = 0; i < S->ngc_at && !go; i++) if (S->gc_at[i] == n) go = 1;
    if (go) collect();
}

static void *sim_alloc(u64 n, int atomic) {
    S->allocs++;
    event(EV_ALLOC, n * 2 + atomic);
    if (n > (1ull << 33)) { violation("allocation of %lu bytes requested", (unsigned long)n); finish(END_LIMIT, 2); }
    gc_maybe();
    u64 need = n + 8;
    u64 local; if ((u64)&local < SH->stack_low) SH->stack_low = (u64)&local;
    int cl = class_of(need);
    u32 ci, si;
    if (cl < 0) {
        u32 nch = (need + CHUNK_SIZE - 1) >> CHUNK_SHIFT;
        ci = new_chunk(0, 1, nch, 1); si = 0;
        CT[ci].slot = 0;
    } else {
        int *cur = &S->cur[0][cl];
        if (S->placement == PL_RANDOM && rnd(&S->rng_layout, 8) == 0) {
            int t = S->cur[0][cl]; S->cur[0][cl] = S->cur[1][cl]; S->cur[1][cl] = t;
        }
        if (*cur < 0 || CT[*cur].nfree == 0) {
            /* with reuse, look for an older chunk with free slots */
            int found = -1;
            if (S->reuse != RU_NEVER) {
                u32 tries = 0;
                for (u32 k = S->first_new_chunk; k < S->next_chunk && tries < 4096; k++, tries++)
                    if (CT[k].used && !CT[k].large && !CT[k].head_back && CT[k].slot == class_size[cl] && CT[k].nfree * 4 > CT[k].nslots) { found = k; break; }
            }
            if (found < 0) found = new_chunk(class_size[cl], CHUNK_SIZE / class_size[cl], 1, 0);
            *cur = found;
        }
        ci = *cur;
        chunk_t *c = &CT[ci];
        u32 k = c->nfree - 1;
        if (S->placement == PL_RANDOM || S->reuse == RU_RANDOM) {
            k = rnd(&S->rng_layout, c->nfree);
        }
        si = c->freel[k];
        c->freel[k] = c->freel[c->nfree - 1];
        c->nfree--;
    }
    smeta *m = &metas(&CT[ci])[si];
    u64 a = slot_addr(ci, si);
    m->size = n ? n : 1; m->live = 1; m->mark = 0; m->atomic = atomic; m->final = 0;
    if (cl < 0 && n >= (1ull << 32)) m->size = 0xffffffff;
    __asan_unpoison_memory_region((void *)a, n ? n : 1);
    if (atomic) fill((void *)a, S->junk, n); else if (cl >= 0 || 1) fill((void *)a, 0, n);
    S->live_objs++; S->live_bytes += m->size;
    S->since_gc_bytes += n;
    SH->alloc_bytes += n;
    mix(&SH->hash, a);
    return (void *)a;
}

void GC_init(void) { if (S->serve_at == 1) serve("init"); }
void GC_deinit(void) {}
void *GC_malloc(size_t n) { return sim_alloc(n, 0); }
void *GC_malloc_atomic(size_t n) { return sim_alloc(n, 1); }
void *GC_malloc_uncollectable(size_t n) {
    void *p = sim_alloc(n, 0);
    if (S->nroots < MAX_ROOTS) {
        u64 *cell = meta_alloc(16); cell[0] = (u64)p;
        S->roots[S->nroots][0] = cell; S->roots[S->nroots++][1] = cell + 1;
    }
    return p;
}
void GC_free(void *p) {
    u32 ci, si;
    if (!p) return;
    if (!find_slot((u64)p, &ci, &si) || slot_addr(ci, si) != (u64)p) { violation("GC_free of a pointer that is not a live object"); return; }
    for (u64 i = 0; i < S->nfinals; i++) if (S->finals[i].obj == p) { S->finals[i] = S->finals[--S->nfinals]; break; }
    free_slot(ci, si);
}
void *GC_realloc(void *p, size_t n) {
    u32 ci, si;
    if (!p) return sim_alloc(n, 0);
    if (n == 0) { GC_free(p); return NULL; }
    if (!find_slot((u64)p, &ci, &si) || slot_addr(ci, si) != (u64)p) { violation("GC_realloc of a pointer that is not a live object"); return sim_alloc(n, 0); }
    smeta *m = &metas(&CT[ci])[si];
    u64 old = m->size; int at = m->atomic;
    void *q = sim_alloc(n, at);
    u64 c = old < n ? old : n;
    for (u64 i = 0; i < c; i++) ((volatile u8 *)q)[i] = ((u8 *)p)[i];
    if (find_slot((u64)p, &ci, &si)) free_slot(ci, si);
    return q;
}
char *GC_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = sim_alloc(n, 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; return p; }
char *GC_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = sim_alloc(n + 1, 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
void GC_gcollect(void) { if (!S->gc_off) collect(); }
void GC_disable(void) { S->gc_off++; }
void GC_enable(void) { if (S->gc_off) S->gc_off--; }
void GC_add_roots(void *lo, void *hi) { if (S->nroots < MAX_ROOTS) { S->roots[S->nroots][0] = lo; S->roots[S->nroots++][1] = hi; } }
void GC_remove_roots(void *lo, void *hi) { for (u64 i = 0; i < S->nroots; i++) if (S->roots[i][0] == lo && S->roots[i][1] == hi) { S->roots[i][0] = S->roots[i][1] = 0; } }
void GC_register_finalizer(void *obj, void (*fn)(void *, void *), void *cd, void **ofn, void **ocd) {
    if (ofn) *ofn = NULL;
    if (ocd) *ocd = NULL;
    for (u64 i = 0; i < S->nfinals; i++) if (S->finals[i].obj == obj) {
        if (fn) { S->finals[i].fn = fn; S->finals[i].cd = cd; } else S->finals[i] = S->finals[--S->nfinals];
        return;
    }
    if (!fn) return;
    if (S->nfinals == S->capfinals) {
        u64 nc = S->capfinals ? S->capfinals * 2 : 64;
        final_t *nf = meta_alloc(nc * sizeof(final_t));
        if (S->nfinals) __builtin_memcpy(nf, S->finals, S->nfinals * sizeof(final_t));
        S->finals = nf; S->capfinals = nc;
    }
    S->finals[S->nfinals].obj = obj; S->finals[S->nfinals].fn = fn; S->finals[S->nfinals++].cd = cd;
}
void *GC_base(void *p) { u32 ci, si; return find_slot((u64)p, &ci, &si) ? (void *)slot_addr(ci, si) : NULL; }
size_t GC_size(const void *p) { u32 ci, si; return find_slot((u64)p, &ci, &si) ? metas(&CT[ci])[si].size : 0; }
int GC_invoke_finalizers(void) { return 0; }
size_t GC_get_heap_size(void) { return (u64)S->next_chunk << CHUNK_SHIFT; }

/* ------------------------------------------------------------------ */
/* virtual file system                                                   */

static void abspath(const char *p, char *out) {
    char tmp[MAX_PATH * 2];
    if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
    else snprintf(tmp, sizeof tmp, "%s/%s", SH->cwd, p);
    char *parts[256]; int n = 0;
    for (char *t = strtok(tmp, "/"); t; t = strtok(NULL, "/")) {
        if (!strcmp(t, ".")) continue;
        if (!strcmp(t, "..")) { if (n) n--; continue; }
        if (n < 256) parts[n++] = t;
    }
    char *o = out; size_t left = MAX_PATH - 1;
    if (!n) { strcpy(out, "/"); return; }
    for (int i = 0; i < n; i++) {
        size_t l = strlen(parts[i]);
        if (l + 1 > left) break;
        *o++ = '/'; memcpy(o, parts[i], l); o += l; left -= l + 1;
    }
    *o = 0;
}
static int is_dir(const char *ap) {
    if (!strcmp(ap, "/")) return 1;
    for (int i = 0; i < SH->ndirs; i++) if (!strcmp(SH->dirs[i], ap)) return 1;
    return 0;
}
static void add_dir(const char *ap) {
    char t[MAX_PATH]; snprintf(t, sizeof t, "%s", ap);
    for (;;) {
        if (!is_dir(t) && SH->ndirs < MAX_DIRS) strcpy(SH->dirs[SH->ndirs++], t);
        char *s = strrchr(t, '/');
        if (!s || s == t) break;
        *s = 0;
    }
}
static int find_file(const char *ap) {
    for (int i = 0; i < SH->nfiles; i++) if (SH->files[i].exists && !strcmp(SH->files[i].path, ap)) return i;
    return -1;
}
static int new_file(const char *ap) {
    int i;
    for (i = 0; i < SH->nfiles; i++) if (!strcmp(SH->files[i].path, ap)) break;
    if (i == SH->nfiles) { if (SH->nfiles >= MAX_FILES) return -1; SH->nfiles++; }
    vfile *f = &SH->files[i];
    memset(f, 0, sizeof *f);
    snprintf(f->path, MAX_PATH, "%s", ap);
    f->exists = 1;
    return i;
}
static void parent_dir(const char *ap, char *out) {
    snprintf(out, MAX_PATH, "%s", ap);
    char *s = strrchr(out, '/');
    if (s == out) out[1] = 0; else if (s) *s = 0;
}
static char *file_data(vfile *f) { return f->rom ? (char *)(ROM_BASE + f->off) : sh_ptr(f->off); }

static u64 disk_used(void) {
    u64 t = 0;
    for (int i = 0; i < SH->nfiles; i++) if (SH->files[i].exists && !SH->files[i].rom) t += SH->files[i].len;
    return t;
}

static const char *kind_name[] = { "stdin", "stdout", "stderr", "file", "tmp" };
static void kstr(char *buf, const char *op, int kind) { sprintf(buf, "%s:%s", op, kind_name[kind]); }

static const char *st_where(stream_t *s) { return s->kind == ST_FILE ? (s->file >= 0 ? SH->files[s->file].path : "dir") : kind_name[s->kind]; }

static ssize_t ck_read(void *ck, char *buf, size_t n) {
    stream_t *s = ck; char kb[32];
    if (s->kind == ST_STDIN && !S->phase) serve("stdin");
    kstr(kb, "read", s->kind);
    event(EV_READ, n + s->kind);
    if (S->phase || s->kind != ST_FILE) {
        fault_t *f = fault_check(kb, st_where(s));
        if (f) {
            if (f->crash) finish(END_CRASH, 0);
            if (f->errn == EINTR || f->errn == EAGAIN) {}
            if (f->errn) { errno = f->errn; return -1; }
            if (f->keep > 0 && (u64)f->keep < n) n = f->keep;      /* short read */
        }
    }
    if (s->dir) { errno = EISDIR; return -1; }
    char *d; u64 len, *pos;
    if (s->kind == ST_STDIN) { d = S->in_data; len = S->in_len; pos = &S->in_pos; }
    else if (s->kind == ST_FILE) { vfile *f = &SH->files[s->file]; if (f->unreadable && S->phase) { errno = EIO; return -1; } d = file_data(f); len = f->len; pos = &s->pos; }
    else if (s->kind == ST_TMP) { d = sh_ptr(s->off); len = s->len; pos = &s->pos; }
    else { errno = EBADF; return -1; }
    if (*pos >= len) { vtrace("read %s eof", st_where(s)); return 0; }
    u64 m = len - *pos; if (m > n) m = n;
    if (S->phase && S->chunk_mode && m > 1) { u64 mx = S->chunk_max < m ? S->chunk_max : m; m = 1 + rnd(&S->rng_io, mx); }
    memcpy(buf, d + *pos, m);
    *pos += m;
    vtrace("read %s %lu", st_where(s), (unsigned long)m);
    mix(&SH->iohash, m);
    return m;
}

static u64 write_some(stream_t *s, const char *buf, u64 n) {
    if (s->kind == ST_STDOUT) {
        sh_grow(&SH->out_off, &SH->out_cap, SH->out_len, SH->out_len + n);
        memcpy(sh_ptr(SH->out_off) + SH->out_len, buf, n); SH->out_len += n;
        if (SH->out_len > (48u << 20)) finish(END_LIMIT, 3);
        return n;
    }
    if (s->kind == ST_STDERR) {
        sh_grow(&SH->err_off, &SH->err_cap, SH->err_len, SH->err_len + n);
        memcpy(sh_ptr(SH->err_off) + SH->err_len, buf, n); SH->err_len += n;
        if (SH->err_len > (48u << 20)) finish(END_LIMIT, 3);
        return n;
    }
    if (s->kind == ST_TMP) {
        sh_grow(&s->off, &s->cap, s->len, s->pos + n);
        memcpy(sh_ptr(s->off) + s->pos, buf, n);
        s->pos += n; if (s->pos > s->len) s->len = s->pos;
        return n;
    }
    vfile *f = &SH->files[s->file];
    if (S->disk_cap) {
        u64 used = disk_used(), grow = s->pos + n > f->len ? s->pos + n - f->len : 0;
        if (used + grow > S->disk_cap) {
            u64 room = S->disk_cap > used ? S->disk_cap - used : 0;
            u64 can = (f->len > s->pos ? f->len - s->pos : 0) + room;
            if (can < n) {
                if (SH->nfired < MAX_FIRED) { fired_t *r = &SH->fired[SH->nfired++]; strcpy(r->kind, "disk-full"); r->at = SH->events; r->errn = ENOSPC; r->keep = can; snprintf(r->where, 64, "%s", f->path); }
                n = can;
            }
        }
    }
    if (n) {
        if (s->append) s->pos = f->len;
        sh_grow(&f->off, &f->cap, f->len, s->pos + n);
        memcpy(sh_ptr(f->off) + s->pos, buf, n);
        s->pos += n; if (s->pos > f->len) f->len = s->pos;
        f->touched = 1;
    }
    return n;
}

static ssize_t ck_write(void *ck, const char *buf, size_t n) {
    stream_t *s = ck; char kb[32];
    kstr(kb, "write", s->kind);
    u64 done = 0;
    if (!s->can_write) { errno = EBADF; return 0; }
    /* like a real write(2) loop: the kernel may take the bytes piecemeal */
    while (done < n) {
        u64 m = n - done;
        event(EV_WRITE, m + s->kind);
        if (S->phase && S->chunk_mode && m > 1) { u64 mx = S->chunk_max < m ? S->chunk_max : m; m = 1 + rnd(&S->rng_io, mx); }
        fault_t *f = fault_check(kb, st_where(s));
        if (f) {
            u64 k = f->keep < 0 ? 0 : (u64)f->keep; if (k > m) k = m;
            if (k) { k = write_some(s, buf + done, k); done += k; }
            if (f->crash) finish(END_CRASH, 0);
            if (f->errn) {
                errno = f->errn;
                if (s->kind == ST_STDOUT) SH->stdout_flush_failed++;
                SH->flush_failed++;
                vtrace("write %s failed after %lu of %lu", st_where(s), (unsigned long)done, (unsigned long)n);
                return done;        /* short: libio marks the stream in error */
            }
            continue;
        }
        u64 k = write_some(s, buf + done, m);
        done += k;
        vtrace("write %s %lu", st_where(s), (unsigned long)k);
        mix(&SH->iohash, k);
        if (k < m) { errno = ENOSPC; SH->flush_failed++; return done; }
    }
    return done;
}

static int ck_seek(void *ck, off64_t *off, int whence) {
    stream_t *s = ck; char kb[32];
    kstr(kb, "seek", s->kind);
    event(EV_SEEK, s->kind);
    if (s->kind <= ST_STDERR) { errno = ESPIPE; return -1; }
    fault_t *f = fault_check(kb, st_where(s));
    if (f) { if (f->crash) finish(END_CRASH, 0); if (f->errn) { errno = f->errn; return -1; } }
    u64 len = s->kind == ST_TMP ? s->len : (s->file >= 0 ? SH->files[s->file].len : 0);
    int64_t p = *off + (whence == SEEK_CUR ? (int64_t)s->pos : whence == SEEK_END ? (int64_t)len : 0);
    if (p < 0) { errno = EINVAL; return -1; }
    s->pos = p; *off = p;
    return 0;
}
static int ck_close(void *ck) { (void)ck; return 0; }

extern int __real_setvbuf(FILE *, char *, int, size_t);
static FILE *stream_open(int kind, int file, const char *mode, int dir) {
    if (S->nstreams >= MAX_STREAMS) { errno = EMFILE; return NULL; }
    if (S->phase && S->fdlimit && SH->open_streams >= S->fdlimit) { errno = EMFILE; return NULL; }
    stream_t *s = &S->streams[S->nstreams++];
    memset(s, 0, sizeof *s);
    s->kind = kind; s->file = file; s->dir = dir; s->id = ++S->stream_id;
    s->can_read = mode[0] == 'r' || strchr(mode, '+') != NULL;
    s->can_write = mode[0] != 'r' || strchr(mode, '+') != NULL;
    s->append = mode[0] == 'a';
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    char m[4] = { mode[0], strchr(mode, '+') ? '+' : 0, 0, 0 };
    s->fp = fopencookie(s, m, io);
    if (S->phase && S->fbuf) __real_setvbuf(s->fp, NULL, _IOFBF, S->fbuf);
    if (kind >= ST_FILE) {
        SH->open_streams++; SH->opened_total++;
        if (SH->open_streams > SH->max_open) SH->max_open = SH->open_streams;
    }
    return s->fp;
}
static stream_t *stream_of(FILE *fp) {
    for (int i = S->nstreams - 1; i >= 0; i--) if (S->streams[i].fp == fp) return &S->streams[i];
    return NULL;
}
static int n_recent; static FILE *recent_fp; static stream_t *recent_s;
/* returns 0 when the stream may not be used */
static int check_stream(FILE *fp, const char *op) {
    if (fp == recent_fp && recent_s && !recent_s->closed) return 1;
    stream_t *s = stream_of(fp);
    if (!s) { violation("%s on something that is not a stream", op); return 0; }
    if (s->closed) { violation("%s on a closed stream (%s)", op, st_where(s)); return 0; }
    recent_fp = fp; recent_s = s;
    (void)n_recent;
    return 1;
}

static int startup_path(const char *ap) {
    return !strncmp(ap, "/minim/", 7) || (S->start_extra[0] && !strcmp(ap, S->start_extra));
}

FILE *__wrap_fopen(const char *path, const char *mode) {
    char ap[MAX_PATH], kb[32];
    abspath(path, ap);
    if (!S->phase && !startup_path(ap)) { serve(ap); abspath(path, ap); }
    event(EV_OPEN, mode[0]);
    vtrace("open %s %s", ap, mode);
    strcpy(kb, mode[0] == 'r' ? "open:r" : "open:w");
    fault_t *f = fault_check(kb, ap);
    if (f) { if (f->crash) finish(END_CRASH, 0); if (f->errn) { errno = f->errn; return NULL; } }
    int d = is_dir(ap);
    int i = find_file(ap);
    if (path[0] == 0) { errno = ENOENT; return NULL; }
    if (mode[0] == 'r') {
        if (d) { if (strchr(mode, '+')) { errno = EISDIR; return NULL; } return stream_open(ST_FILE, -1, mode, 1); }
        if (i < 0) { errno = ENOENT; return NULL; }
    } else {
        if (d) { errno = EISDIR; return NULL; }
        if (i < 0) {
            char pd[MAX_PATH]; parent_dir(ap, pd);
            if (!is_dir(pd)) { errno = find_file(pd) >= 0 ? ENOTDIR : ENOENT; return NULL; }
            i = new_file(ap);
            if (i < 0) { errno = ENOSPC; return NULL; }
            SH->files[i].touched = 1;
        } else {
            if (SH->files[i].readonly || SH->files[i].rom) { errno = EACCES; return NULL; }
            if (mode[0] == 'w') { SH->files[i].len = 0; SH->files[i].touched = 1; }
        }
    }
    FILE *fp = stream_open(ST_FILE, i, mode, 0);
    if (fp && mode[0] == 'a') { stream_t *s = stream_of(fp); s->pos = SH->files[i].len; }
    return fp;
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }

FILE *__wrap_tmpfile(void) {
    event(EV_TMP, 0);
    fault_t *f = fault_check("open:tmp", "tmpfile");
    if (f) { if (f->crash) finish(END_CRASH, 0); if (f->errn) { errno = f->errn; return NULL; } }
    vtrace("tmpfile");
    return stream_open(ST_TMP, -1, "w+", 0);
}
FILE *__wrap_tmpfile64(void) { return __wrap_tmpfile(); }

extern int __real_fflush(FILE *);
int __wrap_fflush(FILE *fp) {
    event(EV_FLUSH, fp != NULL);
    if (!fp) {
        int rc = 0;
        for (int i = 0; i < S->nstreams; i++) if (!S->streams[i].closed && S->streams[i].can_write && S->streams[i].kind != ST_STDIN && __real_fflush(S->streams[i].fp)) rc = EOF;
        return rc;
    }
    if (!check_stream(fp, "fflush")) { errno = EBADF; return EOF; }
    return __real_fflush(fp);
}
int __wrap_fclose(FILE *fp) {
    event(EV_CLOSE, 0);
    stream_t *s = stream_of(fp);
    if (!s) { violation("fclose of something that is not a stream"); errno = EBADF; return EOF; }
    if (s->closed) { violation("fclose of a closed stream (%s)", st_where(s)); errno = EBADF; return EOF; }
    vtrace("close %s", st_where(s));
    int rc = s->can_write && s->kind != ST_STDIN ? __real_fflush(fp) : 0;
    char kb[32]; kstr(kb, "close", s->kind);
    fault_t *f = fault_check(kb, st_where(s));
    if (f) { if (f->crash) finish(END_CRASH, 0); if (f->errn) { errno = f->errn; rc = EOF; } }
    s->closed = 1;
    if (s->kind >= ST_FILE) SH->open_streams--;
    recent_fp = NULL;
    return rc;      /* the FILE itself stays allocated so later uses are recognised */
}
FILE *__wrap_freopen(const char *p, const char *m, FILE *fp) { __wrap_fclose(fp); return p ? __wrap_fopen(p, m) : NULL; }

#define WRAPI(NAME, EV, PARAMS, ARGS, FP, BAD) \
    extern int __real_##NAME PARAMS; \
    int __wrap_##NAME PARAMS { event(EV, 0); if (!check_stream(FP, #NAME)) { errno = EBADF; return BAD; } return __real_##NAME ARGS; }
WRAPI(getc, EV_GETC, (FILE *fp), (fp), fp, EOF)
WRAPI(fgetc, EV_GETC, (FILE *fp), (fp), fp, EOF)
WRAPI(ungetc, EV_GETC, (int c, FILE *fp), (c, fp), fp, EOF)
WRAPI(putc, EV_PUTC, (int c, FILE *fp), (c, fp), fp, EOF)
WRAPI(fputc, EV_PUTC, (int c, FILE *fp), (c, fp), fp, EOF)
WRAPI(fputs, EV_PUTC, (const char *t, FILE *fp), (t, fp), fp, EOF)
WRAPI(fseek, EV_OTHER, (FILE *fp, long o, int w), (fp, o, w), fp, -1)
WRAPI(fseeko, EV_OTHER, (FILE *fp, off_t o, int w), (fp, o, w), fp, -1)
WRAPI(ferror, EV_OTHER, (FILE *fp), (fp), fp, 1)
WRAPI(feof, EV_OTHER, (FILE *fp), (fp), fp, 1)
WRAPI(setvbuf, EV_OTHER, (FILE *fp, char *b, int m, size_t n), (fp, b, m, n), fp, -1)
extern int __real_getc(FILE *); 
int __wrap__IO_getc(FILE *fp) { return __wrap_getc(fp); }
int __wrap__IO_putc(int c, FILE *fp) { return __wrap_putc(c, fp); }
int __wrap_getc_unlocked(FILE *fp) { return __wrap_getc(fp); }
int __wrap_fgetc_unlocked(FILE *fp) { return __wrap_getc(fp); }
int __wrap_putc_unlocked(int c, FILE *fp) { return __wrap_putc(c, fp); }
int __wrap_fputc_unlocked(int c, FILE *fp) { return __wrap_putc(c, fp); }
int __wrap_getchar(void) { return __wrap_getc(stdin); }
int __wrap_putchar(int c) { return __wrap_putc(c, stdout); }
extern long __real_ftell(FILE *);
long __wrap_ftell(FILE *fp) { event(EV_OTHER, 0); if (!check_stream(fp, "ftell")) { errno = EBADF; return -1; } return __real_ftell(fp); }
extern off_t __real_ftello(FILE *);
off_t __wrap_ftello(FILE *fp) { event(EV_OTHER, 0); if (!check_stream(fp, "ftello")) { errno = EBADF; return -1; } return __real_ftello(fp); }
extern void __real_rewind(FILE *);
void __wrap_rewind(FILE *fp) { event(EV_OTHER, 0); if (check_stream(fp, "rewind")) __real_rewind(fp); }
extern void __real_clearerr(FILE *);
void __wrap_clearerr(FILE *fp) { event(EV_OTHER, 0); if (check_stream(fp, "clearerr")) __real_clearerr(fp); }
extern size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __wrap_fread(void *p, size_t a, size_t b, FILE *fp) { event(EV_GETC, 0); if (!check_stream(fp, "fread")) { errno = EBADF; return 0; } return __real_fread(p, a, b, fp); }
extern size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *fp) { event(EV_PUTC, 0); if (!check_stream(fp, "fwrite")) { errno = EBADF; return 0; } return __real_fwrite(p, a, b, fp); }
extern char *__real_fgets(char *, int, FILE *);
char *__wrap_fgets(char *p, int n, FILE *fp) { event(EV_GETC, 0); if (!check_stream(fp, "fgets")) { errno = EBADF; return NULL; } return __real_fgets(p, n, fp); }
extern ssize_t __real_getline(char **, size_t *, FILE *);
ssize_t __wrap_getline(char **l, size_t *n, FILE *fp) { event(EV_GETC, 0); if (!check_stream(fp, "getline")) { errno = EBADF; return -1; } return __real_getline(l, n, fp); }
extern int __real_vfprintf(FILE *, const char *, va_list);
int __wrap_vfprintf(FILE *fp, const char *f, va_list ap) { event(EV_PUTC, 0); if (!check_stream(fp, "fprintf")) { errno = EBADF; return -1; } return __real_vfprintf(fp, f, ap); }
int __wrap_fprintf(FILE *fp, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vfprintf(fp, f, ap); va_end(ap); return r; }
int __wrap_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vfprintf(stdout, f, ap); va_end(ap); return r; }
int __wrap_vprintf(const char *f, va_list ap) { return __wrap_vfprintf(stdout, f, ap); }
int __wrap_puts(const char *t) { event(EV_PUTC, 0); if (!check_stream(stdout, "puts")) return EOF; if (__real_fputs(t, stdout) == EOF) return EOF; return __real_putc('\n', stdout); }
void __wrap_perror(const char *t) { __wrap_fprintf(stderr, "%s: %s\n", t ? t : "", strerror(errno)); }

char *__wrap_getcwd(char *buf, size_t n) {
    event(EV_GETCWD, 0);
    fault_t *f = fault_check("getcwd", NULL);
    if (f) { if (f->crash) finish(END_CRASH, 0); if (f->errn) { errno = f->errn; return NULL; } }
    size_t l = strlen(SH->cwd) + 1;
    if (!buf) { buf = malloc(l > n ? l : n); n = l > n ? l : n; }
    if (l > n) { errno = ERANGE; return NULL; }
    memcpy(buf, SH->cwd, l);
    return buf;
}
char *__wrap_get_current_dir_name(void) { return __wrap_getcwd(NULL, 0); }
int __wrap_chdir(const char *p) {
    char ap[MAX_PATH];
    event(EV_CHDIR, 0);
    abspath(p, ap);
    vtrace("chdir %s", ap);
    fault_t *f = fault_check("chdir", ap);
    if (f) { if (f->crash) finish(END_CRASH, 0); if (f->errn) { errno = f->errn; return -1; } }
    if (p[0] == 0 || !is_dir(ap)) { errno = find_file(ap) >= 0 ? ENOTDIR : ENOENT; return -1; }
    strcpy(SH->cwd, ap);
    return 0;
}
char *__wrap_realpath(const char *p, char *out) {
    char ap[MAX_PATH];
    abspath(p, ap);
    if (!S->phase && !startup_path(ap)) { serve(ap); abspath(p, ap); }
    event(EV_REALPATH, 0);
    fault_t *f = fault_check("realpath", ap);
    if (f) { if (f->crash) finish(END_CRASH, 0); if (f->errn) { errno = f->errn; return NULL; } }
    if (!is_dir(ap) && find_file(ap) < 0) { errno = ENOENT; return NULL; }
    if (!out) out = malloc(MAX_PATH);
    strcpy(out, ap);
    return out;
}
int __wrap_access(const char *p, int m) { char ap[MAX_PATH]; abspath(p, ap); if (!S->phase && !startup_path(ap)) { serve(ap); abspath(p, ap); } event(EV_OTHER, 0); (void)m; if (is_dir(ap) || find_file(ap) >= 0) return 0; errno = ENOENT; return -1; }
int __wrap_remove(const char *p) { char ap[MAX_PATH]; abspath(p, ap); event(EV_OTHER, 0); int i = find_file(ap); if (i < 0) { errno = ENOENT; return -1; } SH->files[i].exists = 0; SH->files[i].touched = 1; return 0; }
int __wrap_unlink(const char *p) { return __wrap_remove(p); }
int __wrap_rename(const char *a, const char *b) {
    char x[MAX_PATH], y[MAX_PATH]; abspath(a, x); abspath(b, y); event(EV_OTHER, 0);
    int i = find_file(x), j; if (i < 0) { errno = ENOENT; return -1; }
    if ((j = find_file(y)) >= 0) SH->files[j].exists = 0, SH->files[j].path[0] = 0;
    snprintf(SH->files[i].path, MAX_PATH, "%s", y); SH->files[i].touched = 1; return 0;
}
int __wrap_fileno(FILE *fp) { (void)fp; event(EV_OTHER, 0); return 0; }
int __wrap_fsync(int fd) { (void)fd; event(EV_OTHER, 0); return 0; }
int __wrap_isatty(int fd) { (void)fd; return 0; }
char *__wrap_getenv(const char *n) { (void)n; return NULL; }
long __wrap_time(long *t) { if (t) *t = 1000000000; return 1000000000; }
static u64 rand_state = 1;
int __wrap_rand(void) { return splitmix(&rand_state) & 0x7fffffff; }
long __wrap_random(void) { return splitmix(&rand_state) & 0x7fffffff; }

void __wrap_exit(int code) {
    if (!S->phase) serve("exit");
    event(EV_EXIT, code & 0xff);
    vtrace("exit %d", code & 0xff);
    SH->open_at_end = SH->open_streams;
    /* exit(3): every stream still open is flushed */
    for (int i = 0; i < S->nstreams; i++) if (!S->streams[i].closed && S->streams[i].can_write && S->streams[i].kind != ST_STDIN) __real_fflush(S->streams[i].fp);
    finish(END_EXIT, code & 0xff);
}
void __wrap__exit(int code) __attribute__((noreturn));
void __wrap__exit(int code) { if (!S->phase) serve("exit"); event(EV_EXIT, code & 0xff); finish(END_EXIT, code & 0xff); }
void __wrap_abort(void) { if (!S->phase) serve("exit"); SH->sig = SIGABRT; finish(END_SIGNAL, SIGABRT); }

static void finish(int end, int code) {
    SH->end = end; SH->code = code;
    mix(&SH->hash, end * 1000 + code);
    _exit(0);
}

/* ------------------------------------------------------------------ */
/* signals                                                               */

static void on_segv(int sig, siginfo_t *si, void *uc) {
    u64 a = (u64)si->si_addr;
    if (sig == SIGSEGV && S->first_new_chunk && a >= ARENA_BASE && a < ARENA_BASE + ((u64)S->first_new_chunk << CHUNK_SHIFT)) {
        u64 pg = (a - ARENA_BASE) >> 12;
        if (!DIRTY[pg]) {
            DIRTY[pg] = 1; S->ndirty++;
            mprotect((void *)(a & ~0xfffull), 4096, PROT_READ | PROT_WRITE);
            return;
        }
    }
    SH->sig = sig; SH->fault_addr = a;
    SH->fault_pc = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
    u64 sp = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RSP];
    snprintf(SH->note, sizeof SH->note, "signal %d at pc %#lx addr %#lx%s", sig, (unsigned long)SH->fault_pc,
             (unsigned long)a, sp < STACK_BASE + 65536 ? " (C stack exhausted)" : "");
    SH->end = END_SIGNAL; SH->code = sig;
    _exit(0);
}
static void on_timer(int sig) { (void)sig; SH->end = END_TIMEOUT; _exit(0); }
static void on_asan(void) { if (SH->end == END_NONE) SH->end = END_ASAN; }

static void install_signals(void) {
    static char *alt;
    if (!alt) alt = mmap(NULL, 1 << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stack_t ss = { .ss_sp = alt, .ss_size = 1 << 17 };
    sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP };
    for (int i = 0; i < 6; i++) sigaction(sigs[i], &sa, NULL);
    memset(&sa, 0, sizeof sa); sa.sa_handler = on_timer; sa.sa_flags = SA_ONSTACK;
    sigaction(SIGPROF, &sa, NULL);
}

/* ------------------------------------------------------------------ */
/* fork server                                                           */

static void xread(int fd, void *p, size_t n) { while (n) { ssize_t k = read(fd, p, n); if (k <= 0) _exit(k < 0 ? 119 : 0); p = (char *)p + k; n -= k; } }
static void xwrite(int fd, const void *p, size_t n) { while (n) { ssize_t k = write(fd, p, n); if (k <= 0) _exit(118); p = (char *)p + k; n -= k; } }

static char *rb; static size_t rbn, rbcap;
static void rput(const void *p, size_t n) { if (rbn + n > rbcap) { rbcap = (rbn + n) * 2 + 4096; rb = realloc(rb, rbcap); } __builtin_memcpy(rb + rbn, p, n); rbn += n; }
static void rfield(const char *key, const void *p, size_t n) { char h[MAX_PATH + 64]; int m = snprintf(h, sizeof h, "%s %lu\n", key, (unsigned long)n); rput(h, m); rput(p, n); rput("\n", 1); }
static void rint(const char *key, u64 v) { char b[32]; int n = sprintf(b, "%lu", (unsigned long)v); rfield(key, b, n); }

static void parse_request(char *buf, size_t n) {
    char *p = buf, *e = buf + n;
    while (p < e) {
        char *nl = memchr(p, '\n', e - p);
        if (!nl) break;
        *nl = 0;
        char *next = nl + 1;
        char key[32]; int used = 0;
        if (sscanf(p, "%31s %n", key, &used) < 1) { p = next; continue; }
        char *a = p + used;
        if (!strcmp(key, "file") || !strcmp(key, "rofile") || !strcmp(key, "badfile")) {
            char path[MAX_PATH]; unsigned long len;
            char *sp = strrchr(a, ' ');
            if (!sp) { p = next; continue; }
            *sp = 0; len = strtoul(sp + 1, 0, 10);
            snprintf(path, sizeof path, "%s", a);
            char pd[MAX_PATH]; parent_dir(path, pd); add_dir(pd);
            int i = find_file(path); if (i < 0) i = new_file(path);
            vfile *f = &SH->files[i];
            f->rom = 0; f->cap = 0; f->off = 0; f->len = 0;
            sh_grow(&f->off, &f->cap, 0, len ? len : 1);
            memcpy(sh_ptr(f->off), next, len); f->len = len;
            f->readonly = key[0] == 'r'; f->unreadable = key[0] == 'b';
            next += len + 1;
        } else if (!strcmp(key, "dir")) add_dir(a);
        else if (!strcmp(key, "stdin")) { unsigned long len; sscanf(a, "%lu", &len); S->in_data = next; S->in_len = len; S->in_pos = 0; next += len + 1; }
        else if (!strcmp(key, "seed")) { u64 s = strtoull(a, 0, 10); S->rng_layout = s * 3 + 1; S->rng_io = s * 5 + 2; S->rng_gc = s * 7 + 3; }
        else if (!strcmp(key, "gc")) {
            char m[16]; unsigned long x = 0, f = 0, t = ~0ul; sscanf(a, "%15s %lu %lu %lu", m, &x, &f, &t);
            S->gc_mode = !strcmp(m, "every") ? GC_EVERY : !strcmp(m, "prob") ? GC_PROB : !strcmp(m, "bytes") ? GC_BYTES : GC_NONE;
            S->gc_a = x; S->gc_from = f; S->gc_to = t;
        } else if (!strcmp(key, "gcat")) { if (S->ngc_at < 256) S->gc_at[S->ngc_at++] = strtoull(a, 0, 10); }
        else if (!strcmp(key, "place")) S->placement = !strcmp(a, "random") ? PL_RANDOM : PL_BUMP;
        else if (!strcmp(key, "reuse")) S->reuse = !strcmp(a, "lifo") ? RU_LIFO : !strcmp(a, "random") ? RU_RANDOM : RU_NEVER;
        else if (!strcmp(key, "junk")) S->junk = atoi(a);
        else if (!strcmp(key, "stack")) minim_sim_stack_size = strtoull(a, 0, 10);
        else if (!strcmp(key, "limit")) S->limit_events = strtoull(a, 0, 10);
        else if (!strcmp(key, "crash_event")) S->crash_event = strtoull(a, 0, 10);
        else if (!strcmp(key, "cpu")) S->cpu = atoi(a);
        else if (!strcmp(key, "cap")) S->disk_cap = strtoull(a, 0, 10);
        else if (!strcmp(key, "fdlimit")) S->fdlimit = atoi(a);
        else if (!strcmp(key, "chunk")) { S->chunk_mode = 1; S->chunk_max = strtoull(a, 0, 10); }
        else if (!strcmp(key, "fbuf")) S->fbuf = strtoull(a, 0, 10);
        else if (!strcmp(key, "cwd")) { add_dir(a); snprintf(SH->cwd, MAX_PATH, "%s", a); }
        else if (!strcmp(key, "trace")) S->trace = 1;
        else if (!strcmp(key, "obuf")) {
            char m[8]; unsigned long sz = 0; sscanf(a, "%7s %lu", m, &sz);
            __real_fflush(stdout);
            __real_setvbuf(stdout, NULL, m[0] == 'n' ? _IONBF : m[0] == 'l' ? _IOLBF : _IOFBF, sz ? sz : 4096);
        } else if (!strcmp(key, "fault")) {
            if (S->nfaults < MAX_FAULTS) {
                fault_t *f = &S->faults[S->nfaults++]; memset(f, 0, sizeof *f);
                unsigned long nth; int er, st, cr; long keep;
                char k[160];
                sscanf(a, "%159s %lu %d %ld %d %d", k, &nth, &er, &keep, &st, &cr);
                /* kind, kind@path (only there) or kind!path (anywhere else) */
                char *at = strpbrk(k, "@!");
                if (at) { f->not = *at == '!'; snprintf(f->path, sizeof f->path, "%s", at + 1); *at = 0; }
                snprintf(f->kind, sizeof f->kind, "%.23s", k);
                f->nth = nth; f->errn = er; f->keep = keep; f->sticky = st; f->crash = cr;
            }
        }
        p = next;
    }
}

static void respond(int status, int wrote_core) {
    (void)wrote_core;
    static const char *names[] = { "none", "exit", "crash", "signal", "limit", "timeout", "asan", "internal" };
    rbn = 0; rput("\0\0\0\0\0\0\0\0", 8);
    int end = SH->end;
    if (end == END_NONE || (WIFEXITED(status) && WEXITSTATUS(status) == 99)) end = END_ASAN;
    if (WIFSIGNALED(status)) { end = WTERMSIG(status) == SIGKILL || WTERMSIG(status) == SIGXCPU ? END_TIMEOUT : END_SIGNAL; SH->code = WTERMSIG(status); }
    rfield("end", names[end], strlen(names[end]));
    rint("code", SH->code);
    rfield("note", SH->note, strlen(SH->note));
    rfield("stdout", sh_ptr(SH->out_off), SH->out_len);
    rfield("stderr", sh_ptr(SH->err_off), SH->err_len);
    rfield("cwd", SH->cwd, strlen(SH->cwd));
    for (int i = 0; i < SH->nfiles; i++) {
        vfile *f = &SH->files[i];
        if (f->rom || !f->path[0] || startup_path(f->path)) continue;
        char k[MAX_PATH + 8]; snprintf(k, sizeof k, "%s %s", f->exists ? "disk" : "gone", f->path);
        rfield(k, file_data(f), f->len);
    }
    for (int i = 0; i < SH->nviol; i++) rfield("viol", SH->viol[i], strlen(SH->viol[i]));
    for (int i = 0; i < SH->nfired; i++) {
        fired_t *f = &SH->fired[i]; char b[256];
        int n = snprintf(b, sizeof b, "%s %lu %d %ld %d %s", f->kind, (unsigned long)f->at, f->errn, f->keep, f->crash, f->where);
        rfield("fired", b, n);
    }
    for (int i = 0; i < EV_KINDS; i++) if (SH->counts[i]) { char k[32]; sprintf(k, "n %s", ev_name[i]); rint(k, SH->counts[i]); }
    rint("events", SH->events);
    rint("hash", SH->hash);
    rint("iohash", SH->iohash);
    rint("alloc_bytes", SH->alloc_bytes);
    rint("live_bytes", SH->live_bytes);
    rint("live_objs", SH->live_objs);
    rint("max_live_bytes", SH->max_live_bytes);
    rint("open_streams", SH->open_streams); rint("open_at_end", SH->open_at_end); rint("gc_budget_out", SH->gc_out);
    rint("max_open", SH->max_open);
    rint("opened_total", SH->opened_total);
    rint("fin_run", SH->fin_run);
    rint("flush_failed", SH->flush_failed);
    rint("stdout_flush_failed", SH->stdout_flush_failed);
    if (SH->ngclog) rfield("gclog", SH->gclog, SH->ngclog * 24);
    if (SH->trace_len) rfield("trace", sh_ptr(SH->trace_off), SH->trace_len);
    /* sanitizer / runtime text the child wrote to its real stderr */
    off_t n = lseek(S->errcap_fd, 0, SEEK_END);
    if (n > 0) {
        if (n > 20000) n = 20000;
        char *t = malloc(n);
        ssize_t k = pread(S->errcap_fd, t, n, 0);
        if (k > 0) rfield("sanitizer", t, k);
        free(t);
    }
    if (ftruncate(S->errcap_fd, 0)) {}
    lseek(S->errcap_fd, 0, SEEK_SET);
    u64 len = rbn - 8;
    __builtin_memcpy(rb, &len, 8);
    xwrite(S->rsp_fd, rb, rbn);
}

static void reset_shared(const shared_t *snap, u64 heap_snap) {
    __builtin_memcpy(SH, snap, sizeof(shared_t));
    u64 from = (SHEAP_BASE + heap_snap + 4095) & ~4095ull;
    static u64 big;
    (void)big;
    madvise((void *)from, SHARED_BASE + SHARED_SIZE - from, MADV_REMOVE);
}

static void serve(const char *why) {
    (void)why;
    if (S->phase) return;
    S->phase = 0;
    /* snapshot: everything allocated so far is the permanent start-up heap */
    S->first_new_chunk = S->next_chunk;
    for (int i = 0; i < NCLASS; i++) S->cur[0][i] = S->cur[1][i] = -1;
    if (S->next_chunk) mprotect((void *)ARENA_BASE, (u64)S->next_chunk << CHUNK_SHIFT, PROT_READ);
    u64 live0 = S->live_bytes, objs0 = S->live_objs;
    S->gc_mode = GC_NONE; S->ngc_at = 0; S->allocs = 0; S->gc_work = 0; S->live_bytes = S->live_objs = 0;
    memset(SH->counts, 0, sizeof SH->counts);
    u64 starthash = SH->hash;
    SH->events = 0; SH->iohash = 0; SH->alloc_bytes = 0; SH->max_live_bytes = 0; SH->live_bytes = 0; SH->live_objs = 0;
    SH->ngclog = 0; SH->gc_out = 0; SH->max_open = SH->open_streams; SH->opened_total = 0; SH->stack_low = ~0ull; SH->fin_run = 0;
    shared_t *snap = malloc(sizeof(shared_t));
    __builtin_memcpy(snap, SH, sizeof(shared_t));
    u64 heap_snap = SH->heap_top;
    /* hello: start-up statistics */
    rbn = 0; rput("\0\0\0\0\0\0\0\0", 8);
    rint("hello", 1); rint("start_hash", starthash); rint("start_live_bytes", live0); rint("start_live_objs", objs0);
    rfield("why", why, strlen(why));
    u64 hl = rbn - 8; __builtin_memcpy(rb, &hl, 8); xwrite(S->rsp_fd, rb, rbn);
    for (;;) {
        u64 len;
        xread(S->req_fd, &len, 8);
        char *buf = malloc(len + 1);
        xread(S->req_fd, buf, len); buf[len] = 0;
        reset_shared(snap, heap_snap);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); _exit(117); }
        if (pid == 0) {
            dup2(S->errcap_fd, 2);
            close(S->req_fd); close(S->rsp_fd);
            install_signals();
            S->phase = 1;
            S->cpu = 20;
            parse_request(buf, len);
            SH->heap_top = SH->heap_top;
            struct itimerval it = { { 0, 0 }, { S->cpu, 0 } };
            setitimer(ITIMER_PROF, &it, NULL);
            struct rlimit rl = { S->cpu + 5, S->cpu + 5 }; setrlimit(RLIMIT_CPU, &rl);
            return;
        }
        free(buf);
        int status;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        respond(status, 0);
    }
}

/* ------------------------------------------------------------------ */
/* worker start                                                          */

static void load_rom(const char *real, const char *virt) {
    DIR *d = opendir(real);
    if (!d) return;
    add_dir(virt);
    struct dirent **ents; int n = scandir(real, &ents, NULL, alphasort);
    closedir(d);
    for (int i = 0; i < n; i++) {
        const char *nm = ents[i]->d_name;
        if (nm[0] == '.') continue;
        char rp[1024], vp[MAX_PATH];
        snprintf(rp, sizeof rp, "%s/%s", real, nm); snprintf(vp, sizeof vp, "%s/%s", virt, nm);
        struct stat st;
        if (stat(rp, &st)) continue;
        if (S_ISDIR(st.st_mode)) { load_rom(rp, vp); continue; }
        if (!S_ISREG(st.st_mode) || S->rom_top + st.st_size > ROM_SIZE) continue;
        int fd = open(rp, O_RDONLY); if (fd < 0) continue;
        int k = new_file(vp); vfile *f = &SH->files[k];
        f->rom = 1; f->off = S->rom_top; f->len = 0;
        ssize_t r; char *dst = (char *)ROM_BASE + S->rom_top;
        while ((r = read(fd, dst + f->len, 65536)) > 0) f->len += r;
        close(fd);
        S->rom_top += (f->len + 64) & ~63ull;
    }
}

static int g_argc; static char **g_argv;
static void *interp_thread(void *arg) {
    (void)arg;
    install_signals();
    int rc = minim_main(g_argc, g_argv);
    __wrap_exit(rc);
    return NULL;
}

/* usage: simworker REPO_SRC REQFD RSPFD ERRFD cfg-file -- minim args */
int main(int argc, char **argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
        personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
        if (!getenv("SIM_REEXEC")) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    if (argc < 6) return 2;
    map_at(STATE_BASE, (sizeof(state_t) + 65535) & ~65535ull, 0);
    map_at(ARENA_BASE, ARENA_SIZE, 0);
    map_at(META_BASE, META_SIZE, 0);
    map_at(CTAB_BASE, MAX_CHUNKS * sizeof(chunk_t), 0);
    map_at(SHARED_BASE, SHARED_SIZE, 1);
    map_at(STACK_BASE, STACK_SIZE, 0);
    map_at(MARK_BASE, MARK_SIZE, 0);
    map_at(DIRTY_BASE, ARENA_SIZE >> 12, 0);
    map_at(ROM_BASE, ROM_SIZE, 0);
    mprotect((void *)STACK_BASE, 16384, PROT_NONE);
    madvise((void *)ARENA_BASE, ARENA_SIZE, MADV_NOHUGEPAGE);
    madvise((void *)META_BASE, META_SIZE, MADV_NOHUGEPAGE);
    S->req_fd = atoi(argv[2]); S->rsp_fd = atoi(argv[3]);
    S->errcap_fd = memfd_create("err", 0);
    S->gc_to = ~0ull;
    S->junk = 0xA5;
    for (int i = 0; i < NCLASS; i++) S->cur[0][i] = S->cur[1][i] = -1;
    strcpy(SH->cwd, "/w");
    add_dir("/w");
    SH->stack_low = ~0ull;
    load_rom(argv[1], "/minim/src");
    /* configuration of the start-up phase */
    int cf = open(argv[4], O_RDONLY);
    if (cf >= 0) {
        char *buf = NULL; size_t n = 0, cap = 0; char t[4096]; size_t k;
        while ((k = read(cf, t, sizeof t)) > 0 && k != (size_t)-1) { if (n + k > cap) { cap = (n + k) * 2; buf = realloc(buf, cap + 1); } memcpy(buf + n, t, k); n += k; }
        if (buf) {
            buf[n] = 0;
            /* serve_at and start_extra are zygote-only keys */
            char *q = strstr(buf, "serve_at ");
            if (q && (q == buf || q[-1] == '\n')) S->serve_at = atoi(q + 9);
            q = strstr(buf, "start_extra ");
            if (q && (q == buf || q[-1] == '\n')) sscanf(q + 12, "%511s", S->start_extra);
            parse_request(buf, n);
        }
    }
    /* standard streams */
    stdin = stream_open(ST_STDIN, -1, "r", 0);
    stdout = stream_open(ST_STDOUT, -1, "w", 0);
    stderr = stream_open(ST_STDERR, -1, "w", 0);
    __real_setvbuf(stderr, NULL, _IONBF, 0);
    __asan_set_death_callback(on_asan);
    g_argc = argc - 5; g_argv = argv + 5;   /* argv[5] = "minim" */
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void *)(STACK_BASE + 16384), STACK_SIZE - 16384);
    pthread_t th;
    if (pthread_create(&th, &at, interp_thread, NULL)) { return 3; }
    pthread_join(th, NULL);
    return 0;
}
