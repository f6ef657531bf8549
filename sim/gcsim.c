/* Simulator for minim-gc: the real collector (gc.c, gc-impl.c) over a simulated
 * allocator.  A mutator program is read from standard input, one operation per
 * line; its stack slots, heap words, registers, destructors and markers are
 * this file's, so that what is reachable is known exactly.  Every allocator
 * answer (address, reuse, failure) follows from the program's settings.
 * Output: one line per event, read by lib/gcmodel.py. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sanitizer/asan_interface.h>

/* the collector's interface (src/gc/minim-gc/gc.h) */
void GC_init(void *); void GC_finalize(); void GC_pause(); void GC_resume();
void *GC_alloc(size_t); void *GC_calloc(size_t, size_t); void *GC_realloc(void *, size_t);
void *GC_alloc_atomic(size_t); void *GC_calloc_atomic(size_t, size_t); void *GC_realloc_atomic(void *, size_t);
typedef void (*dtor1)(void *); typedef void (*mrkf)(void (void *, void *), void *, void *);
void *GC_alloc_opt(size_t, dtor1, mrkf); void *GC_calloc_opt(size_t, size_t, dtor1, mrkf); void *GC_realloc_opt(void *, size_t, dtor1, mrkf);
void GC_free(void *); void GC_collect();
void GC_register_dtor(void *, void (*)(void *, void *)); void GC_register_mrk(void *, mrkf); void GC_register_root(void *);
size_t GC_get_allocated(); size_t GC_get_reachable(); size_t GC_get_collectable();
void GC_atomic_mrk(void (*)(void *, void *), void *, void *);

#define KEY 0x7e00000000000000ull
#define NSLOT 40
#define ARENA_BASE 0x200000000000ull
#define ARENA_SIZE (64ull << 30)
#define STRIDE 131344ull            /* 16 * 8209: every block in the same bucket of the smallest table */

/* ---- a PRNG ---- */
static uint64_t rs = 1;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }

static FILE *out;
#define LOG(...) fprintf(out, __VA_ARGS__)

/* ---- the simulated allocator ---- */
typedef struct { uint64_t addr; size_t size, room; int live; uint64_t user; long id; unsigned char *mirror; size_t usize; } chunk;
static chunk *ch; static long nch, cch;
static uint64_t bump = ARENA_BASE + 4096;
static int place, reuse, move;      /* place: 0 bump, 1 collide, 2 scattered; reuse: 0 never, 1 lifo, 2 random; move: realloc always moves */
static long n_alloc, n_fail, live_chunks;
static long fault_in = -1, fault_n;
static uint64_t hash = 1469598103934665603ull;
static void mix(uint64_t x) { hash = (hash ^ x) * 1099511628211ull; }

/* chunks by address: open hashing */
static int32_t *idx; static size_t nidx;
static void idx_put(long i) {
    if ((size_t) (nch + 1) * 2 > nidx) {
        nidx = nidx ? nidx * 2 : 1 << 14;
        free(idx);
        idx = malloc(nidx * sizeof *idx);
        memset(idx, -1, nidx * sizeof *idx);
        for (long k = 0; k < nch; k++)
            if (k != i) { size_t h = (ch[k].addr * 0x9e3779b97f4a7c15ull >> 20) % nidx; while (idx[h] >= 0) h = (h + 1) % nidx; idx[h] = k; }
    }
    size_t h = (ch[i].addr * 0x9e3779b97f4a7c15ull >> 20) % nidx;
    while (idx[h] >= 0) h = (h + 1) % nidx;
    idx[h] = i;
}
static long idx_get(uint64_t a) {
    if (!nidx) return -1;
    size_t h = (a * 0x9e3779b97f4a7c15ull >> 20) % nidx;
    while (idx[h] >= 0) { if (ch[idx[h]].addr == a) return idx[h]; h = (h + 1) % nidx; }
    return -1;
}

static long freelist[64]; static long *nextfree;
static int cls(size_t n) { int c = 0; while ((16ull << c) < n) c++; return c; }

static void die(const char *what, uint64_t a) {
    LOG("bad %s %llx\n", what, (unsigned long long) a);
    LOG("end\n"); fflush(out); _exit(3);
}

static long live_bytes, limit = -1;

static int should_fail(size_t n) {
    n_alloc++;
    if (limit >= 0 && live_bytes + (long) n > limit) { n_fail++; LOG("E\n"); mix(78); return 1; }
    if (fault_in >= 0) {
        if (fault_in > 0) { fault_in--; return 0; }
        if (fault_n > 0) { fault_n--; if (!fault_n) fault_in = -1; n_fail++; LOG("E\n"); mix(77); return 1; }
    }
    return 0;
}

static void *raw_alloc(size_t n) {
    if (n > (1ull << 32)) return NULL;
    int c = cls(n ? n : 1);
    size_t room = 16ull << c;
    long i = -1;
    if (reuse && freelist[c] && (reuse == 1 || rnd() % 4)) {
        i = freelist[c] - 1;
        freelist[c] = nextfree[i];
    }
    if (i < 0) {
        uint64_t a;
        if (place == 1 && room < STRIDE) { a = (bump + STRIDE - 1) / STRIDE * STRIDE; bump = a + STRIDE; a += 16; }
        else if (place == 2) { a = bump + (rnd() % 64) * 16; bump = a + room + 64; }
        else { a = bump; bump += room + 32; }
        if (bump > ARENA_BASE + ARENA_SIZE) die("arena-exhausted", a);
        if (nch == cch) {
            cch = cch ? cch * 2 : 4096;
            ch = realloc(ch, cch * sizeof *ch);
            nextfree = realloc(nextfree, cch * sizeof *nextfree);
        }
        i = nch;
        memset(&ch[i], 0, sizeof ch[i]);
        ch[i].addr = a; ch[i].room = room;
        idx_put(i);
        nch++;
    }
    ch[i].size = n; ch[i].live = 1; ch[i].user = 0; ch[i].mirror = NULL;
    live_chunks++; live_bytes += n;
    __asan_unpoison_memory_region((void *) ch[i].addr, n);
    mix(ch[i].addr); mix(n);
    return (void *) ch[i].addr;
}

static void check_content(chunk *c, const char *when) {
    if (!c->user || !c->mirror) return;
    if (memcmp((void *) c->user, c->mirror, c->usize)) {
        size_t k = 0;
        while (((unsigned char *) c->user)[k] == c->mirror[k]) k++;
        LOG("corrupt %llx %zu %s\n", (unsigned long long) c->user, k, when);
    }
}

static void release(chunk *c) {
    long i = c - ch;
    if (c->user) { LOG("X %llx\n", (unsigned long long) c->user); check_content(c, "free"); free(c->mirror); c->mirror = NULL; }
    mix(c->addr * 3);
    c->live = 0; c->user = 0;
    live_chunks--; live_bytes -= c->size;
    memset((void *) c->addr, 0xDD, c->size);
    __asan_poison_memory_region((void *) c->addr, c->room);
    int k = cls(c->room);
    nextfree[i] = freelist[k]; freelist[k] = i + 1;
}

void *gs_malloc(size_t n) { if (n < 1ull << 32 && should_fail(n)) return NULL; void *p = raw_alloc(n); if (p) memset(p, 0xA5, n); return p; }
void *gs_calloc(size_t a, size_t b) {
    if (b && a > SIZE_MAX / b) return NULL;
    if (a * b < 1ull << 32 && should_fail(a * b)) return NULL;
    void *p = raw_alloc(a * b); if (p) memset(p, 0, a * b); return p;
}
void gs_free(void *p) {
    if (!p) return;
    long i = idx_get((uint64_t) p);
    if (i < 0 || !ch[i].live) die("free", (uint64_t) p);
    release(&ch[i]);
}
static int in_realloc; static uint64_t realloc_user;
void *gs_realloc(void *p, size_t n) {
    if (!p) return gs_malloc(n);
    long i = idx_get((uint64_t) p);
    if (i < 0 || !ch[i].live) die("realloc", (uint64_t) p);
    if (n > (1ull << 32)) return NULL;
    if (should_fail(n > ch[i].size ? n - ch[i].size : 0)) return NULL;
    if (!move && n <= ch[i].room && rnd() % 2) {
        __asan_poison_memory_region((void *) ch[i].addr, ch[i].room);
        __asan_unpoison_memory_region((void *) ch[i].addr, n);
        if (n > ch[i].size) memset((char *) p + ch[i].size, 0xA5, n - ch[i].size);
        live_bytes += (long) n - (long) ch[i].size;
        ch[i].size = n;
        return p;
    }
    void *q = raw_alloc(n);
    size_t m = ch[i].size < n ? ch[i].size : n;
    memset(q, 0xA5, n);
    memcpy(q, p, m);
    long j = idx_get((uint64_t) q);
    if (in_realloc && ch[i].user == realloc_user) { ch[j].user = 0; ch[i].user = 0; ch[j].mirror = ch[i].mirror; ch[j].usize = ch[i].usize; ch[i].mirror = NULL; }
    release(&ch[i]);
    return q;
}

static chunk *chunk_of(uint64_t user) {
    /* a block lies inside a chunk: the header is small */
    for (uint64_t a = user; a + 128 > user; a -= 8) {
        long i = idx_get(a);
        if (i >= 0 && ch[i].live && user >= ch[i].addr && user <= ch[i].addr + ch[i].size) return &ch[i];
    }
    return NULL;
}
static chunk *block_of(uint64_t user) {
    if (!user) return NULL;
    chunk *c = chunk_of(user);
    return c && c->user == user ? c : NULL;
}

/* ---- the mutator ---- */
static uint64_t *slots;             /* on the scanned stack */
static long next_id = 1;
static long n_ops, n_coll;

static void fill(chunk *c, size_t from) {
    unsigned char *u = (unsigned char *) c->user;
    size_t n = c->usize;
    for (size_t k = from; k < n; k++) u[k] = c->mirror[k] = 0;
    for (size_t w = (from + 7) / 8; (w + 1) * 8 <= n; w++) {
        uint64_t v = 0x5a00000000000000ull | ((uint64_t) c->id << 20) | ((w << 4) & 0xfffff) | 5;
        memcpy(u + 8 * w, &v, 8);
        memcpy(c->mirror + 8 * w, &v, 8);
    }
    for (size_t k = n & ~7ull; k < n; k++) if (k >= from) u[k] = c->mirror[k] = (unsigned char) c->id;
}

static void d_log(void *p) {
    chunk *c = block_of((uint64_t) p);
    LOG("D %llx\n", (unsigned long long) p);
    if (!c) LOG("bad dtor-block %llx\n", (unsigned long long) p);
    else check_content(c, "dtor");
    mix((uint64_t) p + 1);
}
static void d_reg(void *p, void *data) { d_log(p); (void) data; }
static void m_first(void (*f)(void *, void *), void *gc, void *p) {     /* words 0 and 1 */
    chunk *c = block_of((uint64_t) p);
    if (!c) die("marker-block", (uint64_t) p);
    for (size_t k = 0; k < 2 && (k + 1) * 8 <= c->usize; k++) f(gc, (void *) ((uint64_t *) p)[k]);
}
static void m_enc(void (*f)(void *, void *), void *gc, void *p) {       /* encoded words */
    chunk *c = block_of((uint64_t) p);
    if (!c) die("marker-block", (uint64_t) p);
    for (size_t k = 0; (k + 1) * 8 <= c->usize && k < 64; k++) {
        uint64_t v = ((uint64_t *) p)[k];
        if ((v & 0xff00000000000000ull) == KEY) f(gc, (void *) (v ^ KEY));
    }
}
static dtor1 dk(int k) { return k == 4 || k == 6 || k == 7 ? d_log : NULL; }
static mrkf mk(int k) { return k == 1 ? (mrkf) GC_atomic_mrk : k == 5 || k == 7 ? (mrkf) m_first : k == 6 ? (mrkf) m_enc : NULL; }

static __attribute__((noinline)) void wipe(void) {
    volatile char b[48 * 1024];
    for (size_t k = 0; k < sizeof b; k++) b[k] = 0;
}
#define CLEAN_REGS() __asm__ volatile("xor %%ebx,%%ebx\n xor %%r12d,%%r12d\n xor %%r13d,%%r13d\n xor %%r14d,%%r14d\n xor %%r15d,%%r15d" ::: "rbx", "r12", "r13", "r14", "r15", "memory")

/* every call of the collector goes through these: nothing but the slots may hold a block's address */
static __attribute__((noinline)) uint64_t do_alloc(int how, size_t a, size_t b, int k) {
    void *p;
    CLEAN_REGS();
    if (how == 0)
        p = k == 0 ? GC_alloc(a) : k == 1 ? GC_alloc_atomic(a) : GC_alloc_opt(a, dk(k), mk(k));
    else
        p = k == 0 ? GC_calloc(a, b) : k == 1 ? GC_calloc_atomic(a, b) : GC_calloc_opt(a, b, dk(k), mk(k));
    return ~(uint64_t) p;
}
static __attribute__((noinline)) uint64_t do_realloc(int s, size_t n, int k) {
    void *p;
    CLEAN_REGS();
    p = k == 0 ? GC_realloc((void *) slots[s], n) : k == 1 ? GC_realloc_atomic((void *) slots[s], n) : GC_realloc_opt((void *) slots[s], n, dk(k), mk(k));
    return ~(uint64_t) p;
}
static __attribute__((noinline)) void do_collect(int depth) {
    volatile char pad[64 + depth * 48];
    pad[0] = 0;
    CLEAN_REGS();
    GC_collect();
    pad[0] = pad[1];
}
/* collects while the address is in one register only */
static __attribute__((noinline)) uint64_t hold(int reg, uint64_t enc) {
    uint64_t r;
    wipe();
    switch (reg) {
#define H(R) __asm__ volatile("not %0\n mov %0, %%" R "\n xor %0, %0\n xor %%eax, %%eax\n call GC_collect\n mov %%" R ", %1\n not %1\n xor %%" R ", %%" R \
        : "+c"(enc), "=a"(r) : : "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "rbx", "r12", "r13", "r14", "r15", "memory", "cc")
    case 0: H("rbx"); break;
    case 1: H("r12"); break;
    case 2: H("r13"); break;
    case 3: H("r14"); break;
    default: H("r15"); break;
    }
    return r;
}

static chunk *adopt(uint64_t p, size_t want, int zero) {
    chunk *c = chunk_of(p);
    if (!c) die("address", p);
    if (c->user) die("address-in-use", p);
    if (p & 7) die("alignment", p);
    if (p + want > c->addr + c->size) die("too-small", p);
    if (zero) for (size_t k = 0; k < want; k++) if (((unsigned char *) p)[k]) { LOG("bad not-zero %llx\n", (unsigned long long) p); break; }
    c->user = p; c->usize = want; c->id = next_id++;
    c->mirror = malloc(want ? want : 1);
    fill(c, 0);
    return c;
}

static void on_signal(int s) {
    static const char m[] = "crash\nend\n";
    fflush(out);
    if (write(fileno(out), m, sizeof m - 1) < 0) {}
    (void) s;
    _exit(4);
}

static void on_death(void) { LOG("asan\nend\n"); fflush(out); }

/* one operation; its frame is wiped afterwards */
static __attribute__((noinline)) int exec_op(char op, long a, long b, long c, long d) {
    switch (op) {
    case '#': break;
    case 'a': case 'z': {
        size_t want = op == 'a' ? (size_t) b : (size_t) b * (size_t) c;
        int k = op == 'a' ? c : d;
        uint64_t e = do_alloc(op == 'z', b, c, k);
        if (~e == 0) { LOG("A 0\n"); break; }
        LOG("A %llx\n", (unsigned long long) ~e);
        if (op == 'z' && c && (size_t) b > SIZE_MAX / (size_t) c) { LOG("bad overflow 0\n"); break; }
        adopt(~e, want, op == 'z');
        slots[a] = ~e;
        break; }
    case 'B': {         /* B slot n size kind: a chain */
        for (long k = 0; k < b; k++) {
            if (k % 64 == 0) wipe();
            uint64_t e = do_alloc(0, c, 0, d);
            if (~e == 0) { LOG("A 0\n"); continue; }
            LOG("A %llx\n", (unsigned long long) ~e);
            chunk *x = adopt(~e, c, 0);
            memcpy((void *) x->user, &slots[a], 8);
            memcpy(x->mirror, &slots[a], 8);
            slots[a] = ~e;
        }
        break; }
    case 'r': {
        chunk *x = block_of(slots[a]);
        size_t old = x ? x->usize : 0;
        unsigned char *mir = NULL;
        if (x) { mir = malloc(old ? old : 1); memcpy(mir, x->mirror, old); }
        in_realloc = 1; realloc_user = x ? x->user : 0;
        uint64_t e = do_realloc(a, b, c);
        in_realloc = 0;
        if (~e == 0) { LOG("M 0\n"); free(mir); if (b == 0) slots[a] = 0; break; }
        LOG("M %llx\n", (unsigned long long) ~e);
        if (!x) { adopt(~e, b, 0); slots[a] = ~e; break; }
        /* the old block's content moved to the new one */
        chunk *y = chunk_of(~e);
        if (!y) die("address", ~e);
        if (~e + b > y->addr + y->size) die("too-small", ~e);
        unsigned char *nm = malloc(b ? b : 1);
        size_t keep = old < (size_t) b ? old : (size_t) b;
        if (y->user && y->user != realloc_user) die("address-in-use", ~e);
        free(y->mirror);
        memcpy(nm, mir, keep);
        free(mir);
        y->user = ~e; y->mirror = nm; y->usize = b; y->id = next_id++;
        if (memcmp((void *) ~e, nm, keep)) LOG("corrupt %llx 0 realloc\n", (unsigned long long) ~e);
        fill(y, keep);
        slots[a] = ~e;
        break; }
    case 'f': CLEAN_REGS(); GC_free((void *) slots[a]); break;
    case 'g': CLEAN_REGS(); GC_free((void *) (slots[a] + 8)); break;
    case 'w': case 'x': case 'o': case 'n': {
        chunk *x = block_of(slots[a]);
        if (!x || (size_t) (b + 1) * 8 > x->usize) break;
        uint64_t v = op == 'n' ? 0 : op == 'x' ? (slots[c] ^ KEY) : op == 'o' ? slots[c] + d : slots[c];
        ((uint64_t *) x->user)[b] = v;
        memcpy(x->mirror + 8 * b, &v, 8);
        break; }
    case 'm': {
        chunk *x = block_of(slots[b]);
        if (!x || (size_t) (c + 1) * 8 > x->usize) break;
        uint64_t v = ((uint64_t *) x->user)[c];
        if ((v & 0xff00000000000000ull) == KEY) v ^= KEY;
        slots[a] = block_of(v) ? v : 0;
        break; }
    case 'y': slots[a] = slots[b]; break;
    case 'k': slots[a] = 0; break;
    case 'c': n_coll++; do_collect(a); break;
    case 'C': for (int k = 0; k < 3; k++) { n_coll++; wipe(); do_collect(k * 7); } LOG("S\n"); break;
    case 'h': {
        uint64_t e = ~slots[b];
        slots[b] = 0;
        n_coll++;
        wipe();
        slots[c] = ~hold(a, e);
        break; }
    case 'R': GC_register_root((void *) slots[a]); break;
    case 'D': GC_register_dtor((void *) slots[a], b ? d_reg : NULL); break;
    case 'K': GC_register_mrk((void *) slots[a], mk(b)); break;
    case 'P': GC_pause(); break;
    case 'U': GC_resume(); break;
    case 'q': {
        size_t x = GC_get_allocated(); wipe(); size_t y = GC_get_reachable(); wipe(); size_t z = GC_get_collectable();
        LOG("Q %zu %zu %zu\n", x, y, z);
        break; }
    case 'V': for (long k = 0; k < nch; k++) if (ch[k].live) check_content(&ch[k], "verify"); break;
    case 'F': fault_in = a; fault_n = b; break;
    case 'Y': limit = a < 0 ? -1 : live_bytes + a; break;
    case 'p': place = a; reuse = b; move = c; rs = (uint64_t) d * 2 + 1; rnd(); break;
    case 'Z':
        fault_in = -1; limit = -1;
        GC_finalize();
        LOG("L %ld\n", live_chunks);
        return 1;
    }
    return 0;
}

static int run(void) {
    volatile uint64_t area[NSLOT + 2];
    char line[256];
    long a, b, c, d;
    for (int k = 0; k < NSLOT + 2; k++) area[k] = 0;
    slots = (uint64_t *) area;
    GC_init((void *) &area[NSLOT + 1]);
    while (fgets(line, sizeof line, stdin)) {
        a = b = c = d = 0;
        sscanf(line + 1, "%ld %ld %ld %ld", &a, &b, &c, &d);
        LOG("> %s", line);
        n_ops++;
        wipe();
        if (exec_op(line[0], a, b, c, d)) break;
        for (int k = 0; k < NSLOT; k++) mix(slots[k]);
    }
    LOG("N %ld %ld %ld %ld %llx\nend\n", n_ops, n_alloc, n_fail, n_coll, (unsigned long long) hash);
    fflush(out);
    return 0;
}

const char *__asan_default_options(void) {
    return "detect_leaks=0:detect_stack_use_after_return=0:handle_segv=0:handle_sigbus=0:handle_abort=0:exitcode=99:print_legend=0:use_sigaltstack=0";
}

int main(void) {
    struct rlimit rl = {20, 25};
    static char alt[65536];
    stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
    struct sigaction sa = {.sa_handler = on_signal, .sa_flags = SA_ONSTACK};
    out = fdopen(dup(1), "w");
    static char obuf[1 << 20];
    setvbuf(out, obuf, _IOFBF, sizeof obuf);
    setrlimit(RLIMIT_CPU, &rl);
    __asan_set_death_callback(on_death);
    sigaltstack(&ss, NULL);
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGXCPU, &sa, NULL);
    void *p = mmap((void *) ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *) ARENA_BASE) { perror("arena"); return 2; }
    return run();
}
