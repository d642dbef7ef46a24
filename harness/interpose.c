/* Stand-ins for the operating-system services the library uses: NUMA allocation, CPU topology,
 * affinity, yielding. They make the environment a test input and let the monitors see every
 * allocation. */
#define _GNU_SOURCE
#include "mon.h"
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/syscall.h>

int vp_ncores = 8, vp_nodes = 1, vp_smt = 0, vp_real_affinity = 0, vp_machine = 0;
uint64_t vp_live_bytes, vp_alloc_calls, vp_free_calls, vp_bad_frees;
unsigned char vp_fill = 0;
__thread int vp_last_core = -1;

long sysconf(int name) {
    static long (*real)(int);
    if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return vp_ncores;
    if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
    return real(name);
}
int sched_setaffinity(pid_t pid, size_t len, const cpu_set_t *m) {
    int i;
    for (i = 0; i < (int)len * 8 && i < CPU_SETSIZE; i++)
        if (CPU_ISSET_S(i, len, m)) { vp_last_core = i; break; }
    if (vp_real_affinity) return syscall(SYS_sched_setaffinity, pid, len, m);
    return 0;
}
int sched_yield(void) {
    sched_yield_point();
    return syscall(SYS_sched_yield);
}
int numa_available(void) { return 0; }
int numa_num_task_nodes(void) { return vp_nodes; }
int numa_num_configured_nodes(void) { return vp_nodes; }
int numa_max_node(void) { return vp_nodes - 1; }
int numa_num_configured_cpus(void) { return vp_ncores; }
int numa_num_task_cpus(void) { return vp_ncores; }
int numa_node_of_cpu(int cpu) {
    if (cpu < 0 || cpu >= vp_ncores) { errno = EINVAL; return -1; }
    if (vp_smt && vp_ncores >= 2 * vp_nodes) return (cpu % (vp_ncores / 2)) / (vp_ncores / 2 / vp_nodes);
    if (vp_ncores < vp_nodes) return 0;
    { int n = cpu / (vp_ncores / vp_nodes); return n >= vp_nodes ? vp_nodes - 1 : n; }
}

#ifdef ARENA_MALLOC
/* one malloc per NUMA allocation, page aligned like mmap: AddressSanitizer sees exact bounds */
#include <malloc.h>
static struct { void *p; size_t n; } *tab; static int tab_n, tab_cap; static volatile int tab_lock;
static void tl(void) { while (__atomic_exchange_n(&tab_lock, 1, __ATOMIC_ACQUIRE)) syscall(SYS_sched_yield); }
static void tu(void) { __atomic_store_n(&tab_lock, 0, __ATOMIC_RELEASE); }
void *numa_alloc_local(size_t n) {
    void *p = memalign(4096, n ? n : 1);
    __atomic_add_fetch(&vp_alloc_calls, 1, __ATOMIC_SEQ_CST);
    __atomic_add_fetch(&vp_live_bytes, n, __ATOMIC_SEQ_CST);
    if (p) memset(p, vp_fill, n > (1u << 20) ? 65536 : n);
    tl();
    if (tab_n == tab_cap) tab = realloc(tab, sizeof *tab * (tab_cap = tab_cap ? tab_cap * 2 : 1024));
    tab[tab_n].p = p; tab[tab_n++].n = n;
    tu();
    return p;
}
void numa_free(void *p, size_t n) {
    int i, ok = 0;
    __atomic_add_fetch(&vp_free_calls, 1, __ATOMIC_SEQ_CST);
    tl();
    for (i = tab_n - 1; i >= 0; i--)
        if (tab[i].p == p) { ok = (tab[i].n + 4095) / 4096 == (n + 4095) / 4096; n = tab[i].n; tab[i] = tab[--tab_n]; break; }
    tu();
    if (i >= 0) { free(p); __atomic_sub_fetch(&vp_live_bytes, n, __ATOMIC_SEQ_CST); }
    if (!ok) __atomic_add_fetch(&vp_bad_frees, 1, __ATOMIC_SEQ_CST);
}
void arena_reset(void) {
    int i;
    for (i = 0; i < tab_n; i++) free(tab[i].p);
    tab_n = 0;
    vp_live_bytes = vp_alloc_calls = vp_free_calls = vp_bad_frees = 0;
}
uint64_t arena_touched(void) { return 0; }
uint64_t arena_used(void) { return 0; }
#else
#define ARENA_SIZE (1ULL << 38)
static char *arena;
static volatile uint64_t a_off;
static uint64_t a_max;
static void arena_init(void) {
    char *p = mmap(NULL, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap arena"); exit(2); }
    madvise(p, ARENA_SIZE, MADV_NOHUGEPAGE);
    if (!__sync_bool_compare_and_swap(&arena, NULL, p)) munmap(p, ARENA_SIZE);
}
void *numa_alloc_local(size_t n) {
    uint64_t sz = (n + 4095) & ~4095ULL, off;
    if (!arena) arena_init();
    off = __atomic_fetch_add(&a_off, sz, __ATOMIC_SEQ_CST);
    if (off + sz > ARENA_SIZE) { errno = ENOMEM; return NULL; }
    __atomic_add_fetch(&vp_alloc_calls, 1, __ATOMIC_SEQ_CST);
    __atomic_add_fetch(&vp_live_bytes, sz, __ATOMIC_SEQ_CST);
    return arena + off;
}
void numa_free(void *p, size_t n) {
    uint64_t sz = (n + 4095) & ~4095ULL;
    __atomic_add_fetch(&vp_free_calls, 1, __ATOMIC_SEQ_CST);
    if (((uintptr_t)p & 4095) || (char *)p < arena || (char *)p + n > arena + a_off) {
        __atomic_add_fetch(&vp_bad_frees, 1, __ATOMIC_SEQ_CST);
        return;
    }
    __atomic_sub_fetch(&vp_live_bytes, sz, __ATOMIC_SEQ_CST);
    (void)sz;
}
uint64_t arena_used(void) { return a_off; }
void arena_reset(void) {
    if (arena && a_off) madvise(arena, a_off, MADV_DONTNEED);
    a_off = 0;
    vp_live_bytes = vp_alloc_calls = vp_free_calls = vp_bad_frees = 0;
}
uint64_t arena_touched(void) {
    /* resident pages of the used part */
    uint64_t pages = a_off / 4096, i, r = 0, step = 1 << 18;
    unsigned char *v;
    if (!arena) return 0;
    v = malloc(step);
    for (i = 0; i < pages; i += step) {
        uint64_t n = pages - i < step ? pages - i : step, j;
        if (mincore(arena + i * 4096, n * 4096, v) == 0)
            for (j = 0; j < n; j++) r += v[j] & 1;
    }
    free(v);
    return r * 4096;
}
#endif
