/* Shared by the drivers: JSON output, live allocation accounting, forked cases. */
#ifndef H_COMMON
#define H_COMMON
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <fcntl.h>
#include <locale.h>
#include <pthread.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <open62541/types.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define H_ASAN 1
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif
#endif

/* ---- live allocations made while the code under test runs ---- */
static __thread int h_track = 0;
#define H_SLOTS (1u << 20)
static void **h_tab;                 /* open addressing, (void*)1 = removed */
static long h_live = 0, h_allocs = 0;
static int h_on = 0;
/* H_LOCALE: the library (not the driver's output) runs with this locale */
static locale_t h_locale;
static inline void h_set_locale(void) {
    const char *n = getenv("H_LOCALE");
    if(!n) return;
    h_locale = newlocale(LC_ALL_MASK, n, (locale_t)0);
    char b[16] = ""; locale_t old = h_locale ? uselocale(h_locale) : (locale_t)0; snprintf(b, sizeof b, "%.1f", 1.5); if(h_locale) uselocale(old);
    if(strcmp(b, "1,5")) { fprintf(stderr, "locale %s: %s\n", n, b); _exit(8); }
}
#define H_LIB(x) do { if(h_locale) uselocale(h_locale); h_track++; x; h_track--; if(h_locale) uselocale(LC_GLOBAL_LOCALE); } while(0)
static inline uint32_t h_hash(const volatile void *p) { uint64_t x = (uint64_t)(uintptr_t)p; x ^= x >> 21; x *= 0x9E3779B97F4A7C15ull; return (uint32_t)(x >> 40) & (H_SLOTS - 1); }
#ifdef H_ASAN
static __attribute__((no_sanitize("address", "undefined"))) void h_malloc(const volatile void *p, size_t n) {
    if(!h_on || h_track <= 0 || !p) return;
    h_allocs++;
    uint32_t i = h_hash(p);
    for(uint32_t k = 0; k < 4096; k++, i = (i + 1) & (H_SLOTS - 1)) if(h_tab[i] == 0 || h_tab[i] == (void *)1) { h_tab[i] = (void *)p; h_live++; return; }
}
static __attribute__((no_sanitize("address", "undefined"))) void h_free(const volatile void *p) {
    if(!h_on || !p) return;
    uint32_t i = h_hash(p);
    for(uint32_t k = 0; k < 4096; k++, i = (i + 1) & (H_SLOTS - 1)) { if(h_tab[i] == p) { h_tab[i] = (void *)1; h_live--; return; } if(h_tab[i] == 0) return; }
}
#endif
static void h_reset_live(void) { if(h_tab) memset(h_tab, 0, H_SLOTS * sizeof(void *)); h_live = 0; }
static void h_init(int leak) {
#ifdef H_ASAN
    if(leak) { h_tab = calloc(H_SLOTS, sizeof(void *)); __sanitizer_install_malloc_and_free_hooks(h_malloc, h_free); h_on = 1; }
#endif
}
/* writes up to three allocation stacks of live blocks */
static void h_report_live(FILE *o) {
#ifdef H_ASAN
    int shown = 0;
    for(uint32_t i = 0; i < H_SLOTS && shown < 3; i++) {
        if((uintptr_t)h_tab[i] <= 1) continue;
        void *tr[24]; int tid = 0; size_t n = __asan_get_alloc_stack(h_tab[i], tr, 24, &tid);
        fprintf(o, "live block of %zu bytes:", __sanitizer_get_allocated_size(h_tab[i]));
        for(size_t k = 0; k < n && k < 24; k++) { char b[256]; b[0] = 0; __sanitizer_symbolize_pc((char *)tr[k] - 1, "%f", b, sizeof b); if(b[0]) fprintf(o, " < %s", b); }
        fprintf(o, "\n"); shown++;
    }
#endif
}

/* ---- JSON ---- */
static void j_s(FILE *o, const char *s) {
    if(!s) { fputs("null", o); return; }
    fputc('"', o);
    for(; *s; s++) { unsigned char c = (unsigned char)*s;
        if(c == '"' || c == '\\') { fputc('\\', o); fputc(c, o); }
        else if(c < 32 || c == 127) fprintf(o, "\\u%04x", c);
        else fputc(c, o); }
    fputc('"', o);
}
static void j_sn(FILE *o, const void *d, size_t n) {
    const unsigned char *s = d; fputc('"', o);
    for(size_t i = 0; i < n; i++) { unsigned char c = s[i];
        if(c == '"' || c == '\\') { fputc('\\', o); fputc(c, o); }
        else if(c < 32 || c == 127) fprintf(o, "\\u%04x", c);
        else fputc(c, o); }
    fputc('"', o);
}
static void j_id(FILE *o, const UA_NodeId *id) {
    fprintf(o, "\"%u;", (unsigned)id->namespaceIndex);
    switch(id->identifierType) {
    case UA_NODEIDTYPE_NUMERIC: fprintf(o, "i=%u\"", (unsigned)id->identifier.numeric); return;
    case UA_NODEIDTYPE_GUID: { UA_Guid g = id->identifier.guid;
        fprintf(o, "g=%08x-%04x-%04x-%02x%02x-%02x%02x%02x%02x%02x%02x\"", (unsigned)g.data1, g.data2, g.data3, g.data4[0], g.data4[1], g.data4[2], g.data4[3], g.data4[4], g.data4[5], g.data4[6], g.data4[7]); return; }
    case UA_NODEIDTYPE_BYTESTRING: fprintf(o, "b=");
        for(size_t i = 0; i < id->identifier.byteString.length; i++) fprintf(o, "%02x", id->identifier.byteString.data[i]);
        fputc('"', o); return;
    case UA_NODEIDTYPE_STRING: { fprintf(o, "s="); const unsigned char *s = id->identifier.string.data;
        for(size_t i = 0; i < id->identifier.string.length; i++) { unsigned char c = s[i];
            if(c == '"' || c == '\\') { fputc('\\', o); fputc(c, o); } else if(c < 32 || c == 127) fprintf(o, "\\u%04x", c); else fputc(c, o); }
        fputc('"', o); return; }
    default: fprintf(o, "?%d\"", (int)id->identifierType);
    }
}
static UA_NodeId h_parse_id(const char *s) { /* "ns;t=..." or "ns=..;t=.." */
    UA_NodeId id = UA_NODEID_NULL; char b[1024];
    if(s[0] >= '0' && s[0] <= '9') { snprintf(b, sizeof b, "ns=%s", s); s = b; }
    UA_NodeId_parse(&id, UA_STRING((char *)s)); return id;
}

/* ---- splitting script lines ---- */
static int h_split(char *line, char **f, int max) {
    int n = 0; size_t l = strlen(line); if(l && line[l - 1] == '\n') line[l - 1] = 0;
    while(n < max) { f[n++] = line; char *t = strchr(line, '\t'); if(!t) break; *t = 0; line = t + 1; }
    return n;
}

/* ---- cases: "CASE <n>" lines.. "END" on stdin; each is run in a forked child.
 * argv: <errdir> <cpu seconds> <leak 0/1>
 * stdout of the child's library code and stderr go to errdir/<n>.out / .err; the trace goes to
 * the driver's stdout between "BEGIN n" and "STATUS n <kind> <value>" lines. */
static int h_open_fds(void) {
    int n = 0;
    for(int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) != -1;
    return n;
}
static void h_tick(int s) { (void)s; }
typedef void (*h_case_fn)(char **lines, size_t n, FILE *out);
static void h_run_cases(int argc, char **argv, h_case_fn fn, void (*prepare)(void)) {
    const char *errdir = argc > 1 ? argv[1] : "/tmp"; int cpu = argc > 2 ? atoi(argv[2]) : 20; int leak = argc > 3 ? atoi(argv[3]) : 0;
    if(getenv("H_NOFORK")) { /* one process, for valgrind */
        if(prepare) prepare();
    }
    h_init(leak); h_set_locale();
    if(prepare && !getenv("H_NOFORK")) prepare();
    char *line = 0; size_t cap = 0; char **lines = 0; size_t nl = 0, cl = 0; long no = -1;
    int endless = 0; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = h_tick; sigaction(SIGALRM, &sa, 0);
    while(getline(&line, &cap, stdin) > 0) {
        if(!strncmp(line, "CASE ", 5)) { no = atol(line + 5); nl = 0; continue; }
        if(strncmp(line, "END", 3)) {
            if(nl == cl) { cl = cl ? cl * 2 : 64; lines = realloc(lines, cl * sizeof *lines); }
            lines[nl++] = strdup(line); continue;
        }
        printf("BEGIN %ld\n", no); fflush(stdout);
        if(endless >= 3) {
            /* enough to tell */
            printf("\nSTATUS %ld skipped 0\n", no); fflush(stdout);
            for(size_t i = 0; i < nl; i++) free(lines[i]);
            nl = 0; continue;
        }
        if(getenv("H_NOFORK")) {
            fn(lines, nl, stdout); printf("\nSTATUS %ld exit 0 0\n", no); fflush(stdout);
            for(size_t i = 0; i < nl; i++) free(lines[i]);
            nl = 0; continue;
        }
        char eo[512], ee[512]; snprintf(eo, sizeof eo, "%s/%ld.out", errdir, no); snprintf(ee, sizeof ee, "%s/%ld.err", errdir, no);
        pid_t pid = fork();
        if(pid < 0) { perror("fork"); _exit(7); }
        if(pid == 0) {
            struct rlimit rl = {(rlim_t)cpu, (rlim_t)cpu + 5}; setrlimit(RLIMIT_CPU, &rl);
            struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
            int tfd = dup(1); FILE *t = fdopen(tfd, "w"); setvbuf(t, 0, _IOFBF, 1 << 16);
            int fo = open(eo, O_CREAT | O_TRUNC | O_WRONLY, 0600), fe = open(ee, O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fo, 1); dup2(fe, 2); close(fo); close(fe);
            char **cp = malloc((nl + 1) * sizeof *cp);
            for(size_t i = 0; i < nl; i++) cp[i] = strdup(lines[i]);
            fn(lines, nl, t); fflush(t); fflush(stdout);
            if(leak) {
                /* second repetition: what is still live afterwards was leaked by it */
                FILE *nul = fopen("/dev/null", "w"); int sv = dup(1); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); close(dn);
                h_reset_live(); long before = h_live; int fds = h_open_fds();
                fn(cp, nl, nul); fflush(stdout);
                long d = h_live - before;
                fds = h_open_fds() - fds;
                dup2(sv, 1); close(sv);
                fprintf(t, "\n{\"e\":\"live\",\"n\":%ld,\"allocs\":%ld,\"fds\":%d}\n", d, h_allocs, fds); fflush(t);
                if(d) h_report_live(stderr);
            }
            fflush(stderr);
            _exit(0);
        }
        int st;
        /* now and then a look at the memory of the child */
        struct itimerval tick = {{0, 200000}, {0, 200000}}, notick; memset(&notick, 0, sizeof notick);
        setitimer(ITIMER_REAL, &tick, 0);
        while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {
            char sp[64]; snprintf(sp, sizeof sp, "/proc/%d/statm", (int)pid);
            FILE *sf = fopen(sp, "r"); long vs = 0, rs = 0;
            if(sf) { if(fscanf(sf, "%ld %ld", &vs, &rs) != 2) rs = 0; fclose(sf); }
            if(rs > (3L << 30) / 4096) kill(pid, SIGXCPU);
        }
        setitimer(ITIMER_REAL, &notick, 0);
        if(WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) endless++;
        struct rusage ru; getrusage(RUSAGE_CHILDREN, &ru);
        struct stat sb;
        if(stat(eo, &sb) == 0 && sb.st_size == 0) unlink(eo);
        if(stat(ee, &sb) == 0 && sb.st_size == 0) unlink(ee);
        if(WIFEXITED(st)) printf("\nSTATUS %ld exit %d\n", no, WEXITSTATUS(st)); else printf("\nSTATUS %ld signal %d\n", no, WTERMSIG(st));
        fflush(stdout);
        for(size_t i = 0; i < nl; i++) free(lines[i]);
        nl = 0;
    }
}
/* threads mode: argv[1]=threads, argv[2]=repetitions; all cases are read, each repetition starts one
 * thread per case (started together); trace of every thread is printed after the join */
typedef struct { char **lines; size_t n; char *buf; size_t len; pthread_barrier_t *b; h_case_fn fn; } HJob;
static inline void *h_thr(void *a) { HJob *j = a; FILE *o = open_memstream(&j->buf, &j->len); pthread_barrier_wait(j->b); j->fn(j->lines, j->n, o); fclose(o); return 0; }
static inline int h_threads(h_case_fn fn, int reps, int seq) {
    char *line = 0; size_t cap = 0; HJob *js = 0; size_t nj = 0; char **all = 0; size_t na = 0; (void)na; (void)all;
    while(getline(&line, &cap, stdin) > 0) {
        if(!strncmp(line, "CASE ", 5)) { js = realloc(js, (nj + 1) * sizeof *js); memset(&js[nj], 0, sizeof *js); nj++; continue; }
        if(!strncmp(line, "END", 3)) continue;
        HJob *j = &js[nj - 1]; j->lines = realloc(j->lines, (j->n + 1) * sizeof(char *)); j->lines[j->n++] = strdup(line);
    }
    for(int r = 0; r < reps; r++) {
        pthread_barrier_t b; pthread_barrier_init(&b, 0, seq ? 1 : (unsigned)nj); HJob *w = calloc(nj, sizeof *w); pthread_t *t = calloc(nj, sizeof *t);
        for(size_t i = 0; i < nj; i++) { w[i].n = js[i].n; w[i].b = &b; w[i].fn = fn; w[i].lines = calloc(js[i].n + 1, sizeof(char *)); for(size_t k = 0; k < js[i].n; k++) w[i].lines[k] = strdup(js[i].lines[k]); }
        for(size_t i = 0; i < nj; i++) { pthread_create(&t[i], 0, h_thr, &w[i]); if(seq) pthread_join(t[i], 0); }
        for(size_t i = 0; i < nj; i++) { if(!seq) pthread_join(t[i], 0); }
        for(size_t i = 0; i < nj; i++) { printf("BEGIN %zu\n", r * nj + i); fwrite(w[i].buf, 1, w[i].len, stdout); printf("\nSTATUS %zu exit 0\n", r * nj + i); for(size_t k = 0; k < w[i].n; k++) free(w[i].lines[k]); free(w[i].lines); free(w[i].buf); }
        free(w); free(t); pthread_barrier_destroy(&b); fflush(stdout);
    }
    return 0;
}
#endif
