/* Driver for Parser.h: records the events of every document it is given.
 * stdin: records [u32 length][u8 mode][u32 param][bytes]; modes:
 *  0 fmemopen-like cookie delivering everything asked for, 1 short reads,
 *  2 pipe written in pieces, 3 read error after param bytes, 4 regular file,
 *  5 as 0, but the stream is already positioned behind param junk bytes
 * stdout: per document the canonical events, then "R <ret> <ctxOk> <textCallbacks> <live>" */
#define _GNU_SOURCE
#include "Parser.h"
#include <libxml/xmlerror.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sanitizer/allocator_interface.h>

static volatile long live = 0; static __thread int track = 0;
static void onM(const volatile void *p, size_t n) { if(track) live++; }
static void onF(const volatile void *p) { if(track && p) live--; }

typedef struct { const unsigned char *d; size_t n, pos; int mode; uint32_t param; uint32_t rnd; } Src;
static ssize_t rd(void *c, char *buf, size_t n) {
    Src *s = c; size_t left = s->n - s->pos;
    if(s->mode == 3 && s->pos >= s->param) return -1;
    if(s->mode == 3 && n > s->param - s->pos) n = s->param - s->pos;
    if(s->mode == 1) { s->rnd = s->rnd * 1664525u + 1013904223u; size_t m = (s->rnd >> 16) % 700 + 1; if(n > m) n = m; }
    if(n > left) n = left;
    memcpy(buf, s->d + s->pos, n); s->pos += n; return (ssize_t)n;
}
static FILE *out; static char *tb; static size_t tn, tc; static int magic; static int ctxOk; static long textCb;
static void esc(const char *s, size_t n) {
    for(size_t i = 0; i < n; i++) { char c = s[i];
        if(c == '\n') fputs("\\n", out); else if(c == '\t') fputs("\\t", out); else if(c == '\\') fputs("\\\\", out); else fputc(c, out); }
}
static void f(const char *s) { fputc('\t', out); if(s) esc(s, strlen(s)); }
static void flushText(void) { if(tn) { fputc('T', out); fputc('\t', out); esc(tb, tn); fputc('\n', out); tn = 0; } }
static void chars(void *ctx, const char *ch, int len) {
    if(ctx != &magic) ctxOk = 0;
    textCb++;
    track = 0;
    if(len < 0) ctxOk = 0; else {
        if(tn + (size_t)len > tc) { tc = (tn + (size_t)len) * 2; tb = realloc(tb, tc); }
        memcpy(tb + tn, ch, (size_t)len); tn += (size_t)len; }
    track = 1;
}
static void start(void *ctx, const char *l, const char *p, const char *u, int nn, const char **ns, int na, int nd, const char **at) {
    track = 0;
    if(ctx != &magic) ctxOk = 0;
    if(nd) ctxOk = 0;
    flushText(); fputc('S', out); f(l); f(p); f(u); fprintf(out, "\t%d", nn);
    for(int i = 0; i < nn; i++) { f(ns[2 * i]); f(ns[2 * i + 1]); }
    fprintf(out, "\t%d", na);
    for(int i = 0; i < na; i++) { f(at[5 * i]); f(at[5 * i + 1]); f(at[5 * i + 2]); fputc('\t', out); esc(at[5 * i + 3], (size_t)(at[5 * i + 4] - at[5 * i + 3])); }
    fputc('\n', out);
    track = 1;
}
static void end(void *ctx, const char *l, const char *p, const char *u) {
    track = 0;
    if(ctx != &magic) ctxOk = 0;
    flushText(); fputc('E', out); f(l); f(p); f(u); fputc('\n', out);
    track = 1;
}
typedef struct { int fd; const unsigned char *d; size_t n; uint32_t rnd; } W;
static void *writer(void *a) { W *w = a; size_t p = 0;
    while(p < w->n) { w->rnd = w->rnd * 1664525u + 1013904223u; size_t m = (w->rnd >> 16) % 1500 + 1; if(m > w->n - p) m = w->n - p;
        ssize_t k = write(w->fd, w->d + p, m); if(k <= 0) break; p += (size_t)k; }
    close(w->fd); return 0; }

static char iobuf[4096];
static int one(const unsigned char *d, size_t n, int mode, uint32_t param) {
    Src s = {d, n, 0, mode, param, param * 7919u + 1}; FILE *fp = 0; pthread_t t; W w; int thr = 0;
    if(mode == 2) { int p[2]; if(pipe(p)) _exit(7); w = (W){p[1], d, n, param}; pthread_create(&t, 0, writer, &w); thr = 1; fp = fdopen(p[0], "rb"); }
    else if(mode == 4) { fp = tmpfile(); setvbuf(fp, iobuf, _IOFBF, sizeof iobuf); fwrite(d, 1, n, fp); rewind(fp); }
    else { cookie_io_functions_t io = {rd, 0, 0, 0}; fp = fopencookie(&s, "rb", io); }
    if(!fp) _exit(7);
    if(mode != 4) setvbuf(fp, iobuf, _IOFBF, sizeof iobuf);
    if(mode == 5) for(uint32_t i = 0; i < param; i++) fgetc(fp);
    tn = 0; ctxOk = 1; textCb = 0;
    track = 1;
    Parser *p = Parser_new(&magic);
    int r = Parser_run(p, fp, start, end, chars);
    Parser_delete(p);
    track = 0;
    flushText();
    fclose(fp);
    if(thr) pthread_join(t, 0);
    return r;
}
int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN);
    int leak = argc > 1 && !strcmp(argv[1], "leak");
    __sanitizer_install_malloc_and_free_hooks(onM, onF);
    out = stdout; setvbuf(stdout, malloc(1 << 16), _IOFBF, 1 << 16);
    uint32_t n, param; unsigned char mode;
    while(fread(&n, 4, 1, stdin) == 1) {
        if(fread(&mode, 1, 1, stdin) != 1 || fread(&param, 4, 1, stdin) != 1) break;
        unsigned char *d = malloc(n ? n : 1);
        if(n && fread(d, 1, n, stdin) != n) break;
        live = 0;
        int r = one(d, n, mode, param);
        long l = live;
        if(leak) { fflush(stdout); out = fopen("/dev/null", "w"); xmlResetLastError(); live = 0; one(d, n, mode, param); track = 1; xmlResetLastError(); track = 0; l = live; fclose(out); out = stdout; }
        printf("R %d %d %ld %ld\n", r, ctxOk, textCb, l); fflush(stdout);
        free(d);
    }
    _exit(0);
}
