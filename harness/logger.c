/* Drives the built-in logger. stdin lines: level TAB format number TAB string TAB integer.
 * After each call the expected text goes to fd 3 (argv[1] is its path) as
 * "<level>\t<expected text>"; the logger's own output is stdout. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "InternalLogger.h"

static FILE *exp_;
static NodesetLoader_Logger *lg;
static void both(int level, const char *f, ...) {
    va_list v; va_start(v, f); int n = vsnprintf(NULL, 0, f, v); va_end(v);
    char *b = malloc((size_t)n + 1); va_start(v, f); vsnprintf(b, (size_t)n + 1, f, v); va_end(v);
    fprintf(exp_, "%d\t%s\n", level, b); free(b);
}
#define L(...) do { both(level, __VA_ARGS__); lg->log(lg->context, (enum NodesetLoader_LogLevel)level, __VA_ARGS__); } while(0)
int main(int argc, char **argv) {
    exp_ = fopen(argv[1], "w"); char *line = 0; size_t cap = 0; ssize_t n; int k = 0;
    lg = InternalLogger_new();
    while((n = getline(&line, &cap, stdin)) > 0) {
        if(line[n - 1] == '\n') line[n - 1] = 0;
        char *t1 = strchr(line, '\t'); char *t2 = strchr(t1 + 1, '\t'); char *t3 = strrchr(line, '\t');
        *t1 = *t2 = *t3 = 0; int level = atoi(line), f = atoi(t1 + 1); const char *s = t2 + 1; long long i = atoll(t3 + 1);
        if(k++ % 97 == 96) { InternalLogger_delete(lg); lg = InternalLogger_new(); }
        switch(f) {
        case 0: L("plain text"); break;
        case 1: L("%s", s); break;
        case 2: L("NodesetLoader: %s failed with %d", s, (int)i); break;
        case 3: L("%d%%, %s%% done, literal %%s", (int)i, s); break;
        case 4: L("%lld %llu %llx %zu", i, (unsigned long long)i, (unsigned long long)i, (size_t)i); break;
        case 5: L("<%-20s|%20s|%.5s>", s, s, s); break;
        case 6: L("%.*s and %c and %5.2f", (int)(strlen(s) / 2), s, 'c', (double)i / 7); break;
        case 7: L("%s %s %s %s %s %s %s %s %s", s, "b", s, "d", s, "f", s, "h", s); break;
        case 8: L("%d %d %d %d %d %d %d %d %f %f %f %f %f %f %f %f %f %s", 1, 2, 3, 4, 5, 6, 7, (int)i, 1., 2., 3., 4., 5., 6., 7., 8., 9., s); break;
        case 9: L("%08x %+d %o %hhu %hu %ld", (unsigned)i, (int)i, (unsigned)i, (unsigned char)i, (unsigned short)i, (long)i); break;
        case 10: L(""); break;
        case 11: L("%1$s %2$d %1$s", s, (int)i); break;
        case 12: L("%*d|%-*d|", 12, (int)i, 15, (int)i); break;
        case 13: L("%5000d", (int)i); break;
        case 14: L("%Lf %g %e %a", (long double)i, (double)i, (double)i, (double)i); break;
        default: L("%s:%i", s, (int)i);
        }
        fflush(stdout);
    }
    InternalLogger_delete(lg); fclose(exp_); fflush(stdout);
    return 0;
}
