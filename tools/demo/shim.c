/* Preloaded fault injection for demonstrations.
   SHIM="what:path-suffix:nth:action"  what: fwrite fopen unlink new write1
   action: fail kill keep:<cmd> (run cmd, go on) ; nth counts from 0; "fail*k" fails k times */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static char what[32], path[200], action[400];
static long nth = -1, reps = 1, seen;
static int ready;
static void init(void)
{
    if (ready) return;
    ready = 1;
    char const * s = getenv("SHIM");
    if (s) sscanf(s, "%31[^|]|%199[^|]|%ld|%ld|%399[^\n]", what, path, &nth, &reps, action);
}
static int hit(char const * w, char const * p)
{
    init();
    if (nth < 0 || strcmp(w, what)) return 0;
    if (strcmp(path, "-")) {
        size_t a, b = strlen(path);
        if (!p || (a = strlen(p)) < b || strcmp(p + a - b, path)) return 0;
    }
    long k = seen++;
    if (k < nth || k >= nth + reps) return 0;
    if (!strcmp(action, "kill")) raise(SIGKILL);
    if (!strcmp(action, "fail")) return 1;
    unsetenv("LD_PRELOAD");
    if (system(action) != 0) _exit(77);
    return 0;
}
static char const * fpath(FILE * f, char * b, size_t n)
{
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fileno(f));
    ssize_t k = readlink(l, b, n - 1);
    if (k < 0) return NULL;
    b[k] = 0;
    return b;
}
size_t fwrite(void const * p, size_t s, size_t n, FILE * f)
{
    static size_t (*real)(void const *, size_t, size_t, FILE *);
    if (!real) real = dlsym(RTLD_NEXT, "fwrite");
    init();
    if (nth >= 0 && !strcmp(what, "fwrite")) {
        char b[4096];
        if (hit("fwrite", fpath(f, b, sizeof b))) { errno = ENOSPC; return 0; }
    }
    return real(p, s, n, f);
}
size_t fread(void * p, size_t s, size_t n, FILE * f)
{
    static size_t (*real)(void *, size_t, size_t, FILE *);
    if (!real) real = dlsym(RTLD_NEXT, "fread");
    init();
    if (nth >= 0 && !strcmp(what, "fread")) {
        char b[4096];
        if (hit("fread", fpath(f, b, sizeof b))) { errno = EIO; return 0; }
    }
    return real(p, s, n, f);
}
#define OPEN(name) \
FILE * name(char const * p, char const * m) \
{ \
    static FILE * (*real)(char const *, char const *); \
    if (!real) real = dlsym(RTLD_NEXT, #name); \
    if (hit("fopen", p)) { errno = EACCES; return NULL; } \
    return real(p, m); \
}
OPEN(fopen)
OPEN(fopen64)
int unlink(char const * p)
{
    static int (*real)(char const *);
    if (!real) real = dlsym(RTLD_NEXT, "unlink");
    if (hit("unlink", p)) { errno = EACCES; return -1; }
    return real(p);
}
