/* native replay: runs harness functions of libh.so on recorded inputs.
   request:  one line "NAME TIER N k v k v ...\n" with k in f (hex bits), u, c
   response: lines, then "END <status>" */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <math.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static struct { char k; uint64_t v; } in[4096];
static int nin, pos, tier, nfail, nchk, fpmode;
static double want; /* a difference the engine predicts exactly; 0: none */
static int out;

static void say(const char *fmt, const char *p, int n, double a, double b) {
    char buf[1024];
    int l = snprintf(buf, sizeof buf, fmt, n, p, a, b);
    if (l > (int)sizeof buf) l = sizeof buf;
    (void)!write(out, buf, l);
}
static void stop(void) { (void)!write(out, "STOP\n", 5); _exit(0); }
/* when the recorded inputs end: stop, or (probe != 0) go on with generated ones */
static uint64_t probe;
static uint64_t rnd(void) {
    probe += 0x9e3779b97f4a7c15ull;
    uint64_t z = probe;
    z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ z >> 27) * 0x94d049bb133111ebull;
    return z ^ z >> 31;
}
static double gen(double lo, double hi) {
    if (!(lo > -1e6)) lo = hi < -6 ? hi - 6 : -6;
    if (!(hi < 1e6)) hi = lo > 6 ? lo + 6 : 6;
    uint64_t r = rnd();
    if (r % 16 == 0 && lo <= 0 && hi >= 0) return 0;
    if (r >> 4 & 1) return lo + (hi - lo) * (double)((r >> 8) % 97) / 96;
    return lo + (hi - lo) * ((double)(r >> 8 & 0xffffff) / 0x1000000);
}
static int more(void) { return probe && pos >= nin; }
static uint64_t take(char k) {
    if (pos >= nin) { (void)!write(out, "EXHAUSTED\n", 10); _exit(0); }
    if (in[pos].k != k) { (void)!write(out, "KIND\n", 5); _exit(0); }
    return in[pos++].v;
}
double sym_f64(void) { if (more()) return gen(-6, 6); uint64_t v = take('f'); double d; memcpy(&d, &v, 8); return d; }
double sym_f64_in(double lo, double hi) {
    double d = more() ? gen(lo, hi) : sym_f64();
    if (!(d >= lo && d <= hi)) { (void)!write(out, "ASSUME\n", 7); _exit(0); }
    return d;
}
uint64_t sym_u64(void) { if (more()) { uint64_t r = rnd(); return r % 8 ? (r >> 8) % 9 : r >> (r % 64); } return take('u'); }
uint64_t sym_choose(uint64_t n) { if (more()) return rnd() % n; uint64_t v = take('c'); if (v >= n) { (void)!write(out, "ASSUME\n", 7); _exit(0); } return v; }
void sym_assume(_Bool c) { if (!c) { (void)!write(out, "ASSUME\n", 7); _exit(0); } }
static void bad(const char *p, uint64_t n, double a, double b) { nfail++; say("FAIL %.*s [%.17g vs %.17g]\n", p, (int)n, a, b); stop(); }
void sym_assert(_Bool c, const char *p, uint64_t n) { nchk++; if (!c) bad(p, n, 0, 1); }
static int close_to(double a, double b) {
    if (isnan(a) || isnan(b)) return isnan(a) && isnan(b);
    if (a == b) return 1;
    if (fpmode || isinf(a) || isinf(b)) return 0;
    return fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b));
}
void sym_assert_eq(double a, double b, const char *p, uint64_t n) {
    nchk++;
    if (want > 0) {
        /* only a difference of the predicted size that stands out of its operands counts */
        double d = fabs(a - b);
        if (fabs(d - want) <= want / 4 && d > 1e-9 * (fabs(a) + fabs(b))) bad(p, n, a, b);
    } else if (!close_to(a, b)) bad(p, n, a, b);
}
void sym_assert_le(double a, double b, const char *p, uint64_t n) { nchk++; if (!(a <= b || (!fpmode && close_to(a, b)))) bad(p, n, a, b); }
int sym_mode(void) { return fpmode; }
int sym_tier(void) { return tier; }

int main(int argc, char **argv) {
    void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    int timeout = argc > 2 ? atoi(argv[2]) : 10;
    int nofork = argc > 3;
    static char line[1 << 18];
    while (fgets(line, sizeof line, stdin)) {
        char *s = strtok(line, " \n");
        if (!s) continue;
        char name[256];
        snprintf(name, sizeof name, "%s", s);
        tier = atoi(strtok(NULL, " \n"));
        nin = 0; pos = 0; nfail = 0; nchk = 0; want = 0; probe = 0;
        (void)strtok(NULL, " \n");
        while ((s = strtok(NULL, " \n"))) {
            char k = s[0];
            s = strtok(NULL, " \n");
            if (k == 'x') { probe = strtoull(s, NULL, 10); continue; }
            if (k == 'd') { uint64_t v = strtoull(s, NULL, 16); memcpy(&want, &v, 8); continue; }
            in[nin].k = k;
            in[nin].v = strtoull(s, NULL, in[nin].k == 'f' ? 16 : 10);
            nin++;
        }
        fpmode = strstr(name, "_fp_") != NULL;
        void (*f)(void) = (void (*)(void))dlsym(h, name);
        if (!f) { printf("NOFUNC\nEND 0\n"); fflush(stdout); continue; }
        int pp[2];
        if (pipe(pp)) return 2;
        pid_t pid = nofork ? 0 : fork();
        if (pid == 0) {
            out = nofork ? 1 : pp[1];
            if (!nofork) { dup2(out, 2); alarm(timeout); }
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            if (!nofork) { struct rlimit as = {4UL << 30, 4UL << 30}; setrlimit(RLIMIT_AS, &as); }
            f();
            say("DONE %d%.0s\n", "", nchk, 0, 0);
            _exit(0);
        }
        close(pp[1]);
        char buf[4096];
        ssize_t r, tot = 0;
        while ((r = read(pp[0], buf, sizeof buf)) > 0) {
            tot += r;
            if (tot < 1 << 16) fwrite(buf, 1, r, stdout);
        }
        close(pp[0]);
        int st;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st)) printf("\nEND signal %d\n", WTERMSIG(st));
        else printf("\nEND %d\n", WEXITSTATUS(st));
        fflush(stdout);
    }
    return 0;
}
