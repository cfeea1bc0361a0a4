/* native driver: replays recorded inputs (argv[1] = file), or runs the harness on pseudo-random
 * inputs (--rand SEED COUNT SECONDS): the sampled runs back up the verifier, they decide nothing by themselves. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <time.h>
#include <unistd.h>
void harness(void);
static FILE *in;
static uint64_t rnd; static int use_rnd;
static unsigned long taken;
#define MAXLOG 4096
static uint64_t lg[MAXLOG];
static jmp_buf again;
static uint64_t next(void) { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd; }
static uint64_t log_(uint64_t v) { if (taken < MAXLOG) lg[taken] = v; taken++; return v; }
uint64_t vf_u64(void) {
    unsigned long long v = 0;
    if (use_rnd) {
        switch (next() % 6) {
        case 0: v = next() % 3; break;
        case 1: v = next() & 0xff; break;
        case 2: v = ~0ull >> (next() % 64); break;
        case 3: v = -(next() % 4); break;
        default: v = next();
        }
        return log_(v);
    }
    if (in && fscanf(in, "%llu", &v) != 1) v = 0;   /* inputs the counterexample left unconstrained */
    return log_(v);
}
void vf_native_assume(int ok, const char *what) {
    if (!ok) {
        if (use_rnd) longjmp(again, 1);
        fprintf(stderr, "ASSUMPTION-NOT-MET: %s\n", what); fflush(NULL); _exit(77);
    }
}
static void dump(void) {
    fprintf(stderr, "INPUTS:");
    for (unsigned long i = 0; i < taken && i < MAXLOG; ++i) fprintf(stderr, " %llu", (unsigned long long)lg[i]);
    fprintf(stderr, "\n"); fflush(NULL);
}
void vf_native_check(int ok, const char *what, const char *file, int line) {
    if (!ok) { fprintf(stderr, "CONTRACT-VIOLATED: %s (%s:%d)\n", what, file, line); if (use_rnd) dump(); fflush(NULL); _exit(42); }
}
uint64_t vf_range(uint64_t lo, uint64_t hi) {
    if (use_rnd) {
        uint64_t span = hi - lo + 1, v;
        if (span == 0) return vf_u64();
        switch (next() % 8) { case 0: v = lo; break; case 1: v = hi; break; default: v = lo + next() % span; }
        return log_(v);
    }
    uint64_t v = vf_u64();
    vf_native_assume(v >= lo && v <= hi, "range");
    return v;
}
int64_t vf_srange(int64_t lo, int64_t hi) {
    if (use_rnd) return (int64_t)(vf_range(0, (uint64_t)hi - (uint64_t)lo) + (uint64_t)lo);
    int64_t v = (int64_t)vf_u64();
    vf_native_assume(v >= lo && v <= hi, "range");
    return v;
}
void __asan_on_error(void) { if (use_rnd) dump(); }
int main(int argc, char **argv) {
    if (argc == 5 && strcmp(argv[1], "--rand") == 0) {
        volatile unsigned long n = strtoul(argv[3], 0, 10), i, done = 0;
        time_t end = time(0) + atoi(argv[4]);
        use_rnd = 1;
        for (i = 0; i < n && time(0) < end; ++i) {
            rnd = 0x9E3779B97F4A7C15ull * (strtoull(argv[2], 0, 10) + 1) + i * 0xD1B54A32D192ED03ull; rnd |= 1; next(); next();
            taken = 0;
            if (setjmp(again) == 0) { harness(); done++; }
        }
        printf("SAMPLED %lu of %lu\n", done, i);
        return 0;
    }
    if (argc > 1) { in = fopen(argv[1], "r"); if (!in) { perror(argv[1]); return 2; } }
    harness();
    fprintf(stderr, "REPLAY-CLEAN (%lu inputs)\n", taken);
    return 0;
}
