/* Development tool: thresholds of the three laws, independent of the code under test. The constants in vf/props/c32.py come from here.
   gcc -O2 reference.c -lm -o ref; ./ref MODEL SIDE REALIZATIONS SEED  
   -> one line of vf/thresholds.jsonl: mean and sd of pc, probability to wrap at p = 0.59274605, distribution of pc */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
static uint64_t s[4];
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t next(void) { uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
static uint32_t below(uint32_t n) { return (uint32_t)(((next() >> 32) * (uint64_t)n) >> 32); }
#define M 262144
static int par[M], dx[M], dy[M], perm[M];
static char occ[M];
static int L, N;
static const int DX[4] = {1, 0, -1, 0}, DY[4] = {0, 1, 0, -1};
static int nb(int i, int d) { int r = i / L, c = i % L; r = (r + DY[d] + L) % L; c = (c + DX[d] + L) % L; return r * L + c; }
static int find(int i, int *x, int *y) { int a = 0, b = 0; while (par[i] >= 0) { a += dx[i]; b += dy[i]; i = par[i]; } *x = a; *y = b; return i; }
static int place(int i) {      /* -> 1: wraps */
    occ[i] = 1; par[i] = -1; dx[i] = dy[i] = 0; int wraps = 0;
    for (int d = 0; d < 4; d++) {
        int j = nb(i, d); if (!occ[j]) continue;
        int xi, yi, xj, yj, a = find(i, &xi, &yi), b = find(j, &xj, &yj);
        /* pos(i) = xi + root a;  pos(j) should be pos(i) + D */
        if (a == b) { if (xj != xi + DX[d] || yj != yi + DY[d]) wraps = 1; }
        else if (par[a] <= par[b]) { par[a] += par[b]; par[b] = a; dx[b] = xi + DX[d] - xj; dy[b] = yi + DY[d] - yj; }
        else { par[b] += par[a]; par[a] = b; dx[a] = xj - DX[d] - xi; dy[a] = yj - DY[d] - yi; }
    }
    return wraps;
}
int main(int n_, char **v) {
    int model = atoi(v[1]); L = atoi(v[2]); N = L * L; long R = atol(v[3]); uint64_t z = atoll(v[4]);
    for (int i = 0; i < 4; i++) { z += 0x9e3779b97f4a7c15ull; uint64_t t = z; t = (t ^ (t >> 30)) * 0xbf58476d1ce4e5b9ull; t = (t ^ (t >> 27)) * 0x94d049bb133111ebull; s[i] = t ^ (t >> 31); }
    double sum = 0, sq = 0, share = 0, share2 = 0, pc = 0.59274605; long *hist = calloc(N + 1, sizeof *hist);
    double *cdf = malloc((N + 1) * sizeof *cdf);   /* P(Binomial(N, pc) >= n) */
    double acc = 0; for (int n = N; n >= 0; n--) { acc += exp(lgamma(N + 1.) - lgamma(n + 1.) - lgamma(N - n + 1.) + n * log(pc) + (N - n) * log1p(-pc)); cdf[n] = acc; }
    for (long r = 0; r < R; r++) {
        memset(occ, 0, N); int n = 0;
        if (!model) for (int i = 0; i < N; i++) perm[i] = i;
        for (;;) {
            int i;
            if (!model) { int j = n + below(N - n); i = perm[j]; perm[j] = perm[n]; }
            else for (;;) {
                i = below(N); if (!occ[i]) break;
                int d = below(4); i = nb(i, d); if (!occ[i]) break;
                if (model == 2) { i = nb(i, d); if (!occ[i]) break; }
            }
            n++;
            if (place(i)) break;
        }
        double p = (double)n / N; sum += p; sq += p * p; share += cdf[n]; share2 += cdf[n] * cdf[n]; hist[n]++;
    }
    double m = sum / R, sd = sqrt(sq / R - m * m);
    share /= R;
    printf("{\"model\": %d, \"side\": %d, \"n\": %ld, \"mean\": %.7f, \"sd\": %.7f, \"share\": %.7f, \"share_sd\": %.7f, \"bins\": [", model, L, R, m, sd, share, sqrt(share2 / R - share * share));
    long in = 0; int first = 1;         /* bins: [largest number of sites in it, share of the realizations], about 16 of them */
    for (int n = 0; n <= N; n++) { in += hist[n]; if (in >= R / 16. || (n == N && in)) { printf("%s[%d, %.7f]", first ? "" : ", ", n, (double)in / R); first = 0; in = 0; } }
    printf("]}\n");
}
