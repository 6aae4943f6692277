/* All-pairs cheapest substitution / adjacent-swap edit distance.
   tables PIXELS COST OUT nvals npix noff bits
   PIXELS: noff*nvals*npix bytes; COST: 256 int32;
   OUT: noff * nvals*nvals uint16, OUT[o][(a << bits) + b] = distance(a, b) */
#include <fcntl.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>

static uint8_t *px;
static int32_t cost[16][16];
static uint16_t *out;
static long nvals, npix, noff, nthreads = 8;

static void *run(void *arg) {
    long id = (long)arg;
    /* order b values by pixel string so that prefixes are shared */
    for (long o = 0; o < noff; o++) {
        uint8_t *P = px + o * nvals * npix;
        for (long a = id; a < nvals; a += nthreads) {
            uint8_t *A = P + a * npix;
            uint16_t *row = out + o * nvals * nvals + a * nvals;
            for (long b = 0; b < nvals; b++) {
                uint8_t *B = P + b * npix;
                int d2 = 0, d1 = cost[A[0]][B[0]];
                for (long i = 1; i < npix; i++) {
                    int v = d1 + cost[A[i]][B[i]];
                    if (A[i] == B[i-1] && A[i-1] == B[i] && d2 + 1 < v)
                        v = d2 + 1;
                    d2 = d1; d1 = v;
                }
                row[b] = (uint16_t)d1;
            }
        }
    }
    return 0;
}

int main(int argc, char **argv) {
    nvals = atol(argv[4]); npix = atol(argv[5]); noff = atol(argv[6]);
    long n = sysconf(_SC_NPROCESSORS_ONLN);
    if (n >= 1 && n < 64) nthreads = n;
    px = malloc(noff * nvals * npix);
    FILE *f = fopen(argv[1], "rb");
    if (!f || fread(px, 1, noff * nvals * npix, f) != (size_t)(noff * nvals * npix)) return 1;
    fclose(f);
    f = fopen(argv[2], "rb");
    if (!f || fread(cost, 4, 256, f) != 256) return 1;
    fclose(f);
    size_t sz = (size_t)noff * nvals * nvals * 2;
    int fd = open(argv[3], O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sz)) return 1;
    out = mmap(0, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (out == MAP_FAILED) return 1;
    pthread_t t[64];
    for (long i = 0; i < nthreads; i++) pthread_create(&t[i], 0, run, (void *)i);
    for (long i = 0; i < nthreads; i++) pthread_join(t[i], 0);
    return 0;
}
