/* memory of numpy arrays: every fresh block is filled with a pattern that the simulator chooses */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef struct {
    void *ctx;
    void *(*malloc)(void *ctx, size_t size);
    void *(*calloc)(void *ctx, size_t n, size_t size);
    void *(*realloc)(void *ctx, void *p, size_t size);
    void (*free)(void *ctx, void *p, size_t size);
} Allocator;
typedef struct { char name[127]; uint8_t version; Allocator a; } Handler;

static double pattern;
static int active;
long filled;

static void *fill(void *p, size_t n) {
    if (p && active) {
        double *d = p;
        for (size_t i = 0; i < n / 8; i++) d[i] = pattern;
        filled++;
    }
    return p;
}
static void *m(void *c, size_t n) { return fill(malloc(n ? n : 1), n); }
static void *z(void *c, size_t k, size_t n) { return calloc(k ? k : 1, n ? n : 1); }
static void *r(void *c, void *p, size_t n) { return realloc(p, n ? n : 1); }
static void f(void *c, void *p, size_t n) { free(p); }

Handler handler = {"simulated", 1, {0, m, z, r, f}};
void set_pattern(double v, int on) { pattern = v; active = on; }
long blocks(void) { return filled; }
