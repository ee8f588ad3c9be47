// linear_allocator: blocks never overlap, keep their content, lie in live memory.
#include "hx.h"
#include "core/linear_allocator.h"
#ifndef H_K
#define H_K 4
#endif
static char* p[H_K]; static unsigned sz[H_K]; static int live;
static void add(char* q, unsigned n) {
    for (int j = 0; j < live; j++) sx_check((q + n <= p[j]) | (p[j] + sz[j] <= q), "two live blocks overlap");
    volatile char c = q[0]; c = q[n - 1];      // inside live memory, first to last byte
    p[live] = q; sz[live] = n; live++;
}
static void alive() { for (int j = 0; j < live; j++) { volatile char c = p[j][0]; c = p[j][sz[j] - 1]; } }
extern "C" void harness_main() {
    unsigned page = 16 + 8 * hx_len(0, 1, "page"); linear_allocator a(page); live = 0;
    for (int i = 0; i < H_K; i++) {
        int op = sx_pick(5, "op");
        if (op == 0) { unsigned n = (unsigned)sx_int(0, 20, "size"); char* q = (char*)a.alloc(n); if (!n) { sx_check(!q, "zero sized block"); continue; } sx_check(q != 0, "allocation failed"); add(q, n); sx_cover("alloc"); if (n > page - 8) sx_cover("oversized"); }
        else if (op == 1) { int n = hx_len(0, 9, "len"); if (n > 2 && n != 7 && n != 9) sx_cut("store lengths 0,1,2,7,9"); char* s = hx_str<char>(n, "s"); const char* q = a.store(s); sx_check(q && hx_eqn(q, (const char*)s, n + 1), "stored text"); free(s); add((char*)q, n + 1); sx_cover("store"); }
        else if (op == 2) { a.reset(); live = 0; sx_cover("reset"); }
        else if (op == 3) { a.clear(); live = 0; sx_cover("clear"); }
        else { linear_allocator b(page); char* q = (char*)b.alloc(3); sx_check(q != 0, "alloc"); a = static_cast<linear_allocator&&>(b); live = 0; add(q, 3); char* r = (char*)b.alloc(2); sx_check(r != 0, "moved-from allocator unusable"); r[0] = r[1] = 0; sx_cover("move"); }
    }
    alive(); sx_obs(live);
}
