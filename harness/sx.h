// Interface between a harness and the symbolic executor (or the native replay runtime).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned long long sx_u64;
void   sx_sym(void* p, sx_u64 n, const char* name);            // n arbitrary bytes
sx_u64 sx_int(sx_u64 lo, sx_u64 hi, const char* name);         // arbitrary integer lo..hi
sx_u64 sx_conc(sx_u64 v);                                      // case split over all values of v
void   sx_assume(int c);
void   sx_check(int c, const char* what);                      // property assertion
void   sx_check_kf(int c, const char* what, int known, const char* kf); // with a listed finding's condition
void   sx_cover(const char* label);                            // reachability witness
void   sx_cut(const char* why);                                // stop this path (reported)
void   sx_obs(sx_u64 v);                                       // value compared engine vs native
int    sx_engine(void);                                        // 1 in the engine, 0 natively
void   sx_trace(const char* label, sx_u64 v);
void   sx_traces(const char* label, const void* s, sx_u64 charsize);
void   harness_main(void);
#ifdef __cplusplus
}
static inline int sx_pick(int n, const char* name) { return (int)sx_conc(sx_int(0, n - 1, name)); }
#endif
