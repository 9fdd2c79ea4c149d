// Harness interface. Under the symbolic engine these are intercepted; in the native replay
// build they read the values of one solver model from $VP_INPUT.
#pragma once
extern "C" {
long vp_int(const char* name, long lo, long hi);
int vp_bool(const char* name);
double vp_grid(const char* name, long lo, long hi, int sc);   // k * 2^sc, lo <= k <= hi
double vp_anydouble(const char* name);                         // all 2^64 bit patterns
void vp_assume(int c);
void vp_assert(int c, const char* label);
void vp_cover(const char* label);
long vp_conc(long v);                                          // split on every feasible value
void vp_obs(long v);
void vp_obsd(double v);
int vp_symbolic();                                             // 1 under the engine, 0 natively
long vp_heaplive();                                            // number of live heap blocks
void vp_print(const char* s, long v);
void vp_printd(const char* s, double v);
int vp_thread(void (*f)(void*), void* arg);
void vp_yield();
int vp_self();
int vp_alive();
}
