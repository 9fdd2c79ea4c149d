// Native counterpart of the harness interface: replays one solver model on the real build.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <ucontext.h>
#include <cmath>
#include <unistd.h>
static int paused = 0; struct Q { Q() { ++paused; } ~Q() { --paused; } };   // the replay's own allocations do not count
static std::map<std::string, std::string>& in() {
  static std::map<std::string, std::string> m; static bool done = false;
  if (!done) { done = true; const char* p = getenv("VP_INPUT"); FILE* f = p ? fopen(p, "r") : 0; char k[512], v[512]; if (f) { while (fscanf(f, "%511s %511s", k, v) == 2) m[k] = v; fclose(f); } }
  return m;
}
static std::map<std::string, int> cnt;
static bool get(const char* n, std::string& v) { std::string k = std::string(n) + "#" + std::to_string(cnt[n]++); auto i = in().find(k); if (i == in().end()) return false; v = i->second; return true; }
static void miss() { fflush(stdout); printf("VP_DIVERGED\n"); fflush(stdout); _exit(79); }
extern "C" {
long vp_int(const char* n, long lo, long hi) { Q q; std::string s; if (!get(n, s)) { if (in().empty()) return lo; miss(); } return strtol(s.c_str(), 0, 10); }
int vp_bool(const char* n) { Q q; std::string s; if (!get(n, s)) { if (in().empty()) return 0; miss(); } return atoi(s.c_str()) != 0; }
double vp_grid(const char* n, long lo, long hi, int sc) { Q q; std::string s; if (!get(n, s)) { if (in().empty()) return std::ldexp((double)lo, sc); miss(); } return std::ldexp((double)strtol(s.c_str(), 0, 10), sc); }
double vp_anydouble(const char* n) { Q q; std::string s; if (!get(n, s)) { if (in().empty()) return 0; miss(); } unsigned long u = strtoul(s.c_str(), 0, 16); double d; memcpy(&d, &u, 8); return d; }
void vp_assume(int c) { if (!c) { printf("VP_ASSUME_FAILED\n"); fflush(stdout); _exit(78); } }
void vp_assert(int c, const char* l) { if (!c) { printf("VP_ASSERT_FAILED %s\n", l); fflush(stdout); _exit(77); } }
void vp_cover(const char*) {}
long vp_conc(long v) { return v; }
static int nobs = 0;
void vp_obs(long v) { Q q; if (nobs++ < 400) printf("VP_OBS %lu\n", (unsigned long)v); }
void vp_obsd(double v) { Q q; unsigned long u; memcpy(&u, &v, 8); if (nobs++ < 400) printf("VP_OBS %lu\n", u); }
int vp_symbolic() { return 0; }
long vp_heaplive();
void vp_print(const char* s, long v) { Q q; printf("[vp] %s %ld\n", s, v); }
void vp_printd(const char* s, double v) { Q q; printf("[vp] %s %.17g\n", s, v); }
struct Th { ucontext_t c; bool done; void (*f)(void*); void* a; };
static std::vector<Th*> th; static int cur = 0;
static void tramp(int i) { th[i]->f(th[i]->a); th[i]->done = true; int k = i; do k = (k + 1) % th.size(); while (th[k]->done); cur = k; setcontext(&th[k]->c); }
int vp_thread(void (*f)(void*), void* a) { Q q;
  if (th.empty()) { th.push_back(new Th()); th[0]->done = false; }
  Th* t = new Th(); t->done = false; t->f = f; t->a = a; getcontext(&t->c); t->c.uc_stack.ss_size = 4 << 20; t->c.uc_stack.ss_sp = malloc(4 << 20); t->c.uc_link = 0; int id = th.size(); th.push_back(t); makecontext(&t->c, (void (*)())tramp, 1, id); return id;
}
void vp_yield() { if (th.empty()) return; int o = cur, k = cur; do k = (k + 1) % th.size(); while (th[k]->done); if (k == o) return; cur = k; swapcontext(&th[o]->c, &th[k]->c); }
int vp_self() { return cur; }
int vp_alive() { int c = 0; for (size_t i = 1; i < th.size(); ++i) c += !th[i]->done; return c; }
}
static long live = 0; static bool hooked = false;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
static void hm(const volatile void*, size_t) { if (!paused) ++live; }
static void hf(const volatile void* p) { if (p && !paused) --live; }
extern "C" long vp_heaplive() { return live; }
extern "C" void harness_entry();
int main() { if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(hm, hf); harness_entry(); fflush(stdout); printf("VP_DONE\n"); fflush(stdout); _exit(0); }
