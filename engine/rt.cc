// Runtime pieces that live in shared libraries (libc, libstdc++) and so have no bitcode.
#include <bits/stl_tree.h>
#include <bits/stl_list.h>
#include <cstddef>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <string>
#include <new>
#include <unordered_map>
#include <sstream>
extern "C" {
size_t strlen(const char* s) { const char* p = s; while (*p) ++p; return p - s; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
int strcmp(const char* a, const char* b) { for (;; ++a, ++b) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; ++a, ++b, --n) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) ; return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* p = d + strlen(d); while (n-- && *s) *p++ = *s++; *p = 0; return d; }
char* strdup(const char* s) { char* p = (char*)malloc(strlen(s) + 1); strcpy(p, s); return p; }
#undef strchr
#undef strrchr
#undef memchr
#undef strstr
}
extern "C" void* vp_memchr(const void* s, int c, size_t n) __asm__("memchr");
void* vp_memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (; n; --n, ++p) if (*p == (unsigned char)c) return (void*)p; return 0; }
extern "C" char* vp_strchr(const char* s, int c) __asm__("strchr");
char* vp_strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
extern "C" char* vp_strrchr(const char* s, int c) __asm__("strrchr");
char* vp_strrchr(const char* s, int c) { const char* r = 0; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
extern "C" char* vp_strstr(const char* s, const char* t) __asm__("strstr");
char* vp_strstr(const char* s, const char* t) { size_t n = strlen(t); for (;; ++s) { if (strncmp(s, t, n) == 0) return (char*)s; if (!*s) return 0; } }
extern "C" long vp_strtol(const char* s, char** e, int base) __asm__("strtol");
long vp_strtol(const char* s, char** e, int base) { while (*s == ' ') ++s; bool ng = false; if (*s == '-') { ng = true; ++s; } else if (*s == '+') ++s; long v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); if (e) *e = (char*)s; return ng ? -v : v; }
extern "C" int vp_atoi(const char* s) __asm__("atoi");
int vp_atoi(const char* s) { return (int)vp_strtol(s, 0, 10); }

namespace std {
typedef _Rb_tree_node_base* BP;
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { BP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<BP>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { BP y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { BP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<BP>(x)); }
static void rotL(BP x, BP& root) { BP y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotR(BP x, BP& root) { BP y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool insert_left, BP x, BP p, _Rb_tree_node_base& header) throw() {
  BP& root = header._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (insert_left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
  else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    BP const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      BP const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); }
    } else {
      BP const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
BP _Rb_tree_rebalance_for_erase(BP const z, _Rb_tree_node_base& header) throw() {
  BP& root = header._M_parent; BP& leftmost = header._M_left; BP& rightmost = header._M_right;
  BP y = z, x = 0, xp = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; _Rb_tree_color t = y->_M_color; y->_M_color = z->_M_color; z->_M_color = t; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { BP m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { BP m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        BP w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; }
      } else {
        BP w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) throw() { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() throw() { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) throw() {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() throw() { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) throw() {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
  static const unsigned long pr[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173, 16411, 17749, 19183, 20753, 22447, 24281, 26267, 28411, 30727, 33223, 35933, 38873, 42043, 45481, 49201, 53201, 57557, 62233, 67307, 72817, 78779, 85229, 92203, 99733};
  for (unsigned long p : pr) if (p >= n) { _M_next_resize = (std::size_t)(p * (double)_M_max_load_factor); return p; }
  abort();
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const {
  if (ne + ni > _M_next_resize) { double mb = (double)std::max<std::size_t>(ne + ni, _M_next_resize ? 0 : 11) / (double)_M_max_load_factor;
    if (mb >= nb) return {true, _M_next_bkt(std::max<std::size_t>((std::size_t)mb + 1, nb * 2))};
    _M_next_resize = (std::size_t)(nb * (double)_M_max_load_factor); }
  return {false, 0};
}
}
void __throw_length_error(const char*) { abort(); }
void __throw_logic_error(const char*) { abort(); }
void __throw_out_of_range(const char*) { abort(); }
void __throw_out_of_range_fmt(const char*, ...) { abort(); }
void __throw_bad_alloc() { abort(); }
void __throw_bad_array_new_length() { abort(); }
void __throw_invalid_argument(const char*) { abort(); }
void __throw_bad_function_call() { abort(); }
void __throw_runtime_error(const char*) { abort(); }
void __throw_domain_error(const char*) { abort(); }
std::size_t _Hash_bytes(const void* p, std::size_t n, std::size_t seed) { const unsigned char* b = (const unsigned char*)p; std::size_t h = seed; for (std::size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull; return h; }
template class basic_string<char>;
}
// String streams: the stream object's storage holds a pointer to its text.
struct SS { unsigned long magic; std::string* s; };
static const unsigned long MG = 0x5353535353535353ul;
static inline SS* ss(void* p) { SS* q = (SS*)p; return q->magic == MG ? q : 0; }
#define CTOR(nm) extern "C" void nm(void* p) { SS* q = (SS*)p; q->magic = MG; q->s = new std::string(); }
#define DTOR(nm) extern "C" void nm(void* p) { SS* q = ss(p); if (q) { delete q->s; q->magic = 0; } }
CTOR(_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev)
CTOR(_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev)
DTOR(_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev)
DTOR(_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev)
extern "C" void _ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv(std::string* out, void* p) { new (out) std::string(*((SS*)p)->s); }
extern "C" void _ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv(std::string* out, void* p) { new (out) std::string(*((SS*)p)->s); }
#define PUT(nm, T, F) extern "C" void* nm(void* p, T v) { SS* q = ss(p); if (q) { char b[64]; snprintf(b, 64, F, v); q->s->append(b); } return p; }
PUT(_ZNSolsEi, int, "%d")
PUT(_ZNSolsEj, unsigned, "%u")
PUT(_ZNSo9_M_insertIlEERSoT_, long, "%ld")
PUT(_ZNSo9_M_insertImEERSoT_, unsigned long, "%lu")
PUT(_ZNSolsEl, long, "%ld")
PUT(_ZNSolsEm, unsigned long, "%lu")
extern "C" void* _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(void* p, const char* s) { SS* q = ss(p); if (q) q->s->append(s); return p; }
extern "C" void* _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void* p, const char* s, long n) { SS* q = ss(p); if (q) q->s->append(s, n); return p; }
extern "C" void* _ZNSo9_M_insertIdEERSoT_(void* p, double v) { SS* q = ss(p); if (q) { char b[64]; snprintf(b, 64, "%g", v); q->s->append(b); } return p; }
extern "C" void* _ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_(void* p) { SS* q = ss(p); if (q) q->s->append("\n", 1); return p; }
extern "C" void* _ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_(void* p) { return p; }
extern "C" void* _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(void* p, char c) { SS* q = ss(p); if (q) q->s->append(&c, 1); return p; }
extern "C" void* _ZNSo3putEc(void* p, char c) { SS* q = ss(p); if (q) q->s->append(&c, 1); return p; }
// standard streams: output is dropped; the objects carry a virtual-base offset so that inlined accesses land inside them
struct OS { void* vp; char b[264]; };
static const long osvt[4] = {8, 0, 0, 0};
extern "C" { OS vp_cerr asm("_ZSt4cerr") = {(void*)&osvt[3], {}}; OS vp_cout asm("_ZSt4cout") = {(void*)&osvt[3], {}}; OS vp_clog asm("_ZSt4clog") = {(void*)&osvt[3], {}}; }
