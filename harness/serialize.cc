#include "util.hh"
#include "polytope.hh"
#include "polytope_serialize.hh"
using namespace polytope;
#ifndef VPN
#define VPN 2
#endif
// ---- primitive containers of arbitrary values
extern "C" void h_primitive() {
  long n = vp_len("n", 0, VPN), m = vp_len("m", 0, VPN);
  std::vector<double> a; for (long i = 0; i < n; ++i) a.push_back(vp_anydouble("a"));
  std::vector<std::vector<int>> b(m); for (long i = 0; i < m; ++i) { long k = vp_len("k", 0, VPN); for (long j = 0; j < k; ++j) b[i].push_back((int)vp_int("b", -2147483648L, 2147483647L)); }
  unsigned u = (unsigned)vp_int("u", 0, 4294967295L); unsigned long w = (unsigned long)vp_int("w", -9223372036854775807L - 1, 9223372036854775807L);
  std::vector<char> buf;
  serialize(u, buf); serialize(a, buf); serialize(w, buf); serialize(b, buf); serialize(u, buf);
  std::vector<char>::const_iterator it = buf.begin(); const std::vector<char>::const_iterator end = buf.end();
  unsigned u1 = 0, u2 = 0; unsigned long w1 = 0; std::vector<double> a1; std::vector<std::vector<int>> b1;
  deserialize(u1, it, end); deserialize(a1, it, end); deserialize(w1, it, end); deserialize(b1, it, end); deserialize(u2, it, end);
  vp_assert(it == end, "buffer fully consumed");
  vp_assert(u1 == u && u2 == u, "unsigned round trip"); vp_assert(w1 == w, "64-bit round trip");
  vp_assert(a1.size() == a.size() && b1.size() == b.size(), "sizes round trip");
  for (size_t i = 0; i < a.size(); ++i) vp_assert(sameBits(a[i], a1[i]), "double bits round trip");
  for (size_t i = 0; i < b.size(); ++i) { vp_assert(b1[i].size() == b[i].size(), "inner size round trip"); for (size_t j = 0; j < b[i].size(); ++j) vp_assert(b[i][j] == b1[i][j], "int round trip"); }
  if (n == VPN && m == VPN) vp_cover("full");
  if (n == 0 && m == 0) vp_cover("empty");
}
template <int D> static void mk(ReducedPLC<D, double>& p, int tag) {
  (void)tag;
  long nf = vp_len("nf", 0, VPN), nh = vp_len("nh", 0, 1), np = vp_len("np", 0, 2);
  p.facets.resize(nf); for (long i = 0; i < nf; ++i) { long k = i == 0 ? vp_len("k", 0, 3) : D; for (long j = 0; j < k; ++j) p.facets[i].push_back((int)vp_int("f", -2147483648L, 2147483647L)); }
  p.holes.resize(nh); for (long h = 0; h < nh; ++h) { long k = vp_len("hk", 0, VPN); p.holes[h].resize(k); for (long j = 0; j < k; ++j) for (int l = 0; l < D; ++l) p.holes[h][j].push_back((int)vp_int("h", -2147483648L, 2147483647L)); }
  for (long i = 0; i < np; ++i) p.points.push_back(vp_anydouble("p"));
}
template <int D> static void cmpPLC(const PLC<D, double>& a, const PLC<D, double>& b) {
  vp_assert(a.facets.size() == b.facets.size() && a.holes.size() == b.holes.size(), "PLC counts round trip");
  for (size_t i = 0; i < a.facets.size(); ++i) vp_assert(eqv(a.facets[i], b.facets[i]), "facet round trip");
  for (size_t i = 0; i < a.holes.size(); ++i) { vp_assert(a.holes[i].size() == b.holes[i].size(), "hole size round trip"); for (size_t j = 0; j < a.holes[i].size(); ++j) vp_assert(eqv(a.holes[i][j], b.holes[i][j]), "hole facet round trip"); }
}
template <int D> static void plcs() {
  ReducedPLC<D, double> a; mk(a, 0); PLC<D, double> p; p.facets.push_back(std::vector<int>{(int)vp_int("x", -5, 5), 7}); p.holes.resize(1); p.holes[0].push_back(std::vector<int>{(int)vp_int("y", -5, 5), 9});
  std::vector<char> buf; unsigned mark = (unsigned)vp_int("mark", 0, 4294967295L);
  serialize(a, buf); serialize(mark, buf); serialize(p, buf);
  ReducedPLC<D, double> a1; PLC<D, double> p1; unsigned mark1 = 0;
  std::vector<char>::const_iterator it = buf.begin();
  deserialize(a1, it, buf.end()); deserialize(mark1, it, buf.end()); deserialize(p1, it, buf.end());
  vp_assert(it == buf.end(), "buffer fully consumed"); vp_assert(mark == mark1, "object following a PLC round trips");
  cmpPLC<D>(a, a1); cmpPLC<D>(p, p1); vp_assert(a.points.size() == a1.points.size(), "points size");
  for (size_t i = 0; i < a.points.size(); ++i) vp_assert(sameBits(a.points[i], a1.points[i]), "points round trip");
  if (a.holes.size() == 1 && a.holes[0].size() == VPN) vp_cover("holes"); if (a.facets.empty()) vp_cover("no facets");
  vp_obs(buf.size()); if (!a.facets.empty() && !a.facets[0].empty()) vp_obs(a1.facets[0][0]);
}
extern "C" void h_plc2() { plcs<2>(); }
extern "C" void h_plc3() { plcs<3>(); }
// nested three deep
extern "C" void h_nested() {
  std::vector<std::vector<std::vector<unsigned>>> v; long n = vp_len("n", 0, VPN); v.resize(n);
  for (auto& x : v) { x.resize(vp_len("m", 0, VPN)); for (auto& y : x) { long k = vp_len("k", 0, 1); for (long j = 0; j < k; ++j) y.push_back((unsigned)vp_int("v", 0, 4294967295L)); } }
  std::vector<char> buf; serialize(v, buf); std::vector<std::vector<std::vector<unsigned>>> w; std::vector<char>::const_iterator it = buf.begin(); deserialize(w, it, buf.end());
  vp_assert(it == buf.end(), "buffer fully consumed"); vp_assert(v.size() == w.size(), "outer size");
  for (size_t i = 0; i < v.size(); ++i) { vp_assert(v[i].size() == w[i].size(), "middle size"); for (size_t j = 0; j < v[i].size(); ++j) vp_assert(eqv(v[i][j], w[i][j]), "leaf values"); }
  vp_cover("end");
}
// quantized points and segments, alone and in vectors
#include "Point.hh"
#include "Segment.hh"
extern "C" void h_points() {
  const long n = vp_len("n", 0, VPN); Point2<int> a((int)vp_int("ax", -2147483648L, 2147483647L), (int)vp_int("ay", -2147483648L, 2147483647L), (unsigned)vp_int("ai", 0, 4294967295L)), a1(9, 9, 9);
  Point3<int> b((int)vp_int("bx", -2147483648L, 2147483647L), (int)vp_int("by", -2147483648L, 2147483647L), (int)vp_int("bz", -2147483648L, 2147483647L), (unsigned)vp_int("bi", 0, 4294967295L)), b1(9, 9, 9, 9);
  Point2<double> c, c1; c.x = vp_anydouble("cx"); c.y = vp_anydouble("cy"); c.index = (unsigned)vp_int("ci", 0, 4294967295L); Point3<double> d, d1; d.x = vp_anydouble("dx"); d.y = vp_anydouble("dy"); d.z = vp_anydouble("dz"); d.index = (unsigned)vp_int("di", 0, 4294967295L);
  std::vector<Point2<int> > v, v1; for (long i = 0; i < n; ++i) v.push_back(Point2<int>((int)vp_int("vx", -2147483648L, 2147483647L), (int)vp_int("vy", -2147483648L, 2147483647L), (unsigned)vp_int("vi", 0, 4294967295L)));
  Segment<2> s, s1; s.a = a; s.b = Point2<int>((int)vp_int("sx", -2147483648L, 2147483647L), (int)vp_int("sy", -2147483648L, 2147483647L), (unsigned)vp_int("si", 0, 4294967295L)); std::vector<Segment<2> > w(n, s), w1; 
  std::vector<char> buf; serialize(a, buf); serialize(v, buf); serialize(b, buf); serialize(s, buf); serialize(c, buf); serialize(w, buf); serialize(d, buf);
  std::vector<char>::const_iterator it = buf.begin(); const std::vector<char>::const_iterator end = buf.end();
  deserialize(a1, it, end); deserialize(v1, it, end); deserialize(b1, it, end); deserialize(s1, it, end); deserialize(c1, it, end); deserialize(w1, it, end); deserialize(d1, it, end);
  vp_assert(it == end, "buffer fully consumed"); vp_assert(a.x == a1.x && a.y == a1.y && a.index == a1.index, "2D point round trip"); vp_assert(b.x == b1.x && b.y == b1.y && b.z == b1.z && b.index == b1.index, "3D point round trip");
  vp_assert(sameBits(c.x, c1.x) && sameBits(c.y, c1.y) && c.index == c1.index, "2D double point round trip"); vp_assert(sameBits(d.x, d1.x) && sameBits(d.y, d1.y) && sameBits(d.z, d1.z) && d.index == d1.index, "3D double point round trip");
  vp_assert(s.a.x == s1.a.x && s.a.y == s1.a.y && s.a.index == s1.a.index && s.b.x == s1.b.x && s.b.y == s1.b.y && s.b.index == s1.b.index, "segment round trip");
  vp_assert(v1.size() == (size_t)n && w1.size() == (size_t)n, "sizes round trip"); for (long i = 0; i < n; ++i) { vp_assert(v[i].x == v1[i].x && v[i].y == v1[i].y && v[i].index == v1[i].index, "vector of points round trip"); vp_assert(w1[i].a.x == s.a.x && w1[i].b.y == s.b.y && w1[i].b.index == s.b.index, "vector of segments round trip"); }
  vp_cover("end"); vp_obs(buf.size());
}
// ---- long vectors: the count must survive whatever its size
extern "C" void h_long() {
  const long n = vp_conc(vp_bool("big")) ? 70001 : vp_len("n", 255, 257); std::vector<char> a(n, 'x'); const long at = n - 1; a[at] = (char)vp_int("c", -128, 127); a[0] = (char)vp_int("d", -128, 127); std::vector<std::vector<int> > v(300), v1; v[299].push_back((int)vp_int("v", -2147483648L, 2147483647L)); std::vector<double> p(600, 1.5), p1; p[599] = vp_anydouble("p");
  std::vector<char> buf, a1; serialize(a, buf); serialize(v, buf); serialize(p, buf); std::vector<char>::const_iterator it = buf.begin(); deserialize(a1, it, buf.end()); deserialize(v1, it, buf.end()); deserialize(p1, it, buf.end());
  vp_assert(it == buf.end() && a1.size() == (size_t)n && v1.size() == 300 && p1.size() == 600, "long vectors keep their size"); vp_assert(a1[at] == a[at] && a1[0] == a[0] && v1[299].size() == 1 && v1[299][0] == v[299][0] && v1[0].empty() && sameBits(p1[599], p[599]), "first and last elements of long vectors round trip"); vp_cover("end"); vp_obs(a1[at]);
}
