// Points, their order, maps to unique numbers, edges, dimension traits
#include "util.hh"
#include "polytope.hh"
#include "polytope_internal.hh"
#include "DimensionTraits.hh"
#include "Segment.hh"
using namespace polytope;
#ifndef VPK
#define VPK 4
#endif
template <class C> static C any(const char* n) { return (C)vp_int(n, sizeof(C) == 4 ? -2147483647L - 1 : -9223372036854775807L - 1, sizeof(C) == 4 ? 2147483647L : 9223372036854775807L); }
template <> double any<double>(const char* n) { return G(n, -1048576, 1048576, -4); }
template <class C> static Point2<C> p2(const char* n) { const C x = any<C>(n), y = any<C>(n); return Point2<C>(x, y, (unsigned)vp_int("index", 0, 9)); }
template <class C> static Point3<C> p3(const char* n) { const C x = any<C>(n), y = any<C>(n), z = any<C>(n); return Point3<C>(x, y, z, (unsigned)vp_int("index", 0, 9)); }
template <class P> static void order(const P& a, const P& b, const P& c, bool less, bool eq) {
  const bool ab = a < b, ba = b < a, bc = b < c, ac = a < c; vp_assert(ab == less, "points compare by x, then y, then z"); vp_assert((a == b) == eq && (a != b) == !eq, "points are equal exactly when their coordinates are");
  vp_assert(!(a < a) && a == a && !(ab & ba) && (ab | ba) == !eq && (!(ab & bc) || ac), "the order is strict and total"); vp_cover("end"); vp_obs(ab);
}
template <class C> static void ord2_() { const Point2<C> a = p2<C>("a"), b = p2<C>("b"), c = p2<C>("c"); order(a, b, c, a.x < b.x || a.x == b.x && a.y < b.y, a.x == b.x && a.y == b.y); }
template <class C> static void ord3_() { const Point3<C> a = p3<C>("a"), b = p3<C>("b"), c = p3<C>("c"); order(a, b, c, a.x < b.x || a.x == b.x && (a.y < b.y || a.y == b.y && a.z < b.z), a.x == b.x && a.y == b.y && a.z == b.z); }
extern "C" void h_ord2() { ord2_<int>(); }
extern "C" void h_ord3() { ord3_<int>(); }
extern "C" void h_ord2l() { ord2_<int64_t>(); }
extern "C" void h_ord3l() { ord3_<int64_t>(); }
extern "C" void h_seg() { typedef Segment<2> S; const int k = 3; S s[k]; for (int i = 0; i < k; ++i) { const int a = vp_int("x0", -2, 2), b = vp_int("y0", -2, 2), c = vp_int("x1", -2, 2), d = vp_int("y1", -2, 2); s[i] = S(a, b, c, d); vp_assert(s[i].a.x == a && s[i].a.y == b && s[i].b.x == c && s[i].b.y == d, "a segment keeps its ends"); }
  const S& a = s[0]; const S& b = s[1]; const bool eq = a.a.x == b.a.x && a.a.y == b.a.y && a.b.x == b.b.x && a.b.y == b.b.y; order(a, b, s[2], a.a < b.a || a.a == b.a && a.b < b.b, eq); }
// arithmetic is by component and keeps the left operand's index
template <class C> static void arith_(long R, long M) {
  const Point2<C> a((C)vp_int("ax", -R, R), (C)vp_int("ay", -R, R), 5u), b((C)vp_int("bx", -R, R), (C)vp_int("by", -R, R), 6u); const C s = (C)vp_int("s", 1, M) * (vp_conc(vp_bool("neg")) ? -1 : 1);
  Point2<C> t = a + b, u = a - b, n = -a, v(a), w(a), m(a), q(a), ml = a * s, dv = a / s; v += b; w -= b; m *= s; q /= s;
  vp_assert(t.x == a.x + b.x && t.y == a.y + b.y && v.x == t.x && v.y == t.y, "2D sum"); vp_assert(u.x == a.x - b.x && u.y == a.y - b.y && w.x == u.x && w.y == u.y, "2D difference"); vp_assert(n.x == -a.x && n.y == -a.y, "2D negation");
  vp_assert(ml.x == a.x * s && ml.y == a.y * s && m.x == ml.x && m.y == ml.y, "2D product"); vp_assert(dv.x == a.x / s && dv.y == a.y / s && q.x == dv.x && q.y == dv.y, "2D quotient"); vp_assert(t.index == 5 && u.index == 5 && v.index == 5 && ml.index == 5 && dv.index == 5, "2D index kept");
  vp_assert(a[0] == a.x && a[1] == a.y, "2D subscript"); v[0] = b.y; v[1] = b.x; vp_assert(v.x == b.y && v.y == b.x, "2D subscript assigns"); vp_cover("end"); vp_obs(t.x > 0);
}
template <class C> static void arith3_(long R, long M) {
  const Point3<C> a((C)vp_int("ax", -R, R), (C)vp_int("ay", -R, R), (C)vp_int("az", -R, R), 5u), b((C)vp_int("bx", -R, R), (C)vp_int("by", -R, R), (C)vp_int("bz", -R, R), 6u); const C s = (C)vp_int("s", 1, M) * (vp_conc(vp_bool("neg")) ? -1 : 1);
  Point3<C> t = a + b, u = a - b, n = -a, v(a), w(a), m(a), q(a), ml = a * s, dv = a / s; v += b; w -= b; m *= s; q /= s;
  vp_assert(t.x == a.x + b.x && t.y == a.y + b.y && t.z == a.z + b.z && v == t, "3D sum"); vp_assert(u.x == a.x - b.x && u.y == a.y - b.y && u.z == a.z - b.z && w == u, "3D difference"); vp_assert(n.x == -a.x && n.y == -a.y && n.z == -a.z, "3D negation");
  vp_assert(ml.x == a.x * s && ml.y == a.y * s && ml.z == a.z * s && m == ml, "3D product"); vp_assert(dv.x == a.x / s && dv.y == a.y / s && dv.z == a.z / s && q == dv, "3D quotient"); vp_assert(t.index == 5 && u.index == 5 && v.index == 5 && ml.index == 5 && dv.index == 5, "3D index kept");
  vp_assert(a[0] == a.x && a[1] == a.y && a[2] == a.z, "3D subscript"); v[2] = b.x; vp_assert(v.z == b.x, "3D subscript assigns"); vp_cover("end"); vp_obs(t.x > 0);
}
extern "C" void h_arith2() { arith_<int>(32767, 7); }
extern "C" void h_arith3() { arith3_<int>(32767, 7); }
// an integer point made from real coordinates is the nearest one; its real position leads back to it
extern "C" void h_real() {
  const int e = vp_len("spacing", 0, 2); const double dx = e == 0 ? 1 : e == 1 ? 0.25 : 8, L = G("low", -1048576, 1048576), s = dx / 4, x = L + s * vp_grid("x", 0, 1L << 32, 0), y = L - 1 + s * vp_grid("y", 0, 1L << 32, 0), z = L + 1 + s * vp_grid("z", 0, 1L << 32, 0);
  const Point2<int> p(x, y, L, L - 1, dx, 7); const Point3<int> q(x, y, z, L, L - 1, L + 1, dx, 8); vp_assert(p.index == 7 && q.index == 8, "index kept"); vp_assert(p.x == q.x && p.y == q.y, "2D and 3D agree");
  const double rx = p.realx(L, dx), ry = p.realy(L - 1, dx), rz = q.realz(L + 1, dx); vp_assert(2 * (rx - x) <= dx && 2 * (x - rx) <= dx && 2 * (ry - y) <= dx && 2 * (y - ry) <= dx && 2 * (rz - z) <= dx && 2 * (z - rz) <= dx, "within half a spacing");
  vp_assert(q.realx(L, dx) == rx && q.realy(L - 1, dx) == ry, "2D and 3D positions agree"); const Point2<int> p2(rx, ry, L, L - 1, dx), p3(rx - L, ry - (L - 1), dx, 3u); vp_assert(p2 == p && p3 == p && p3.index == 3, "real positions lead back to the point"); const Point3<int> q2(rx, ry, rz, L, L - 1, L + 1, dx), q3(rx - L, ry - (L - 1), rz - (L + 1), dx, 4u); vp_assert(q2 == q && q3 == q && q3.index == 4, "real positions lead back to the 3D point"); vp_cover("end");
}
// comparison with some fuzz
extern "C" void h_fuzz() {
  const int f = vp_int("fuzz", 0, 5); PointComparator<int> c(f); const int R = 1 << 29; const Point3<int> a((int)vp_int("ax", -R, R), (int)vp_int("ay", -R, R), (int)vp_int("az", -R, R)), b((int)vp_int("bx", -R, R), (int)vp_int("by", -R, R), (int)vp_int("bz", -R, R)); const Point2<int> a2(a.x, a.y), b2(b.x, b.y);
  const int dx = b.x - a.x, dy = b.y - a.y, dz = b.z - a.z; const bool sx = dx <= f & dx >= -f, sy = dy <= f & dy >= -f;
  vp_assert(c(a2, b2) == (dx > f | sx & dy > f), "2D fuzzy order"); vp_assert(c(a, b) == (dx > f | sx & dy > f | sx & sy & dz > f), "3D fuzzy order"); vp_assert(!c(a, a) && !(c(a, b) && c(b, a)) && !(c(a2, b2) && c(b2, a2)), "fuzzy order is asymmetric"); vp_cover("end");
}
extern "C" void h_maps() {
  const int n = vp_len("keys", 1, VPK); std::map<int, int> m; std::map<std::pair<int, int>, int> em; internal::CounterMap<unsigned> cm; std::vector<int> k, l; std::vector<int> id, eid;
  for (int i = 0; i < n; ++i) { k.push_back((int)vp_int("key", 0, VPK)); l.push_back((int)vp_int("other", 0, 2)); vp_assume(k[i] != l[i]); id.push_back(internal::addKeyToMap(k[i], m)); eid.push_back(internal::addKeyToMap(internal::hashEdge(k[i], l[i]), em)); ++cm[(unsigned)k[i]]; }
  int next = 0, enext = 0; for (int i = 0; i < n; ++i) { int f = -1, ef = -1, cnt = 0; for (int j = n - 1; j >= 0; --j) { if (k[j] == k[i]) { cnt += 1; } if (j < i && k[j] == k[i]) f = id[j]; if (j < i && (k[j] == k[i] && l[j] == l[i] || k[j] == l[i] && l[j] == k[i])) ef = eid[j]; }
    if (f < 0) f = next++; if (ef < 0) ef = enext++; vp_assert(id[i] == f, "a key gets the next number once"); vp_assert(eid[i] == ef, "an edge has one number whichever way round"); vp_assert((int)cm[(unsigned)k[i]] == cnt, "counters count from zero"); }
  vp_assert((int)m.size() == next && (int)em.size() == enext && (int)cm.size() == next, "no other keys"); vp_cover("end"); vp_obs(next);
}
extern "C" void h_pairs() {
  typedef std::pair<int, int> E; const E a(any<int>("a"), any<int>("b")), b(any<int>("c"), any<int>("d")); vp_assert(internal::pairCompare(a, b) == (a.first < b.first || a.first == b.first && a.second < b.second), "pairs compare by first, then second");
  vp_assert((internal::ComparePairByFirstElement<int, int>()(a, b)) == (a.first < b.first) && (internal::ComparePairBySecondElement<int, int>()(a, b)) == (a.second < b.second), "pairs compare by one element"); vp_assume(a.first != a.second); const E h = internal::hashEdge(a.first, a.second), g = internal::hashEdge(a.second, a.first);
  vp_assert(h == g && h.first < h.second && (h == a || h.first == a.second && h.second == a.first), "an edge is its two ends in order"); const int p = internal::positiveID(a.first); vp_assert(p >= 0 && (p == a.first || p == ~a.first), "the positive number of a face"); vp_cover("end");
}
// dimension traits
extern "C" void h_traits() {
  typedef DimensionTraits<2, double> T2; typedef DimensionTraits<3, double> T3; std::vector<double> all; std::vector<unsigned> idx; for (int i = 0; i < 9; ++i) all.push_back(vp_anydouble("coord"));
  const int n = vp_len("indices", 0, 3); for (int i = 0; i < n; ++i) idx.push_back((unsigned)vp_int("index", 0, 2)); const std::vector<double> r2 = T2::extractCoords(all, idx), r3 = T3::extractCoords(all, idx); vp_assert((int)r2.size() == 2*n && (int)r3.size() == 3*n, "one point for every index");
  for (int i = 0; i < n; ++i) { const int c = vp_conc((int)idx[i]); vp_assert(sameBits(r2[2*i], all[2*c]) && sameBits(r2[2*i+1], all[2*c+1]) && sameBits(r3[3*i], all[3*c]) && sameBits(r3[3*i+1], all[3*c+1]) && sameBits(r3[3*i+2], all[3*c+2]), "the coordinates asked for, in order"); } vp_cover("end");
}
extern "C" void h_length() {
  double lo[3], hi[3]; for (int i = 0; i < 3; ++i) { lo[i] = G("low", -1048576, 1048576); hi[i] = lo[i] + G("size", 0, 1048576); } const double m2 = DimensionTraits<2, double>::maxLength(lo, hi), m3 = DimensionTraits<3, double>::maxLength(lo, hi); const double a = hi[0]-lo[0], b = hi[1]-lo[1], c = hi[2]-lo[2];
  vp_assert(m2 >= a && m2 >= b && (m2 == a || m2 == b), "the longest side in 2D"); vp_assert(m3 >= a && m3 >= b && m3 >= c && (m3 == a || m3 == b || m3 == c), "the longest side in 3D");
  // the hull of one point, a segment, a polygon, a solid
  typedef ReducedPLC<2, double> H2; typedef ReducedPLC<3, double> H3; H2 h; h.facets.resize(1, std::vector<int>(2)); const int i = vp_int("i", 0, 3), j = vp_int("j", 0, 3); h.facets[0][0] = i; h.facets[0][1] = j; vp_assert((DimensionTraits<2, double>::hullDimension(h)) == (i == j ? 0 : 1), "one facet: a point or a segment"); h.facets.resize(3, std::vector<int>(2)); vp_assert((DimensionTraits<2, double>::hullDimension(h)) == 2, "more facets: a polygon");
  H3 k; k.facets.resize(1, std::vector<int>(2)); k.facets[0][0] = i; k.facets[0][1] = j; vp_assert((DimensionTraits<3, double>::hullDimension(k)) == (i == j ? 0 : 1), "one facet in 3D: a point or a segment"); const int nf = vp_len("facets", 3, 4), big = vp_len("big", -1, nf - 1); k.facets.resize(nf, std::vector<int>(2)); if (big >= 0) k.facets[big].resize(3); vp_assert((DimensionTraits<3, double>::hullDimension(k)) == (big >= 0 ? 3 : 2), "edges only: a polygon, otherwise a solid"); vp_cover("end");
}
extern "C" void h_centroid() {
  const double dx = 0.5, lo[3] = {-4, 2, 1}; Tessellation<2, double> m; Tessellation<3, double> t; m.faces.resize(1); t.faces.resize(1); for (int i = 0; i < 2; ++i) { m.faces[0].push_back(1 - i); m.nodes.push_back(lo[0] + G("x", 0, 2097152, -2)); m.nodes.push_back(lo[1] + G("y", 0, 2097152, -2)); }
  const DimensionTraits<2, double>::IntPoint p = DimensionTraits<2, double>::faceCentroid(m, 0, lo, dx); double c[3]; for (int j = 0; j < 2; ++j) { c[j] = ((m.nodes[j] + m.nodes[2+j]) / 2 - lo[j]) / dx; const double d = p[j] - c[j]; vp_assert(d <= 1.5 && d >= -1.5, "2D centroid within rounding"); } vp_assert(p.index == 0, "named after the face");
  const int n = 4; double s[3] = {0, 0, 0}; for (int i = 0; i < n; ++i) { t.faces[0].push_back(n - 1 - i); for (int j = 0; j < 3; ++j) { t.nodes.push_back(lo[j] + G("z", 0, 2097152, -2)); s[j] += t.nodes.back(); } } const DimensionTraits<3, double>::IntPoint q = DimensionTraits<3, double>::faceCentroid(t, 0, lo, dx);
  for (int j = 0; j < 3; ++j) { const double d = q[j] - (s[j] / n - lo[j]) / dx; vp_assert(d <= 0.5 && d >= -0.5, "3D centroid within rounding"); } vp_cover("end");
}
