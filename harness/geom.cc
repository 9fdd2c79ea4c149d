// Geometric primitives
#include "util.hh"
#include "polytope.hh"
#include "polytope_geometric_utilities.hh"
using namespace polytope; using namespace polytope::geometry;
#ifndef VPR
#define VPR 4
#endif
static double absd(double x) { return x < 0 ? -x : x; }
static const int SEG[][4] = {{0,0,4,0}, {2,0,2,4}, {0,0,4,4}, {3,1,1,4}, {0,3,4,2}, {2,2,2,2}};
// segmentIntersection2D: one segment from a list, the other anywhere on the lattice, either order
extern "C" void h_seg() {
  const int k = vp_len("k", 0, 5); const bool sw = vp_conc(vp_bool("swap")); const double a[2] = {(double)SEG[k][0], (double)SEG[k][1]}, b[2] = {(double)SEG[k][2], (double)SEG[k][3]}, c[2] = {G("cx", 0, VPR + 2), G("cy", 0, VPR + 2)}, d[2] = {G("dx", 0, VPR + 2), G("dy", 0, VPR + 2)}; double r[2] = {-77, -77};
  const bool hit = sw ? segmentIntersection2D<double>(c, d, a, b, r) : segmentIntersection2D<double>(a, b, c, d, r);
  const double o1 = (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]), o2 = (b[0]-a[0])*(d[1]-a[1]) - (b[1]-a[1])*(d[0]-a[0]), o3 = (d[0]-c[0])*(a[1]-c[1]) - (d[1]-c[1])*(a[0]-c[0]), o4 = (d[0]-c[0])*(b[1]-c[1]) - (d[1]-c[1])*(b[0]-c[0]);
  const bool par = o1 == o2, want = !par && ((o1 <= 0) & (o2 >= 0) | (o1 >= 0) & (o2 <= 0)) && ((o3 <= 0) & (o4 >= 0) | (o3 >= 0) & (o4 <= 0));
  vp_assert(hit == want, "non-parallel segments intersect exactly when they share a point");
  if (hit) { vp_cover("hit"); const double e1 = (b[0]-a[0])*(r[1]-a[1]) - (b[1]-a[1])*(r[0]-a[0]), e2 = (d[0]-c[0])*(r[1]-c[1]) - (d[1]-c[1])*(r[0]-c[0]); vp_assert(absd(e1) < 1e-9 && absd(e2) < 1e-9, "intersection lies on both segments");
    if (o1 == 0) vp_assert(r[0] == c[0] && r[1] == c[1] || o3 == 0 || o4 == 0, "an end point on the other segment is returned exactly"); }
  else { vp_assert(r[0] == -77 && r[1] == -77, "result untouched without an intersection"); vp_cover("miss"); }
  vp_obs(hit);
}
extern "C" void h_closest() {
  const double s1[2] = {1, 2}, s2[2] = {G("x", -VPR, VPR), G("y", -VPR, VPR)}, p[2] = {G("px", -VPR, VPR + 1), G("py", -VPR, VPR + 1)}; double r[2] = {-99, -99}; closestPointOnSegment2D<double>(p, s1, s2, r);
  const double ex = s2[0] - s1[0], ey = s2[1] - s1[1], L = ex*ex + ey*ey, t = (p[0]-s1[0])*ex + (p[1]-s1[1])*ey; double wx, wy;
  if (t <= 0 || L == 0) { wx = s1[0]; wy = s1[1]; } else if (t >= L) { wx = s2[0]; wy = s2[1]; } else { wx = s1[0] + t*ex/L; wy = s1[1] + t*ey/L; }
  vp_assert(absd(r[0] - wx) < 1e-9 && absd(r[1] - wy) < 1e-9, "closest point of the segment"); vp_cover("end");
}
static const double DIR[][3] = {{1,0,0}, {-1,0,0}, {0,1,0}, {0,-1,0}, {0,0,1}, {0,0,-1}, {0.6,0.8,0}, {0,-0.6,0.8}, {0.8,0,-0.6}};
extern "C" void h_rayplane() {
  const int i = vp_len("n", 0, 8), j = vp_len("m", 0, 8); const double p[3] = {G("px", 0, VPR), G("py", 0, VPR), G("pz", 0, VPR)}, q[3] = {G("qx", 0, 2), G("qy", 0, 2), G("qz", 0, 2)}, *n = DIR[i], *m = DIR[j]; double r[3] = {-77, -77, -77};
  const bool hit = rayPlaneIntersection<double>(p, n, q, m, 1e-10, r); const double nm = n[0]*m[0] + n[1]*m[1] + n[2]*m[2], h = (q[0]-p[0])*m[0] + (q[1]-p[1])*m[1] + (q[2]-p[2])*m[2];
  const bool par = nm < 1e-10 && nm > -1e-10, in = absd(h) < 1e-9; const bool want = par ? in : (nm > 0 ? h >= -1e-9 : h <= 1e-9);
  if (par || !in) vp_assert(hit == want, "the ray meets the plane exactly when it does");   // origin on the plane up to rounding: either answer of a zero-length ray
  if (hit) { vp_cover("hit"); const double e = (q[0]-r[0])*m[0] + (q[1]-r[1])*m[1] + (q[2]-r[2])*m[2], d[3] = {r[0]-p[0], r[1]-p[1], r[2]-p[2]}; vp_assert(absd(e) < 1e-9, "result on the plane"); vp_assert(absd(d[1]*n[2]-d[2]*n[1]) < 1e-9 && absd(d[2]*n[0]-d[0]*n[2]) < 1e-9 && absd(d[0]*n[1]-d[1]*n[0]) < 1e-9 && d[0]*n[0]+d[1]*n[1]+d[2]*n[2] > -1e-9, "result on the ray"); }
  else vp_cover("miss");
}
// from a point in or on the box the ray meets the box's boundary where it leaves
extern "C" void h_raybox() {
  const int i = vp_len("n", 0, 8); double p[3] = {G("px", 1, 5), G("py", 1, 5), G("pz", 1, 5)}, n[3] = {DIR[i][0], DIR[i][1], DIR[i][2]}, lo[3] = {0, 0, 0}, hi[3] = {6, 7, 8}, r[3] = {-77, -77, -77};
  const int k = rayBoxIntersection<double>(p, n, lo, hi, 1e-10, r); double t = 1e30; for (int j = 0; j < 3; ++j) { if (n[j] > 0) t = std::min(t, (hi[j] - p[j]) / n[j]); if (n[j] < 0) t = std::min(t, (lo[j] - p[j]) / n[j]); }
  vp_assert(k >= 0 && k < 6, "a ray from inside the box hits it"); for (int j = 0; j < 3; ++j) vp_assert(absd(r[j] - p[j] - t * n[j]) < 1e-9, "hit is where the ray leaves the box");
  const int c = vp_conc(k); vp_assert(absd(r[c / 2] - (c % 2 ? hi[c / 2] : lo[c / 2])) < 1e-9, "hit lies on the plane named"); vp_cover("end"); vp_obs(k);
}
extern "C" void h_raysphere() {
  const int i = vp_len("n", 0, 8); double p[3] = {G("px", -3, 3), G("py", -3, 3), G("pz", -3, 3)}, c[3] = {G("cx", -2, 2), 1, G("cz", -2, 2)}, r[3] = {-77, -77, -77}; const double R = 4; const double d2 = (p[0]-c[0])*(p[0]-c[0]) + (p[1]-c[1])*(p[1]-c[1]) + (p[2]-c[2])*(p[2]-c[2]); vp_assume(d2 <= R * R);
  vp_assert(raySphereIntersection<double>(p, DIR[i], c, R, 1e-8, r), "a ray from inside the sphere hits it"); const double* n = DIR[i]; const double d[3] = {r[0]-p[0], r[1]-p[1], r[2]-p[2]}, t = d[0]*n[0] + d[1]*n[1] + d[2]*n[2];
  vp_assert(absd((r[0]-c[0])*(r[0]-c[0]) + (r[1]-c[1])*(r[1]-c[1]) + (r[2]-c[2])*(r[2]-c[2]) - R*R) < 1e-6, "hit on the sphere"); for (int j = 0; j < 3; ++j) vp_assert(absd(d[j] - t*n[j]) < 1e-9, "hit on the ray's line"); vp_assert(t > -1e-9, "hit ahead of the origin"); vp_cover("end");
}
static const double DIR2[][2] = {{1,0}, {-1,0}, {0,1}, {0,-1}, {0.6,0.8}, {-0.8,0.6}, {-0.6,-0.8}};
extern "C" void h_raycircle() {
  const int i = vp_len("n", 0, 6); double p[2] = {G("px", -6, 6), G("py", -6, 6)}, c[2] = {G("cx", -3, 3), G("cy", -3, 3)}, r[2] = {-77, -77}; const double R = 5; const double d2 = (p[0]-c[0])*(p[0]-c[0]) + (p[1]-c[1])*(p[1]-c[1]), *n = DIR2[i];
  vp_assert(rayCircleIntersection<double>(p, n, c, R, 1e-8, r), "always an answer"); const double d[2] = {r[0]-p[0], r[1]-p[1]}, t = d[0]*n[0] + d[1]*n[1];
  if (d2 > R*R) { vp_assert(r[0] == p[0] && r[1] == p[1], "outside the circle the origin is returned"); vp_cover("outside"); }
  else { vp_assert(absd((r[0]-c[0])*(r[0]-c[0]) + (r[1]-c[1])*(r[1]-c[1]) - R*R) < 1e-6, "hit on the circle"); vp_assert(absd(d[0] - t*n[0]) < 1e-9 && absd(d[1] - t*n[1]) < 1e-9 && t > -1e-9, "hit on the ray"); vp_cover("inside"); }
}
template <int D> static void between_(int R) {
  double a[D], b[D], c[D]; for (int k = 0; k < D; ++k) { a[k] = D == 2 ? G("a", 0, 3) : 1; b[k] = G("b", 0, R); c[k] = G("c", 0, R); } double ab = 0, ac = 0, bc = 0, in = 0, cr = 0;
  for (int k = 0; k < D; ++k) { ab += (b[k]-a[k])*(b[k]-a[k]); ac += (c[k]-a[k])*(c[k]-a[k]); bc += (c[k]-b[k])*(c[k]-b[k]); in += (b[k]-a[k])*(c[k]-a[k]); } cr = ab*ac - in*in;
  const bool want = cr == 0 && in >= 0 && in <= ab && (ab > 0 || ac == 0); vp_assert(between<D, double>(a, b, c, 1e-10) == want, "between is true exactly on the closed segment");
  vp_assert(collinear<D, double>(a, b, c, 1e-10) == (cr == 0), "collinear exactly when the three points lie on one line"); if (want) vp_cover("in"); else vp_cover("out");
}
extern "C" void h_between2() { between_<2>(4); }
extern "C" void h_between3() { between_<3>(VPR); }
template <int D> static void cloud() {
  const long n = vp_len("n", 1, 4); std::vector<double> p; for (long i = 0; i < n; ++i) for (int k = 0; k < D; ++k) p.push_back(i == 0 ? 1 : G("p", 0, D == 2 ? 3 : 2)); 
  bool want = true; for (long i = 1; i < n; ++i) for (long j = 1; j < i; ++j) for (int k = 0; k < D; ++k) for (int l = 0; l < k; ++l) want &= (p[D*i+k]-p[k])*(p[D*j+l]-p[l]) == (p[D*i+l]-p[l])*(p[D*j+k]-p[k]);
  vp_assert(collinear<D, double>(p, 1e-10) == want, "cloud is collinear exactly when all its points lie on one line"); if (want) vp_cover("line"); else vp_cover("not");
}
extern "C" void h_cloud2() { cloud<2>(); }
extern "C" void h_cloud3() { cloud<3>(); }
// circumcentres: equidistant from the points (and coplanar)
extern "C" void h_circum2() {
  double A[2] = {G("ax", 0, VPR), G("ay", 0, VPR)}, B[2] = {G("bx", 0, VPR), G("by", 0, VPR)}, C[2] = {G("cx", 0, VPR), G("cy", 0, VPR)}, X[2], Y[2]; const double D = (B[0]-A[0])*(C[1]-A[1]) - (B[1]-A[1])*(C[0]-A[0]); vp_assume(D != 0);
  computeCircumcenter2d(A, B, C, X); const double a = (X[0]-A[0])*(X[0]-A[0]) + (X[1]-A[1])*(X[1]-A[1]), b = (X[0]-B[0])*(X[0]-B[0]) + (X[1]-B[1])*(X[1]-B[1]), c = (X[0]-C[0])*(X[0]-C[0]) + (X[1]-C[1])*(X[1]-C[1]); vp_assert(absd(a - b) < 1e-8 && absd(a - c) < 1e-8, "circumcenter equidistant from the three points");
  computeCircumcenter(A, B, C, Y); vp_assert(absd(X[0] - Y[0]) < 1e-9 && absd(X[1] - Y[1]) < 1e-9, "both 2D circumcenters agree");
  computeTriangleCentroid2d(A, B, C, X); vp_assert(absd(3*X[0] - A[0]-B[0]-C[0]) < 1e-9 && absd(3*X[1] - A[1]-B[1]-C[1]) < 1e-9, "triangle centroid is the mean"); vp_assert(absd(triangleVolume2<double>(A, B, C)) == absd(D) && triangleVolume2<double>(A, C, B) == -triangleVolume2<double>(A, B, C), "triangle area is signed and doubled");
  vp_assert(computeSquaredNorm(A) == A[0]*A[0] + A[1]*A[1], "squared norm"); vp_assert(distance<2, double>(A, B) >= 0 && absd(distance<2, double>(A, B) * distance<2, double>(A, B) - ((A[0]-B[0])*(A[0]-B[0]) + (A[1]-B[1])*(A[1]-B[1]))) < 1e-9, "distance"); vp_cover("end");
}
static double d3(const double* a, const double* b) { return (a[0]-b[0])*(a[0]-b[0]) + (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2]); }
extern "C" void h_circum3() {
  const int s = vp_len("s", 0, 2); double A[3] = {1, 0, s == 1 ? 2. : 0.}, B[3] = {s == 2 ? 4. : 3., 1, 0}, C[3] = {G("cx", 0, VPR), G("cy", 0, VPR), G("cz", 0, VPR)}, D[3] = {G("dx", 0, VPR), G("dy", 0, VPR), G("dz", 0, VPR)}, X[3];
  const double u[3] = {B[0]-A[0], B[1]-A[1], B[2]-A[2]}, v[3] = {C[0]-A[0], C[1]-A[1], C[2]-A[2]}, w[3] = {D[0]-A[0], D[1]-A[1], D[2]-A[2]}, n[3] = {u[1]*v[2]-u[2]*v[1], u[2]*v[0]-u[0]*v[2], u[0]*v[1]-u[1]*v[0]}, vol = n[0]*w[0] + n[1]*w[1] + n[2]*w[2];
  const double t6 = tetrahedralVolume6<double>(A, B, C, D); double v6, cen[3], cc[3]; tetrahedralVolumeAndCentroid6<double>(A, B, C, D, v6, cen); computeTetCentroid(A, B, C, D, cc);
  vp_assert(absd(t6) == absd(vol) && t6 == v6 && t6 == -tetrahedralVolume6<double>(A, C, B, D), "tetrahedron volume is signed and six-fold"); for (int k = 0; k < 3; ++k) vp_assert(4*cen[k] == A[k]+B[k]+C[k]+D[k] && cc[k] == cen[k], "tetrahedron centroid is the mean");
  if (vol != 0) { computeCircumcenter3d(A, B, C, D, X); const double a = d3(X, A); vp_assert(absd(a - d3(X, B)) < 1e-6 && absd(a - d3(X, C)) < 1e-6 && absd(a - d3(X, D)) < 1e-6, "circumcenter equidistant from the four points"); vp_cover("tet"); }
  computeTriangleCentroid3d(A, B, C, X); for (int k = 0; k < 3; ++k) vp_assert(absd(3*X[k] - A[k]-B[k]-C[k]) < 1e-9, "triangle centroid is the mean"); vp_cover("end");
}
extern "C" void h_tricircum3() {
  double A[3] = {G("ax", 0, 3), 0, G("az", 0, 3)}, B[3] = {3, 1, G("bz", 0, 3)}, C[3] = {G("cx", 0, VPR), G("cy", 0, VPR), G("cz", 0, VPR)}, X[3]; const double u[3] = {B[0]-A[0], B[1]-A[1], B[2]-A[2]}, v[3] = {C[0]-A[0], C[1]-A[1], C[2]-A[2]}, n[3] = {u[1]*v[2]-u[2]*v[1], u[2]*v[0]-u[0]*v[2], u[0]*v[1]-u[1]*v[0]}; const bool deg = n[0] == 0 && n[1] == 0 && n[2] == 0;
  const bool ok = computeTriangleCircumcenter3d(A, B, C, X); vp_assert(ok == !deg, "circumcenter exists exactly when the points are not collinear"); if (ok) { const double a = d3(X, A); vp_assert(absd(a - d3(X, B)) < 1e-6 && absd(a - d3(X, C)) < 1e-6, "circumcenter equidistant from the three points"); vp_assert(absd(n[0]*(X[0]-A[0]) + n[1]*(X[1]-A[1]) + n[2]*(X[2]-A[2])) < 1e-6, "circumcenter in the plane of the triangle"); vp_cover("ok"); } else vp_cover("degenerate");
  double nx, ny, nz; computeNormal<double>(A[0], A[1], A[2], B[0], B[1], B[2], C[0], C[1], C[2], nx, ny, nz); vp_assert(nx == n[0] && ny == n[1] && nz == n[2], "normal is the cross product"); double m[3]; cross<3, double>(u, v, m); vp_assert(m[0] == n[0] && m[1] == n[1] && m[2] == n[2] && dot<3, double>(m, u) == 0, "cross product");
  if (!deg) { unitVector<3, double>(m); vp_assert(absd(m[0]*m[0] + m[1]*m[1] + m[2]*m[2] - 1) < 1e-9 && m[0]*n[0] + m[1]*n[1] + m[2]*n[2] > 0, "unit vector"); }
}
extern "C" void h_above() {
  const double l[4] = {G("ax", 0, 3), G("ay", 0, 3), G("bx", 0, 3), G("by", 0, 3)}; std::vector<double> p; const long n = vp_len("n", 1, 2); for (long i = 0; i < 2 * n; ++i) p.push_back(G("p", 0, 3)); int want[2]; for (long i = 0; i < n; ++i) { const double c = (l[2]-l[0])*(p[2*i+1]-l[1]) - (l[3]-l[1])*(p[2*i]-l[0]); want[i] = c > 0 ? -1 : c < 0 ? 1 : 0; }
  vp_assert(aboveBelow<double>(l[0], l[1], l[2], l[3], p[0], p[1]) == want[0], "side of a line"); vp_assert(aboveBelow<double>(l[0], l[1], l[2], l[3], p) == (n == 1 || want[0] == want[1] ? want[0] : 0), "cloud side of a line"); vp_cover("end");
}
extern "C" void h_above3() {
  const double o[3] = {G("ox", 0, 2), G("oy", 0, 2), G("oz", 0, 2)}; const int k = vp_len("k", 0, 2); const double n[3] = {1, k - 1., 2. * k}; std::vector<double> p; const long m = vp_len("n", 1, 2); for (long i = 0; i < 3 * m; ++i) p.push_back(G("p", 0, 2)); int want[2]; for (long i = 0; i < m; ++i) { const double c = n[0]*(p[3*i]-o[0]) + n[1]*(p[3*i+1]-o[1]) + n[2]*(p[3*i+2]-o[2]); want[i] = c < 0 ? -1 : c > 0 ? 1 : 0; }
  vp_assert(aboveBelow<double>(o[0], o[1], o[2], n[0], n[1], n[2], p[0], p[1], p[2]) == want[0], "side of a plane"); vp_assert(aboveBelow<double>(o[0], o[1], o[2], n[0], n[1], n[2], p) == (m == 1 || want[0] == want[1] ? want[0] : 0), "cloud side of a plane"); vp_cover("end");
}
