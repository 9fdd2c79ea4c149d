#include "util.hh"
#include "polytope.hh"
#include "convexHull_2d.hh"
#include "convexHull_3d.hh"
using namespace polytope;
#ifndef VPN
#define VPN 4
#endif
#ifndef VPR
#define VPR 7
#endif
static double cr(const std::vector<double>& p, int a, int b, int c) { return (p[2*b] - p[2*a]) * (p[2*c+1] - p[2*a+1]) - (p[2*b+1] - p[2*a+1]) * (p[2*c] - p[2*a]); }
// N points anywhere on the (R+1)x(R+1) lattice; tolerance 2^-26, far below the lattice spacing
extern "C" void h_hull2() {
  std::vector<double> p; double low[2] = {0, 0}; const double dx = 1.0 / (1 << 26);
  for (int i = 0; i < VPN; ++i) { p.push_back(G("x", 0, VPR)); p.push_back(G("y", 0, VPR)); }
  const std::vector<double> q(p); PLC<2, double> h = convexHull_2d<double>(p, low, dx);
  vp_assert(eqv(p, q), "input points unchanged"); vp_assert(h.holes.empty(), "no holes");
  const int nf = h.facets.size(); vp_assert(nf >= 1, "hull has a facet");
  for (int f = 0; f < nf; ++f) { vp_assert(h.facets[f].size() == 2, "facets join two points"); for (int k = 0; k < 2; ++k) vp_assert(h.facets[f][k] >= 0 && h.facets[f][k] < VPN, "facets index the input points"); }
  if (nf == 1) {
    const int a = h.facets[0][0], b = h.facets[0][1];
    for (int i = 0; i < VPN; ++i) { vp_assert(cr(p, a, b, i) == 0, "one-segment hull only for collinear points"); const double t = (p[2*i] - p[2*a]) * (p[2*b] - p[2*a]) + (p[2*i+1] - p[2*a+1]) * (p[2*b+1] - p[2*a+1]), l = (p[2*b] - p[2*a]) * (p[2*b] - p[2*a]) + (p[2*b+1] - p[2*a+1]) * (p[2*b+1] - p[2*a+1]); vp_assert(t >= 0 && t <= l, "segment spans all the points"); if (l == 0) vp_assert(p[2*i] == p[2*a] && p[2*i+1] == p[2*a+1], "single-point hull only for coincident points"); }
    if (p[2*a] == p[2*b] && p[2*a+1] == p[2*b+1]) vp_cover("coincident"); else vp_cover("collinear");
  } else {
    vp_assert(nf >= 3, "two-dimensional hull has three facets"); vp_cover("area");
    for (int f = 0; f < nf; ++f) {
      const int a = h.facets[f][0], b = h.facets[f][1], c = h.facets[(f + 1) % nf][1]; vp_assert(b == h.facets[(f + 1) % nf][0], "facets form one closed loop"); vp_assert(cr(p, a, b, c) > 0, "hull turns strictly left at every vertex");
      for (int i = 0; i < VPN; ++i) vp_assert(cr(p, a, b, i) >= 0, "every input point on the inner side of every facet");
      for (int g = 0; g < f; ++g) vp_assert(h.facets[g][0] != a, "each hull point used once");
    }
  }
  vp_obs(nf); for (int f = 0; f < nf; ++f) vp_obs(h.facets[f][0]);
}
