#include "util.hh"
#include "polytope.hh"
#include "QuantizedTessellation2d.hh"
#include "QuantizedTessellation3d.hh"
#include "mpim.h"
using namespace polytope;
typedef QuantizedTessellation2d<int, double> Q2; typedef QuantizedTessellation3d<int, double> Q3;
// The box length is 2^31-1 quanta of exactly 2^-27 (3D: 2^-n so that the quantum is a power of two), so real
// coordinates on a lattice of a quarter quantum quantize without rounding and the oracle is exact.
#ifndef VPN
#define VPN 2
#endif
static double ad(double x) { return x < 0 ? -x : x; }
static double p2(int k) { double r = 1; while (k > 0) { r *= 2; --k; } while (k < 0) { r /= 2; ++k; } return r; }
// box given explicitly, arbitrary points on the quarter-quantum lattice within it
extern "C" void h_q2() {
  const double ext = (double)Q2::coordMax - (double)Q2::coordMin; const long E = (long)ext; const double L = ext * p2(-27), dx = p2(-27);
  double lo[2] = {G("lox", -8, 8), G("loy", -8, 8)}; const long shorter = vp_len("shape", 0, 2);
  double hi[2] = {lo[0] + (shorter == 1 ? 4 : L), lo[1] + (shorter == 2 ? 4 : L)};
  std::vector<double> pts; double off[VPN][2];
  for (int i = 0; i < VPN; ++i) { off[i][0] = G("px", 0, shorter == 1 ? (4L << 29) : 4 * E, -29); off[i][1] = G("py", 0, shorter == 2 ? (4L << 29) : 4 * E, -29); pts.push_back(lo[0] + off[i][0]); pts.push_back(lo[1] + off[i][1]); }
  Q2 q(pts, lo, hi);
  vp_assert(q.generators.size() == VPN, "one quantized generator per point"); vp_assert(q.length == L, "length is the longest side");
  int ix[VPN][2];
  for (int i = 0; i < VPN; ++i) {
    vp_assert(q.generators[i].index == (unsigned)i, "generator keeps its index");
    q.quantize(&pts[2 * i], ix[i]); vp_assert(ix[i][0] == q.generators[i].x && ix[i][1] == q.generators[i].y, "generators are the quantized points");
    double back[2]; q.dequantize(ix[i], back);
    for (int k = 0; k < 2; ++k) { vp_assert(ix[i][k] >= Q2::coordMin && ix[i][k] <= Q2::coordMax, "quantized coordinate in range"); vp_assert(ad(back[k] - pts[2 * i + k]) <= dx, "round trip within one quantum"); }
    vp_obs(ix[i][0]); vp_obs(ix[i][1]);
  }
  if (VPN > 1) for (int k = 0; k < 2; ++k) {
    if (off[0][k] + dx <= off[1][k]) { vp_assert(ix[0][k] < ix[1][k], "coordinates a quantum apart stay distinct and ordered"); vp_cover("less"); }
    if (off[0][k] <= off[1][k]) vp_assert(ix[0][k] <= ix[1][k], "quantization is monotone");
    if (off[0][k] == off[1][k]) { vp_assert(ix[0][k] == ix[1][k], "equal coordinates quantize equally"); vp_cover("equal"); }
  }
  // guard generators: on the edge of the integer box, every corner covered, numbered after the generators
  bool corner[4] = {0, 0, 0, 0};
  for (size_t i = 0; i < q.guardGenerators.size(); ++i) {
    int x = q.guardGenerators[i].x, y = q.guardGenerators[i].y; bool ex = x <= Q2::coordMin + 2 || x >= Q2::coordMax - 2, ey = y <= Q2::coordMin + 2 || y >= Q2::coordMax - 2;
    vp_assert(x >= Q2::coordMin && x <= Q2::coordMax && y >= Q2::coordMin && y <= Q2::coordMax, "guard in range"); vp_assert(ex || ey, "guard on the edge"); vp_assert(q.guardGenerators[i].index == VPN + i, "guard numbered after generators");
    if (ex && ey) corner[(x > 0) + 2 * (y > 0)] = true;
  }
  vp_assert(corner[0] && corner[1] && corner[2] && corner[3], "guards at all four corners");
}
extern "C" void h_q3() {
  const double ext = (double)Q3::coordMax - (double)Q3::coordMin; const long E = (long)ext; int sh = 0; while (p2(sh) * 16 < ext) ++sh; const double L = ext * p2(-sh), dx = p2(-sh);
  double lo[3] = {G("lox", -4, 4), G("loy", -4, 4), G("loz", -4, 4)}, hi[3] = {lo[0] + L, lo[1] + L, lo[2] + L};
  std::vector<double> pts; double off[2][3]; for (int i = 0; i < 2; ++i) for (int k = 0; k < 3; ++k) { off[i][k] = G("p", 0, 4 * E, -sh - 2); pts.push_back(lo[k] + off[i][k]); }
  Q3 q(pts, lo, hi); int ix[2][3];
  vp_assert(q.generators.size() == 2, "one quantized generator per point"); vp_assert(q.length == L, "length is the longest side");
  for (int i = 0; i < 2; ++i) { q.quantize(&pts[3 * i], ix[i]); vp_assert(q.generators[i].index == (unsigned)i, "generator keeps its index"); for (int k = 0; k < 3; ++k) vp_assert(q.generators[i][k] == ix[i][k], "generators are the quantized points");
    double b[3]; q.dequantize(ix[i], b); for (int k = 0; k < 3; ++k) { vp_assert(ix[i][k] >= Q3::coordMin && ix[i][k] <= Q3::coordMax, "quantized coordinate in range"); vp_assert(ad(b[k] - pts[3 * i + k]) <= dx, "round trip within one quantum"); vp_obs(ix[i][k]); } }
  for (int k = 0; k < 3; ++k) { if (off[0][k] + dx <= off[1][k]) vp_assert(ix[0][k] < ix[1][k], "coordinates a quantum apart stay distinct and ordered"); if (off[0][k] <= off[1][k]) vp_assert(ix[0][k] <= ix[1][k], "quantization is monotone"); }
  vp_cover("end");
}
// box derived from boundary points: every boundary point strictly inside, centred, five times as long
extern "C" void h_qbox() {
  mpim_init(1, 1); std::vector<double> b, p; long n = vp_len("n", 2, 3); for (long i = 0; i < n; ++i) { b.push_back(G("bx", -16, 16)); b.push_back(G("by", -16, 16)); }
  double lx = b[0], hx = b[0], ly = b[1], hy = b[1]; for (long i = 1; i < n; ++i) { if (b[2 * i] < lx) lx = b[2 * i]; if (b[2 * i] > hx) hx = b[2 * i]; if (b[2 * i + 1] < ly) ly = b[2 * i + 1]; if (b[2 * i + 1] > hy) hy = b[2 * i + 1]; }
  double len = hx - lx > hy - ly ? hx - lx : hy - ly; vp_assume(len > 0);
  Q2 q(p, b); vp_assert(q.length == 5 * len, "box is five times the boundary's extent");
  vp_assert(q.xmin[0] == lx - 2 * len && q.xmin[1] == ly - 2 * len && q.xmax[0] == hx + 2 * len && q.xmax[1] == hy + 2 * len, "box surrounds the boundary");
  for (long i = 0; i < n; ++i) for (int k = 0; k < 2; ++k) vp_assert(q.xmin[k] < b[2 * i + k] && b[2 * i + k] < q.xmax[k] && b[2 * i + k] - q.xmin[k] < q.length, "boundary point strictly inside");
  std::vector<Q2::IntPoint> g; g.push_back(Q2::IntPoint((int)vp_int("gx", -1000, 1000), 7, 3U)); Q2 r(g, q);
  vp_assert(r.length == q.length && r.xmin[0] == q.xmin[0] && r.xmin[1] == q.xmin[1] && r.xmax[0] == q.xmax[0] && r.xmax[1] == q.xmax[1], "copy keeps the frame"); vp_assert(r.generators.size() == 1 && r.generators[0].x == g[0].x && r.generators[0].index == 3 && r.guardGenerators.size() == q.guardGenerators.size(), "copy takes the generators given");
  vp_cover("end");
}
// dequantize then quantize returns (almost) the same integers, all 32-bit coordinates in range
extern "C" void h_qint() {
  double lo[2] = {0, 0}, hi[2]; std::vector<double> none; const double ext = (double)Q2::coordMax - (double)Q2::coordMin; hi[0] = hi[1] = ext * 0.5;   // dx = 1/2 exactly
  Q2 q(none, lo, hi); int c[2] = {(int)vp_int("x", Q2::coordMin, Q2::coordMax), (int)vp_int("y", Q2::coordMin, Q2::coordMax)}, d[2]; double r[2];
  q.dequantize(c, r); q.quantize(r, d); vp_assert(c[0] == d[0] && c[1] == d[1], "integer round trip");
  vp_assert(r[0] == 0.5 * (c[0] - (double)Q2::coordMin), "dequantized position"); vp_cover("end"); vp_obsd(r[0]);
}
