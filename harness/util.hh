// Shared helpers for harnesses.
#pragma once
#include "vp.h"
#include <vector>
#include <map>
#include <set>
#include <string>
#include <algorithm>
#include <cmath>
#include <cstring>
static inline bool sameBits(double a, double b) { unsigned long x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
template <class T> static inline bool eqv(const std::vector<T>& a, const std::vector<T>& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r &= (a[i] == b[i]); return r; }
static inline long vp_len(const char* n, long lo, long hi) { return vp_conc(vp_int(n, lo, hi)); }
static inline double G(const char* n, long lo, long hi, int sc = 0) { return vp_grid(n, lo, hi, sc); }
