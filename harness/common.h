// Shared by the harnesses.
#pragma once
#include "../sim/sim.h"
#include <stdio.h>
#include <string.h>
#include <algorithm>
#include <stdexcept>
using sim::u64; using sim::i64; using sim::Rng; using sim::Op; using sim::Program; using sim::Profile;

// Harness bookkeeping: not scheduled inside, not checked, allocations not charged to the code under test.
struct H { sim::Quiet q; sim::AllocScope a; };
#define VIOLATE(...) sim::violate(__VA_ARGS__)

inline Op mkop(int client, int code, i64 a = 0, i64 b = 0, i64 c = 0, i64 d = 0, i64 e = 0, i64 f = 0) { Op o; o.client = client; o.code = code; o.a[0] = a; o.a[1] = b; o.a[2] = c; o.a[3] = d; o.a[4] = e; o.a[5] = f; return o; }
inline i64 clampi(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; }

// A flag threads can block on without involving the code under test.
struct Gate {
  bool open;
  Gate() : open(false) {}
  void wait(bool hb = false) { sim::flag_wait(&open, hb); }
  void set(bool hb = false) { sim::flag_set(&open, hb); }
};
