// Driver: seeded exploration, minimisation, replay.  One forked child per simulated run.
#include "internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <algorithm>
#include <set>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unordered_set>

using namespace sim;

static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static u64 hmix(u64 a, u64 b) { a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; a ^= a >> 32; return a; }
static u64 hstr(const std::string& s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

static const Scenario* find_scenario(const std::string& n) { for (auto& s : scenarios()) if (n == s.name) return &s; return 0; }
static const CheckDef* find_check(const std::string& n) { for (auto& c : checks()) if (n == c.property) return &c; return 0; }

// swarm-style base profile
static void base_profile(Rng& r, Profile& p) {
  static const int st[] = {0,0,0,0,0,0,1,1,1,1,2,2,2,3,3,3,3,3,4};
  p.strategy = st[r.next() % (sizeof st / sizeof *st)];
  static const double gaps[] = {2, 4, 8, 20, 60, 200, 1000};
  p.mem_gap = p.strategy == 3 ? 0 : gaps[r.next() % 7];
  static const double sp[] = {0.05, 0.15, 0.3, 0.5, 0.8};
  p.sync_p = p.strategy == 1 || p.strategy == 4 ? 0 : sp[r.next() % 5];
  p.pct_depth = 1 + r.next() % 8; static const u64 lens[] = {200, 800, 3000, 12000, 50000}; p.pct_len = lens[r.next() % 5];
  p.spurious_p = r.chance(0.35) ? (r.chance(0.5) ? 0.02 : 0.1) : 0;
  p.jump_p = r.chance(0.2) ? 0.01 : 0;
  p.stall_p = r.chance(0.25) ? 0.02 : 0;
  p.notify_rand_p = r.chance(0.5) ? 0.5 : 0;
  p.seed = r.next();
}

struct Run { const Scenario* sc; Program prog; Profile prof; };
static bool make_run(const CheckDef& c, u64 seed, u64 k, Run& out) {
  Rng r(hmix(hmix(seed, hstr(c.property)), k * 2 + 1));
  int tot = 0; for (auto& s : c.scenarios) tot += s.second;
  int x = r.next() % tot; size_t i = 0; while (x >= c.scenarios[i].second) x -= c.scenarios[i++].second;
  out.sc = find_scenario(c.scenarios[i].first);
  if (!out.sc) { fprintf(stderr, "unknown scenario %s\n", c.scenarios[i].first.c_str()); return false; }
  out.prog = Program(); out.prog.scenario = out.sc->name; out.prof = Profile();
  base_profile(r, out.prof);
  out.sc->gen(r, out.prog, out.prof, c.property);
  return true;
}
static std::string prog_text(const Scenario& sc, const Program& p) {
  std::ostringstream o; o << p.scenario << " {";
  for (auto& kv : p.par) o << " " << kv.first << "=" << kv.second; o << " }";
  for (auto& op : p.ops) { o << "; c" << op.client << ":" << (sc.opname ? sc.opname(op.code) : "op") << "(" ; int n = 6; while (n && !op.a[n - 1]) --n; for (int i = 0; i < n; ++i) o << (i ? "," : "") << op.a[i]; o << ")"; }
  return o.str();
}
static std::string esc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }

struct Outcome { int status; std::string cat, msg; u64 hash; u64 step; std::vector<Decision> dec; std::vector<u64> pcs; };
static Outcome execute(const Run& r, bool replay, const std::vector<Decision>* dec, bool trace = false) {
  RunCfg c; c.prof = r.prof; c.replay = replay; c.dec = dec; c.trace = trace; c.symtrace = trace && getenv("SIM_SYNC_TRACE");
  std::string err;
  if (!run_forked(*r.sc, r.prog, c, &err)) { fprintf(stderr, "HARNESS-ERROR %s\n", err.c_str()); exit(3); }
  Outcome o; o.status = SH->status; o.cat = SH->cat; o.msg = SH->msg; o.hash = SH->hash; o.step = SH->step;
  for (int i = 0; i < SH->npcs; ++i) o.pcs.push_back(SH->pcs[i]);
  return o;
}
static void take_dec(Outcome& o) { o.dec.assign(SH->dec, SH->dec + SH->ndec); }

struct Known { std::string prop, sc, cat, sub; u64 n; };
static std::vector<Known> known;
static void load_known(const char* f) {   // lines: suppress property=<id> scenario=<s> category=<c> contains=<text to end of line>
  std::ifstream in(f); std::string l;
  while (std::getline(in, l)) {
    if (l.compare(0, 9, "suppress ")) continue;
    Known k; k.n = 0; size_t p;
    auto get = [&](const char* key) { std::string kk = std::string(key) + "="; size_t q = l.find(kk); if (q == std::string::npos) return std::string(); q += kk.size(); size_t e = l.find(' ', q); return l.substr(q, e == std::string::npos ? e : e - q); };
    k.prop = get("property"); k.sc = get("scenario"); k.cat = get("category"); p = l.find("contains="); if (p != std::string::npos) k.sub = l.substr(p + 9);
    known.push_back(k);
  }
}
static Known* match_known(const std::string& prop, const std::string& sc, const Outcome& o) {
  for (auto& k : known) if (k.prop == prop && k.sc == sc && k.cat == o.cat && o.msg.find(k.sub) != std::string::npos) return &k;
  return 0;
}

static double min_budget = 40;
static bool fails_same(const Run& r, bool replay, const std::vector<Decision>* d, const std::string& cat, Outcome& o) {
  o = execute(r, replay, d); if (o.status == ST_VIOLATION && o.cat == cat) { take_dec(o); return true; } return false;
}
static void minimise(const CheckDef& c, Run& run, Outcome& best) {
  const double t0 = wall(); const std::string cat = best.cat;
  auto time_left = [&] { return wall() - t0 < min_budget; };
  Rng r(run.prof.seed ^ 0x5EED);
  // operations (and then their arguments), retrying each smaller program under fresh schedules
  auto try_prog = [&](const Run& cand, int tries) {
    Outcome o; std::vector<Decision> d = best.dec;
    if (fails_same(cand, true, &d, cat, o) && !match_known(c.property, cand.sc->name, o)) { run = cand; best = o; return true; }
    Run x = cand;
    for (int i = 0; i < tries && time_left(); ++i) { x.prof.seed = r.next(); if (fails_same(x, false, 0, cat, o) && !match_known(c.property, cand.sc->name, o)) { run = x; best = o; return true; } }
    return false;
  };
  for (size_t chunk = std::max<size_t>(1, run.prog.ops.size() / 2);; chunk = chunk / 2) {
    for (size_t i = 0; i < run.prog.ops.size() && time_left();) {
      Run cand = run; size_t e = std::min(i + chunk, cand.prog.ops.size());
      cand.prog.ops.erase(cand.prog.ops.begin() + i, cand.prog.ops.begin() + e);
      if (!try_prog(cand, 25)) i += chunk;
    }
    if (chunk <= 1) break;
  }
  if (run.prof.strategy != 3) { Run cand = run; cand.prof.strategy = 3; cand.prof.mem_gap = 0; if (cand.prof.sync_p == 0) cand.prof.sync_p = 0.3; try_prog(cand, 60); }
  for (double* q : {&run.prof.spurious_p, &run.prof.jump_p, &run.prof.stall_p, &run.prof.create_fail_p}) if (*q > 0) { size_t off = (char*)q - (char*)&run; Run cand = run; *(double*)((char*)&cand + off) = 0; try_prog(cand, 30); }
  // decisions: ddmin
  std::vector<Decision> d = best.dec; Outcome o;
  if (!fails_same(run, true, &d, cat, o)) return;      // caller's gate reports it
  d = o.dec; best = o;
  for (size_t chunk = std::max<size_t>(1, d.size() / 2);; chunk /= 2) {
    for (size_t i = 0; i < d.size() && time_left();) {
      std::vector<Decision> x = d; x.erase(x.begin() + i, x.begin() + std::min(i + chunk, x.size()));
      if (fails_same(run, true, &x, cat, o) && !match_known(c.property, run.sc->name, o)) { d = o.dec.size() <= x.size() ? o.dec : x; best = o; best.dec = d; } else i += chunk;
    }
    if (chunk <= 1) break;
  }
  best.dec = d;
}

static void write_replay(const char* f, const CheckDef& c, const Run& r, const Outcome& o, u64 seed, u64 k) {
  FILE* fp = ::fopen(f, "w"); if (!fp) { perror(f); exit(3); }
  fprintf(fp, "# %s\n", prog_text(*r.sc, r.prog).c_str());
  fprintf(fp, "property %s\nscenario %s\nmaster_seed %llu\nrun %llu\ncategory %s\nhash %llu\n", c.property, r.sc->name, (unsigned long long)seed, (unsigned long long)k, o.cat.c_str(), (unsigned long long)o.hash);
  std::string m = o.msg; std::replace(m.begin(), m.end(), '\n', ' '); fprintf(fp, "message %s\n", m.c_str());
  for (u64 pc : o.pcs) fprintf(fp, "pc %llx\n", (unsigned long long)pc);
  const Profile& p = r.prof;
  fprintf(fp, "profile %llu %d %.17g %.17g %d %llu %.17g %.17g %.17g %.17g %.17g %llu %llu\n", (unsigned long long)p.seed, p.strategy, p.mem_gap, p.sync_p, p.pct_depth, (unsigned long long)p.pct_len, p.spurious_p, p.jump_p, p.create_fail_p, p.notify_rand_p, p.stall_p, (unsigned long long)p.fault_steps, (unsigned long long)p.max_steps);
  for (auto& kv : r.prog.par) fprintf(fp, "par %s %lld\n", kv.first.c_str(), (long long)kv.second);
  for (auto& op : r.prog.ops) fprintf(fp, "op %d %d %lld %lld %lld %lld %lld %lld # %s\n", op.client, op.code, (long long)op.a[0], (long long)op.a[1], (long long)op.a[2], (long long)op.a[3], (long long)op.a[4], (long long)op.a[5], r.sc->opname ? r.sc->opname(op.code) : "");
  for (auto& d : o.dec) fprintf(fp, "dec %c %llu %lld\n", d.type, (unsigned long long)d.idx, (long long)d.val);
  ::fclose(fp);
}

int main(int argc, char** argv) {
  ++g_internal;
  mem_init(); io_process_init();
  SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::map<std::string, std::string> a; std::string mode = argc > 1 ? argv[1] : "list";
  for (int i = 2; i < argc; ++i) { std::string k = argv[i]; if (k.compare(0, 2, "--") == 0) { if (i + 1 < argc && strncmp(argv[i + 1], "--", 2)) { a[k.substr(2)] = argv[i + 1]; ++i; } else a[k.substr(2)] = "1"; } }
  if (mode == "list") { for (auto& c : checks()) { printf("%s", c.property); for (auto& s : c.scenarios) printf(" %s:%d", s.first.c_str(), s.second); printf("\n"); } return 0; }
  const u64 seed = a.count("seed") ? strtoull(a["seed"].c_str(), 0, 10) : 1;
  if (a.count("known")) load_known(a["known"].c_str());
  if (a.count("minimise")) min_budget = atof(a["minimise"].c_str());
  if (mode == "hashes") {        // determinism gate
    const CheckDef* c = find_check(a["check"]); if (!c) return 3;
    const u64 n = strtoull(a["n"].c_str(), 0, 10), from = a.count("from") ? strtoull(a["from"].c_str(), 0, 10) : 0, st = a.count("stride") ? strtoull(a["stride"].c_str(), 0, 10) : 1;
    for (u64 k = from; k < n; k += st) { Run r; if (!make_run(*c, seed, k, r)) return 3; Outcome o = execute(r, false, 0);
      u64 h = o.hash; for (u32 i = 0; i < SH->ndec; ++i) h = hmix(h, SH->dec[i].idx * 64 + SH->dec[i].val); for (u32 i = 0; i < SH->loglen; ++i) h = hmix(h, (unsigned char)SH->log[i]);
      printf("%llu %016llx %d %s\n", (unsigned long long)k, (unsigned long long)h, o.status, o.cat.c_str()); }
    return 0;
  }
  if (mode == "once") {
    const CheckDef* c = find_check(a["check"]); if (!c) return 3;
    Run r; if (!make_run(*c, seed, strtoull(a["k"].c_str(), 0, 10), r)) return 3;
    printf("%s\nstrategy %d gap %g sync %g spur %g stall %g jump %g cf %g\n", prog_text(*r.sc, r.prog).c_str(), r.prof.strategy, r.prof.mem_gap, r.prof.sync_p, r.prof.spurious_p, r.prof.stall_p, r.prof.jump_p, r.prof.create_fail_p); fflush(stdout);
    Outcome o = execute(r, false, 0, a.count("trace") > 0);
    printf("%.*sstatus %d %s: %s\nsteps %llu simtime %.6f s sync %llu switches %llu decisions %u nontrivial %d\n", (int)SH->loglen, SH->log, o.status, o.cat.c_str(), o.msg.c_str(), (unsigned long long)o.step, SH->time * 1e-9, (unsigned long long)SH->nsync, (unsigned long long)SH->switches, SH->ndec, SH->nontrivial);
    for (u64 pc : o.pcs) printf("pc %llx\n", (unsigned long long)pc);
    return o.status == ST_VIOLATION;
  }
  if (mode == "replay") {
    std::ifstream in(a["file"].c_str()); if (!in) { fprintf(stderr, "cannot read %s\n", a["file"].c_str()); return 3; }
    Run r; r.sc = 0; std::string l, prop, cat; u64 hash = 0; std::vector<Decision> d;
    while (std::getline(in, l)) {
      std::istringstream s(l); std::string k; s >> k;
      if (k == "property") s >> prop; else if (k == "scenario") { s >> k; r.sc = find_scenario(k); r.prog.scenario = k; } else if (k == "category") s >> cat; else if (k == "hash") s >> hash;
      else if (k == "profile") { Profile& p = r.prof; s >> p.seed >> p.strategy >> p.mem_gap >> p.sync_p >> p.pct_depth >> p.pct_len >> p.spurious_p >> p.jump_p >> p.create_fail_p >> p.notify_rand_p >> p.stall_p >> p.fault_steps >> p.max_steps; }
      else if (k == "par") { std::string n; i64 v; s >> n >> v; r.prog.par[n] = v; }
      else if (k == "op") { Op op; s >> op.client >> op.code; for (int i = 0; i < 6; ++i) s >> op.a[i]; r.prog.ops.push_back(op); }
      else if (k == "dec") { Decision x; s >> x.type >> x.idx >> x.val; d.push_back(x); }
    }
    if (!r.sc) { fprintf(stderr, "no scenario\n"); return 3; }
    Outcome o = execute(r, true, &d, a.count("trace") > 0);
    if (!a.count("quiet")) printf("%.*s", (int)SH->loglen, SH->log);
    const bool same = o.status == ST_VIOLATION && o.cat == cat && o.hash == hash;
    printf("outcome %s: %s (step %llu)\n", o.status == ST_VIOLATION ? o.cat.c_str() : o.status == ST_OK ? "ok" : "discarded", o.msg.c_str(), (unsigned long long)o.step);
    for (u64 pc : o.pcs) printf("pc %llx\n", (unsigned long long)pc);
    printf(same ? "REPLAY-EXACT\n" : "REPLAY-DIFFERENT\n");
    return same ? 1 : o.status == ST_VIOLATION ? 2 : 0;
  }
  if (mode != "explore") { fprintf(stderr, "unknown mode\n"); return 3; }

  const CheckDef* c = find_check(a["check"]); if (!c) { fprintf(stderr, "no check %s\n", a["check"].c_str()); return 3; }
  const u64 idx = strtoull(a["index"].c_str(), 0, 10), jobs = a.count("jobs") ? strtoull(a["jobs"].c_str(), 0, 10) : 1;
  const double secs = a.count("seconds") ? atof(a["seconds"].c_str()) : 10; const u64 maxn = a.count("max-runs") ? strtoull(a["max-runs"].c_str(), 0, 10) : ~0ull;
  const std::string out = a["out"]; const bool keep_going = a.count("keep-going");
  u64 runs = 0, nontriv = 0, discards = 0, steps = 0, nsync = 0, switches = 0, decisions = 0, afterfault = 0; double simt = 0; std::map<std::string, u64> faults, probes, scount, strat, discat; std::unordered_set<u64> inter, seen;
  std::map<std::string, u64> viocats;
  std::vector<std::string> samples; std::string vio; u64 maxfib = 0;
  const double t0 = wall(); u64 first = 0, last = 0; bool any = false;
  static const char* sn[] = {"random-walk", "pct", "starvation", "sync-focused", "run-to-block"};
  for (u64 k = idx; k < maxn; k += jobs) {
    if (wall() - t0 > secs) break;
    if (!out.empty() && (runs & 31) == 31 && access((out + ".stop").c_str(), F_OK) == 0) break;
    Run r; if (!make_run(*c, seed, k, r)) return 3;
    Outcome o = execute(r, false, 0);
    if (!any) first = k; any = true; last = k;
    ++runs; steps += SH->step; simt += SH->time * 1e-9; nsync += SH->nsync; switches += SH->switches; decisions += SH->ndec; maxfib = std::max<u64>(maxfib, SH->nfibers);
    if (SH->fault_free_from) ++afterfault;
    for (int i = 0; i < SH->nfaults; ++i) faults[SH->faults[i].name] += SH->faults[i].n;
    for (int i = 0; i < SH->nprobes; ++i) probes[SH->probes[i].name] += SH->probes[i].n;
    scount[r.sc->name]++; strat[sn[r.prof.strategy]]++;
    if (o.status == ST_DISCARD) { ++discards; discat[o.cat]++; }
    const u64 ph = hmix(hstr(prog_text(*r.sc, r.prog)), SH->sync_hash);
    inter.insert(SH->sync_hash);
    if (o.status == ST_OK && SH->nontrivial) { ++nontriv; seen.insert(ph); if (samples.size() < 3 && runs % 7 == 1) { char b[200]; snprintf(b, sizeof b, "run %llu (%s, %u schedule/fault decisions, %llu steps, hash %016llx): ", (unsigned long long)k, sn[r.prof.strategy], SH->ndec, (unsigned long long)SH->step, (unsigned long long)SH->hash); samples.push_back(b + prog_text(*r.sc, r.prog).substr(0, 900)); } }
    if (o.status == ST_VIOLATION) {
      if (Known* kn = match_known(c->property, r.sc->name, o)) { kn->n++; continue; }
      viocats[o.cat + ": " + o.msg.substr(0, 160)]++;
      if (keep_going) { if (viocats[o.cat + ": " + o.msg.substr(0, 160)] == 1) fprintf(stderr, "k=%llu %s: %s\n", (unsigned long long)k, o.cat.c_str(), o.msg.substr(0, 300).c_str()); continue; }
      if (SH->dec_overflow) { fprintf(stderr, "HARNESS-ERROR decision log overflow\n"); return 3; }
      take_dec(o);
      Run orig = r; Outcome oo = o;
      { Outcome t; std::vector<Decision> d = o.dec; if (!fails_same(r, true, &d, o.cat, t)) { fprintf(stderr, "HARNESS-ERROR run %llu (%s: %s) does not replay: got status %d %s %s\n", (unsigned long long)k, o.cat.c_str(), o.msg.c_str(), t.status, t.cat.c_str(), t.msg.c_str()); return 3; } o = t; }
      minimise(*c, r, o);
      Outcome o1, o2; std::vector<Decision> d = o.dec;
      if (!(fails_same(r, true, &d, o.cat, o1) && fails_same(r, true, &d, o.cat, o2) && o1.hash == o2.hash)) {
        r = orig; d = oo.dec;
        if (!(fails_same(r, true, &d, oo.cat, o1) && fails_same(r, true, &d, oo.cat, o2) && o1.hash == o2.hash)) { fprintf(stderr, "HARNESS-ERROR violation does not reproduce exactly\n"); return 3; }
      }
      o1.dec = d;
      if (a.count("trace")) execute(r, true, &d, true);
      write_replay((out + ".replay").c_str(), *c, r, o1, seed, k);
      std::ostringstream v; v << "{\"run\": " << k << ", \"category\": \"" << esc(o1.cat) << "\", \"message\": \"" << esc(o1.msg) << "\", \"program\": \"" << esc(prog_text(*r.sc, r.prog)) << "\", \"decisions\": " << d.size() << ", \"ops\": " << r.prog.ops.size() << "}";
      vio = v.str();
      FILE* st = ::fopen((out + ".stopme").c_str(), "w"); if (st) ::fclose(st);
      break;
    }
  }
  FILE* fp = out.empty() ? stdout : ::fopen(out.c_str(), "w"); if (!fp) { perror(out.c_str()); return 3; }
  auto pm = [&](const char* n, std::map<std::string, u64>& m) { fprintf(fp, "\"%s\": {", n); bool f = true; for (auto& kv : m) { fprintf(fp, "%s\"%s\": %llu", f ? "" : ", ", esc(kv.first).c_str(), (unsigned long long)kv.second); f = false; } fprintf(fp, "},\n"); };
  fprintf(fp, "{\"runs\": %llu, \"nontrivial\": %llu, \"discards\": %llu, \"steps\": %llu, \"sync_ops\": %llu, \"switches\": %llu, \"decisions\": %llu, \"sim_seconds\": %.9f, \"wall\": %.3f, \"first\": %llu, \"last\": %llu, \"max_threads\": %llu, \"runs_past_fault_window\": %llu,\n",
    (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)discards, (unsigned long long)steps, (unsigned long long)nsync, (unsigned long long)switches, (unsigned long long)decisions, simt, wall() - t0, (unsigned long long)first, (unsigned long long)last, (unsigned long long)maxfib, (unsigned long long)afterfault);
  pm("faults", faults); pm("probes", probes); pm("scenarios", scount); pm("strategies", strat); pm("discard_reasons", discat); pm("violation_categories", viocats);
  { std::map<std::string, u64> km; for (size_t i = 0; i < known.size(); ++i) if (known[i].n) km[std::to_string(i)] = known[i].n; pm("known", km); }
  fprintf(fp, "\"samples\": ["); for (size_t i = 0; i < samples.size(); ++i) fprintf(fp, "%s\"%s\"", i ? ",\n" : "", esc(samples[i]).c_str()); fprintf(fp, "],\n");
  fprintf(fp, "\"violation\": %s}\n", vio.empty() ? "null" : vio.c_str());
  if (!out.empty()) {
    ::fclose(fp);
    auto dump = [&](const std::string& f, std::unordered_set<u64>& s) { FILE* q = ::fopen(f.c_str(), "wb"); for (u64 v : s) ::fwrite(&v, 8, 1, q); ::fclose(q); };
    dump(out + ".inter", inter); dump(out + ".seen", seen);
  }
  return vio.empty() ? 0 : 1;
}
