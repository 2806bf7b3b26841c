// Driver: one forked child per simulated run; batches, replay and shrinking.
#include "world.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <algorithm>

extern "C" {
void sim_std_init();
void __asan_set_error_report_callback(void (*)(const char*));
const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1073741824:malloc_fill_byte=190:quarantine_size_mb=16:thread_local_quarantine_size_kb=16384:log_path=/dev/null:abort_on_error=0:exitcode=0:handle_abort=1:detect_odr_violation=0:symbolize=0:allow_user_segv_handler=0:use_sigaltstack=1:print_legend=0:print_full_thread_history=0:detect_invalid_pointer_pairs=0"; }
}
namespace sim {
void on_asan(const char* rep) {
  if (!R || R->verdict != V_NONE) return;
  char ty[64] = "memory error", where[1600] = ""; const char* p = strstr(rep, "AddressSanitizer: ");
  if (p) { p += 18; size_t n = strcspn(p, " \n"); snprintf(ty, sizeof ty, "%.*s", (int)std::min<size_t>(n, 40), p); }
  const char* acc = strstr(rep, "READ of size"); if (!acc) acc = strstr(rep, "WRITE of size"); if (!acc) acc = strstr(rep, "The signal is caused by"); char a[48] = ""; if (acc) snprintf(a, sizeof a, "%.*s", (int)std::min<size_t>(strcspn(acc, "\n"), 46), acc);
  if (char* at = strstr(a, " at 0x")) *at = 0; if (char* at = strstr(a, " thread")) *at = 0;
  size_t o = 0; const char* q = rep; int nf = 0;
  while ((q = strstr(q, "    #")) && nf < 24 && o + 80 < sizeof where) { const char* l = strstr(q, "(/"); const char* e = strchr(q, '\n'); if (l && e && l < e) { const char* plus = strstr(l, "+0x"); const char* par = plus ? strchr(plus, ')') : nullptr; if (plus && plus < e && par) { o += snprintf(where + o, sizeof where - o, " %.*s", (int)std::min<long>(par - plus - 1, 20), plus + 1); nf++; } } q++; if (e) q = e; }
  R->verdict = V_VIOL; R->cls = K_CRASH; snprintf(R->kind, sizeof R->kind, "asan-%s", ty);
  snprintf(R->msg, sizeof R->msg, "memory error in thread %s: %s %s frames:%s", cur ? cur->name : "-", ty, a, where);
  R->simtime_ns += now_ns; g_trace ? trace("%s", R->msg) : (void)0;
  _exit(0);
}
static void reset_result() {
  R->verdict = V_NONE; R->cls = 0; R->kind[0] = R->msg[0] = R->sample[0] = 0; R->hash = R->schash = R->points = R->switches = R->edges = R->simtime_ns = 0; R->nthreads = R->nclients = R->nontrivial = 0;
  memset(R->ctr, 0, sizeof R->ctr); R->nchoices = R->overflow = 0; R->tracelen = 0; memset(R->edgebits, 0, sizeof R->edgebits); memset(&R->persist, 0, sizeof R->persist);
}
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static void child_main(int prop, u64 seed, const std::vector<Choice>* rp, u32 epoch, u32 nep) {
  struct rlimit rl = {120, 125}; setrlimit(RLIMIT_CPU, &rl); struct rlimit cl = {0, 0}; setrlimit(RLIMIT_CORE, &cl);
  choice_init(seed, rp, epoch); g_mask = prop_mask(prop);
  cap_edges = R->edges + 400000000ull; if (prop == 18) cap_edges += 1200000000ull; heap_reuse = draw(S_CFG, 3) == 1;
  if (prop == 15) tmpl_run(); else if (prop == 18) cont_run(); else world_run(prop, epoch, epoch + 1 == nep);
  _exit(0);
}
static void run_once(int prop, u64 seed, const std::vector<Choice>* rp, bool tr) {
  reset_result(); g_trace = tr;
  u32 nep = 1;
  if (prop == 9) { choice_init(seed, rp, 200); nep = 2 + draw(S_CFG, 3); }
  for (u32 e = 0; e < nep; e++) {
    pid_t p = fork(); if (p == 0) { child_main(prop, seed, rp, e, nep); }
    int st = 0; waitpid(p, &st, 0);
    if (R->verdict != V_NONE) break;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && e + 1 < nep) continue;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { R->verdict = V_VIOL; R->cls = K_LIVE; strcpy(R->kind, "cpu-hang"); snprintf(R->msg, sizeof R->msg, "the run used up its CPU time limit (endless computation)"); break; }
    R->verdict = V_HARNESS; snprintf(R->msg, sizeof R->msg, "child ended without verdict (status 0x%x)", st); break;
  }
  if (R->overflow && R->verdict == V_OK) { /* too many choices to replay: still a valid run */ }
}
static std::string jesc(const char* s) { std::string o; for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }
static std::vector<Choice> taken() { return std::vector<Choice>(R->choices, R->choices + R->nchoices); }
static u64 run_seed(u64 seed, int prop, u64 i) { u64 z = seed * 0x9E3779B97F4A7C15ull + (u64)prop * 0xD1B54A32D192ED03ull + i * 0x8CB92BA72F3D8DD7ull; z ^= z >> 31; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 29; return z; }

static void write_replay(const char* path, int prop, u64 seed, const std::vector<Choice>& c) {
  FILE* f = fopen(path, "w"); if (!f) return; fprintf(f, "# replay of a simulated run: stream-number index value (epoch = stream/256); every choice not listed is 0\nproperty C%02d\nseed %llu\nkind %s\nhash %016llx\nmessage %s\n", prop, (unsigned long long)seed, R->kind, (unsigned long long)R->hash, jesc(R->msg).c_str());
  for (auto& x : c) fprintf(f, "choice %u %u %u # %s\n", x.stream, x.idx, x.val, stream_name(x.stream)); fclose(f);
}
static bool read_replay(const char* path, int& prop, u64& seed, std::vector<Choice>& c, std::string& kind, u64& hash) {
  FILE* f = fopen(path, "r"); if (!f) return false; static char l[8192]; 
  while (fgets(l, sizeof l, f)) { unsigned a, b, d; unsigned long long s; char k[100]; if (sscanf(l, "property C%d", &prop) == 1) {} else if (sscanf(l, "seed %llu", &s) == 1) seed = s; else if (sscanf(l, "kind %99s", k) == 1) kind = k; else if (sscanf(l, "hash %llx", &s) == 1) hash = s; else if (sscanf(l, "choice %u %u %u", &a, &b, &d) == 3) c.push_back(Choice{(uint16_t)a, 0, b, d}); }
  fclose(f); return true;
}
static int cmd_batch(int prop, u64 seed, u64 from, u64 step, double secs, u64 maxruns, const char* out) {
  double t0 = now_s(); u64 runs = 0, nt = 0, viol = 0, harness = 0, points = 0, switches = 0, edges = 0, choices = 0; double simt = 0; std::vector<u64> hs, ss; std::vector<unsigned char> eb(sizeof R->edgebits, 0); std::vector<u64> ctr(C_NCTR, 0), runs_with(C_NCTR, 0);
  std::vector<std::string> samples, vl, hl; u64 maxchoices = 0; std::set<std::string> kinds; u64 nthr = 0, ncl = 0;
  const char* stop = getenv("SIM_STOP");
  for (u64 k = 0; k < maxruns && now_s() - t0 < secs && !(stop && access(stop, F_OK) == 0); k++) {
    u64 i = from + k * step, s = run_seed(seed, prop, i);
    run_once(prop, s, nullptr, false); runs++;
    if (R->verdict == V_HARNESS) { harness++; char b[256]; snprintf(b, sizeof b, "{\"run\":%llu,\"seed\":\"%llu\",\"msg\":\"%s\"}", (unsigned long long)i, (unsigned long long)s, jesc(R->msg).substr(0, 150).c_str()); if (hl.size() < 5) hl.push_back(b); continue; }
    points += R->points; switches += R->switches; edges += R->edges; choices += R->nchoices; simt += R->simtime_ns / 1e9; maxchoices = std::max<u64>(maxchoices, R->nchoices); nthr += R->nthreads; ncl += R->nclients;
    if (R->nontrivial) { nt++; hs.push_back(R->hash); } ss.push_back(R->schash); for (size_t b = 0; b < eb.size(); b++) eb[b] |= R->edgebits[b];
    for (int c = 0; c < C_NCTR; c++) { ctr[c] += R->ctr[c]; if (R->ctr[c]) runs_with[c]++; }
    if (R->nontrivial && samples.size() < 4 && (k % 7 == 3 || k < 2)) { char b[1500]; snprintf(b, sizeof b, "\"run %llu seed %llu: %s; %llu scheduling points, %llu switches, %.3f simulated s\"", (unsigned long long)i, (unsigned long long)s, jesc(R->sample).c_str(), (unsigned long long)R->points, (unsigned long long)R->switches, R->simtime_ns / 1e9); samples.push_back(b); }
    if (R->verdict == V_VIOL) { if (!viol) { printf("found %s\n", R->kind); fflush(stdout); } viol++; std::string key = R->kind; if (kinds.insert(key).second || vl.size() < 3) { char b[8000]; snprintf(b, sizeof b, "{\"run\":%llu,\"seed\":\"%llu\",\"kind\":\"%s\",\"cls\":%u,\"msg\":\"%s\",\"choices\":%u,\"overflow\":%u}", (unsigned long long)i, (unsigned long long)s, R->kind, R->cls, jesc(R->msg).c_str(), R->nchoices, R->overflow); vl.push_back(b); } if (viol >= 6) break; }
  }
  FILE* f = fopen(out, "w"); if (!f) return 3; int ne = 0; for (auto b : eb) ne += __builtin_popcount(b);
  fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"violations_seen\":%llu,\"harness\":%llu,\"points\":%llu,\"switches\":%llu,\"edges_executed\":%llu,\"choices\":%llu,\"max_choices\":%llu,\"sim_s\":%.3f,\"wall_s\":%.3f,\"threads\":%llu,\"clients\":%llu,\n", (unsigned long long)runs, (unsigned long long)nt, (unsigned long long)viol, (unsigned long long)harness, (unsigned long long)points, (unsigned long long)switches, (unsigned long long)edges, (unsigned long long)choices, (unsigned long long)maxchoices, simt, now_s() - t0, (unsigned long long)nthr, (unsigned long long)ncl);
  fprintf(f, "\"counters\":{"); for (int c = 0; c < C_NCTR; c++) fprintf(f, "%s\"%s\":[%llu,%llu,%d]", c ? "," : "", ctr_names[c], (unsigned long long)ctr[c], (unsigned long long)runs_with[c], (int)ctr_is_fault(c)); fprintf(f, "},\n\"samples\":[");
  for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", samples[i].c_str()); fprintf(f, "],\n\"violations\":["); for (size_t i = 0; i < vl.size(); i++) fprintf(f, "%s%s", i ? ",\n" : "", vl[i].c_str()); fprintf(f, "],\n\"harness_msgs\":["); for (size_t i = 0; i < hl.size(); i++) fprintf(f, "%s%s", i ? "," : "", hl[i].c_str());
  fprintf(f, "],\n\"hashes\":["); for (size_t i = 0; i < hs.size(); i++) fprintf(f, "%s\"%llx\"", i ? "," : "", (unsigned long long)hs[i]); fprintf(f, "],\n\"schedules\":["); for (size_t i = 0; i < ss.size(); i++) fprintf(f, "%s\"%llx\"", i ? "," : "", (unsigned long long)ss[i]);
  fprintf(f, "],\n\"edgebits\":\""); for (auto b : eb) fprintf(f, "%02x", b); fprintf(f, "\"}\n"); fclose(f); return 0;
}
static int cmd_shrink(int prop, u64 seed, double secs, const char* out) {
  run_once(prop, seed, nullptr, false); if (R->verdict != V_VIOL) { printf("shrink: run does not fail (%d %s)\n", R->verdict, R->msg); return 2; }
  std::string kind = R->kind; u32 cls = R->cls; std::vector<Choice> best = taken(); u64 h0 = R->hash; size_t n0 = best.size(); double t0 = now_s(); u64 tries = 0;
  if (R->overflow) { printf("shrink: choice log overflowed\n"); return 2; }
  auto test = [&](const std::vector<Choice>& c) { tries++; run_once(prop, seed, &c, false); return R->verdict == V_VIOL && kind == R->kind && cls == R->cls; };
  auto accept = [&]() { auto t = taken(); best = t; };
  if (!test(best)) { printf("shrink: replay of the recorded choices does not reproduce (%d %s %s)\n", R->verdict, R->kind, R->msg); return 2; }
  if (R->hash != h0) { printf("shrink: replay takes a different course\n"); return 2; }
  auto left = [&] { return now_s() - t0 < secs; };
  bool progress = true;
  for (int round = 0; round < 4 && progress && left(); round++) {
    progress = false; size_t before = best.size();
    std::vector<u32> streams; for (auto& c : best) if (std::find(streams.begin(), streams.end(), c.stream) == streams.end()) streams.push_back(c.stream);
    for (u32 s : streams) { if (!left()) break; std::vector<Choice> c; for (auto& x : best) if (x.stream != s) c.push_back(x); if (c.size() < best.size() && test(c)) { accept(); progress = true; } }
    for (size_t chunk = std::max<size_t>(best.size() / 2, 1); chunk >= 1 && left(); chunk /= 2) {
      for (size_t i = 0; i < best.size() && left();) { std::vector<Choice> c(best.begin(), best.begin() + i); if (i + chunk < best.size()) c.insert(c.end(), best.begin() + i + chunk, best.end()); if (test(c) && R->nchoices < best.size()) { accept(); progress = true; } else i += chunk; }
      if (chunk == 1) break; if (chunk == 1 && best.size() > 400) break; }
    for (size_t i = 0; i < best.size() && left(); i++) { u32 v = best[i].val; for (u32 nv : {1u, v / 2, v - 1}) { if (nv == 0 || nv >= v) continue; auto c = best; c[i].val = nv; if (test(c) && R->nchoices <= best.size()) { accept(); progress = true; break; } } }
    if (best.size() < before) progress = true;
  }
  test(best); write_replay(out, prop, seed, taken());
  printf("shrunk %zu -> %zu nonzero choices in %llu runs (%.1fs)\n", n0, best.size(), (unsigned long long)tries, now_s() - t0); return 0;
}
static int report(bool tr) {
  if (tr) fwrite(R->trace, 1, R->tracelen, stdout);
  printf("verdict=%s cls=%x kind=%s hash=%016llx points=%llu switches=%llu choices=%u sim=%.6fs sample=%s\nmessage=%s\n", R->verdict == V_OK ? "ok" : R->verdict == V_VIOL ? "violation" : "harness", R->cls, R->kind, (unsigned long long)R->hash, (unsigned long long)R->points, (unsigned long long)R->switches, R->nchoices, R->simtime_ns / 1e9, R->sample, R->msg);
  return R->verdict == V_OK ? 0 : R->verdict == V_VIOL ? 1 : 2;
}
}  // namespace sim
using namespace sim;
int main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { if (personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("SIM_REEXEC")) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }
  R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (R == MAP_FAILED) return 3;
  sim_std_init(); __asan_set_error_report_callback(on_asan); setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  std::string cmd = argc > 1 ? argv[1] : ""; auto A = [&](int i) -> const char* { const char* a = i < argc ? argv[i] : ""; return i == 2 && cmd != "replay" && *a == 'C' ? a + 1 : a; };
  if (cmd == "batch") return cmd_batch(atoi(A(2)), strtoull(A(3), 0, 10), strtoull(A(4), 0, 10), strtoull(A(5), 0, 10), atof(A(6)), strtoull(A(7), 0, 10), A(8));
  if (cmd == "seed") { run_once(atoi(A(2)), strtoull(A(3), 0, 10), nullptr, argc > 4); int r = report(argc > 4); fflush(stdout); return r; }
  if (cmd == "run") { run_once(atoi(A(2)), run_seed(strtoull(A(3), 0, 10), atoi(A(2)), strtoull(A(4), 0, 10)), nullptr, argc > 5); int r = report(argc > 5); fflush(stdout); return r; }
  if (cmd == "shrink") { int r = cmd_shrink(atoi(A(2)), strtoull(A(3), 0, 10), atof(A(4)), A(5)); fflush(stdout); return r; }
  if (cmd == "replay") { int prop = 0; u64 seed = 0, hash = 0; std::vector<Choice> c; std::string kind; if (!read_replay(A(2), prop, seed, c, kind, hash)) return 3; run_once(prop, seed, &c, argc > 3); int r = report(argc > 3); printf("expected kind=%s hash=%016llx: %s\n", kind.c_str(), (unsigned long long)hash, R->verdict == V_VIOL && kind == R->kind && hash == R->hash ? "REPRODUCED" : R->verdict == V_VIOL ? "DIFFERENT" : "NOT-REPRODUCED"); fflush(stdout); return r; }
  fprintf(stderr, "usage: sim batch|seed|run|shrink|replay\n"); return 3;
}
