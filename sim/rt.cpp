#include "rt.h"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <sys/mman.h>
#include <algorithm>
#include <queue>

extern "C" {
void __sanitizer_start_switch_fiber(void** fake, const void* bottom, size_t size);
void __sanitizer_finish_switch_fiber(void* fake, const void** bottom, size_t* size);
void sim_ctx_switch(void** from_sp, void* to_sp);
void sim_fiber_entry();
}
asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_ctx_switch,.-sim_ctx_switch
.globl sim_fiber_entry
.type sim_fiber_entry,@function
sim_fiber_entry:
  xorq %rbp,%rbp
  andq $-16,%rsp
  call sim_fiber_main
  hlt
.size sim_fiber_entry,.-sim_fiber_entry
)");

namespace sim {

Result* R = nullptr;
bool g_trace = false;
u32 g_mask = 0xffffffffu;
i64 now_ns = 0, wall_off_ns = 0;
std::vector<std::pair<i64, i64>> wall_hist;
Fiber* cur = nullptr;
std::vector<Fiber*> fibers;
SchedCfg sched;
bool faults_on = false, preempt_on = false;
u64 cap_points = 3000000, cap_edges = 600000000;

const char* ctr_names[C_NCTR] = {
  "accept_error", "accept_eintr", "accept_emfile", "recv_short", "recv_eintr", "recv_reset", "recv_eof",
  "send_short", "send_eintr", "send_broken_pipe", "send_blocked_full_buffer", "mq_eintr", "mq_send_blocked", "open_error", "stat_error",
  "mmap_error", "file_short_read", "malloc_failure", "startup_call_failure", "thread_stall", "wall_clock_jump", "file_replaced",
  "file_removed_or_created", "process_crash", "leftover_queue_messages", "client_reset", "client_close", "client_half_close", "client_hostile_request",
  "request_segmented", "preempted_at_memory_access", "context_switches", "multiple_in_flight", "large_response", "multi_chunk_response", "fd_reused",
  "requests_sent", "responses_verified", "responses_206", "responses_404", "responses_file", "responses_rendered", "form_requests", "body_requests", "torn_log_candidates",
  "handler_runs", "cleanup_runs", "queue_full", "concurrent_renders", "model_operations", "model_checks", "small_overtook_large", "probe_requests_answered", "long_histories", "application_holds_many_descriptors", "many_workers", "requests_with_many_headers", "many_routes", "requests_near_size_limit", "symbolic_links", "simultaneous_arrivals", "heap_block_reused_at_once", "requests_alike_but_for_their_values", "startup_option_failure", "sleep_eintr", "clients_stuck_half_way"};

static const char* snames[] = {"cfg", "sched", "mem", "memgap", "net", "accept", "recv", "send", "mq", "open", "stat", "mmap", "read",
  "malloc", "start", "stall", "clock", "vfs", "crash", "ops", "ops2", "tmpl", "misc"};
const char* stream_name(u32 s) {
  static char b[32]; u32 e = s / S_MAX, q = s % S_MAX;
  if (q >= S_W0) snprintf(b, sizeof b, "client%u", q - S_W0);
  else if (q < sizeof snames / sizeof *snames) snprintf(b, sizeof b, "%s", snames[q]);
  else snprintf(b, sizeof b, "s%u", q);
  if (e) { size_t l = strlen(b); snprintf(b + l, sizeof b - l, "@%u", e); }
  return b;
}

// ------------------------------------------------------------------ choices
static u64 g_seed; static u32 g_epoch;
static bool g_replay; static std::unordered_map<u64, u32> g_map;
static u32 g_idx[S_MAX]; static u64 g_side;

static inline u64 mix64(u64 z) { z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }

void choice_init(u64 seed, const std::vector<Choice>* rp, u32 epoch) {
  g_seed = seed; g_epoch = epoch; memset(g_idx, 0, sizeof g_idx); g_side = mix64(seed ^ 0xabcdef ^ (u64)epoch << 50);
  g_replay = rp != nullptr; g_map.clear();
  if (rp) for (auto& c : *rp) g_map[(u64)c.stream << 32 | c.idx] = c.val;
}
bool replaying() { return g_replay; }
u64 side_rng() { return g_side = mix64(g_side); }

static void record(u32 stream, u32 idx, u32 v) {
  if (!v) return;
  if (R->nchoices >= MAX_CHOICES) { R->overflow = 1; return; }
  Choice& c = R->choices[R->nchoices++]; c.stream = stream; c.pad = 0; c.idx = idx; c.val = v;
}
static int memo_mode; static std::vector<u32> memo_v[S_MAX]; static u32 memo_pos[S_MAX];
void memo(int m) { memo_mode = m; memset(memo_pos, 0, sizeof memo_pos); if (m == 1) for (auto& v : memo_v) v.clear(); }
// twins: what one client drew is recorded and handed to another one, whose request then has the same shape
static int twin_mode; static std::vector<u32> twin_v; static size_t twin_pos;
void twin(int m) { twin_mode = m; twin_pos = 0; if (m == 1) twin_v.clear(); }
static u32 draw_gen_(u32 stream, u32 n, u32 genval);
u32 draw_gen(u32 stream, u32 n, u32 genval) {
  if (twin_mode == 2 && stream >= S_W0) { u32 v = twin_pos < twin_v.size() ? twin_v[twin_pos] : 0; twin_pos++; return n > 1 ? v % n : 0; }
  u32 v = draw_gen_(stream, n, genval); if (twin_mode == 1 && stream >= S_W0) twin_v.push_back(v);
  return v;
}
static u32 draw_gen_(u32 stream, u32 n, u32 genval) {
  if (memo_mode == 2 && stream >= S_W0) { u32 p = memo_pos[stream]++; return n > 1 && p < memo_v[stream].size() ? memo_v[stream][p] % n : 0; }
  u32 i = g_idx[stream]++, s = stream + g_epoch * S_MAX, v;
  if (n <= 1) { if (memo_mode == 1 && stream >= S_W0) memo_v[stream].push_back(0); return 0; }
  if (g_replay) { auto it = g_map.find((u64)s << 32 | i); v = it == g_map.end() ? 0 : it->second % n; }
  else v = genval % n;
  if (stream == S_OPS || stream == S_OPS2 || stream == S_TMPL) R->hash = mix64(R->hash ^ ((u64)v << 8 | stream));
  record(s, i, v); if (memo_mode == 1 && stream >= S_W0) memo_v[stream].push_back(v);
  return v;
}
static inline u64 raw(u32 stream) { return mix64(g_seed * 0x2545F4914F6CDD1DULL + mix64(((u64)(stream + g_epoch * S_MAX) << 32) | g_idx[stream])); }
u32 draw(u32 stream, u32 n) { return draw_gen(stream, n, n ? (u32)(raw(stream) % n) : 0); }
bool chance(u32 stream, u32 num, u32 den) { return draw_gen(stream, 2, den ? (raw(stream) % den < num) : 0); }
u32 draw_skew(u32 stream, u32 n) {
  if (n <= 1) return draw_gen(stream, n, 0);
  u64 r = raw(stream); u32 bits = 0; while ((1ull << bits) < n) bits++;
  u32 b = (u32)(r % (bits + 1)); u64 v = (r >> 8) & ((1ull << b) - 1);
  return draw_gen(stream, n, (u32)(v % n));
}
bool fault(u32 stream, u32 num, u32 den) { if (!faults_on || !den) return false; return chance(stream, num, den); }

// ------------------------------------------------------------------ verdicts
void note(u64 x) { R->hash = mix64(R->hash ^ x); }
void trace(const char* fmt, ...) {
  if (!g_trace) return;
  char b[1200]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  char h[64]; int hn = snprintf(h, sizeof h, "[%9.3fms %-9s] ", now_ns / 1e6, cur ? cur->name : "-");
  if (R->tracelen + n + hn + 2 < TRACE_MAX) {
    memcpy(R->trace + R->tracelen, h, hn); R->tracelen += hn; memcpy(R->trace + R->tracelen, b, n); R->tracelen += n; R->trace[R->tracelen++] = '\n';
  }
}
void finish_run(int v) { if (R->verdict == V_NONE) R->verdict = v; R->simtime_ns += now_ns; _exit(0); }
void violate(u32 cls, const char* kind, const char* fmt, ...) {
  char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  trace("ORACLE %s: %s%s", kind, b, (cls & g_mask) ? "" : " (not this property)");
  note(cls); 
  if (!(cls & g_mask)) return;
  R->cls = cls; snprintf(R->kind, sizeof R->kind, "%s", kind); snprintf(R->msg, sizeof R->msg, "%s", b);
  finish_run(V_VIOL);
}
void harness_error(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
  R->verdict = V_HARNESS; _exit(0);
}

// ------------------------------------------------------------------ events
struct Ev { i64 t; u64 seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev* a, const Ev* b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Ev*, std::vector<Ev*>, EvCmp> evq; static u64 evseq; static u64 npoints;
static u64 ext_points, ext_steps; static i64 ext_ns;      // since when nothing came from outside the server
void at(i64 t, std::function<void()> fn) { if (t < now_ns) t = now_ns; evq.push(new Ev{t, evseq++, std::move(fn)}); }
bool events_pending() { return !evq.empty(); }
static bool in_event;
static void process_due() {
  if (in_event) return;
  while (!evq.empty() && evq.top()->t <= now_ns) {
    Ev* e = evq.top(); evq.pop(); in_event = true; ext_points = npoints; ext_ns = now_ns; ext_steps = 0; e->fn(); in_event = false; delete e;
  }
}
i64 tz_s; u32 clock_hot;
void wall_jump(i64 d) { wall_off_ns += d; wall_hist.push_back({now_ns, wall_off_ns}); count(C_CLOCK_JUMP); trace("clock jump %+.3fs", d / 1e9); }

// ------------------------------------------------------------------ fibers
static void* main_sp; static const void* main_bot; static size_t main_sz; static void* main_fake;
static Fiber* next_pick; static int last_id = -1; static bool stop_flag; static u64 pct_points;
static std::vector<u64> pct_change; static u64 pct_low;
u64 total_points() { return npoints; }
void request_stop_check() { stop_flag = true; }

static void to_main() {
  Fiber* f = cur;
  __sanitizer_start_switch_fiber(f->st == Fiber::Done ? nullptr : &f->fake, main_bot, main_sz);
  sim_ctx_switch(&f->sp, main_sp);
  __sanitizer_finish_switch_fiber(f->fake, &main_bot, &main_sz);
}
extern "C" void sim_fiber_main() {
  __sanitizer_finish_switch_fiber(nullptr, &main_bot, &main_sz);
  cur->entry();
  fiber_exit(nullptr);
}
void fiber_exit(void* ret) {
  cur->ret = ret; cur->st = Fiber::Done; trace("thread exits");
  to_main();
  abort();
}
Fiber* spawn(const char* name, std::function<void()> fn, size_t stk) {
  Fiber* f = new Fiber; f->id = (int)fibers.size(); f->name = strdup(name); f->entry = std::move(fn);
  f->stksz = stk;
  char* m = (char*)mmap(nullptr, stk + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) harness_error("stack mmap failed");
  mprotect(m, 4096, PROT_NONE); f->stk = m + 4096;
  void** sp = (void**)(f->stk + stk); *--sp = nullptr; *--sp = (void*)sim_fiber_entry; for (int i = 0; i < 6; i++) *--sp = nullptr;
  f->sp = sp; f->prio = 1 + side_rng() % 1000000 + 1000;
  fibers.push_back(f);
  return f;
}
static bool runnable(Fiber* f) {
  if (f->st == Fiber::Done) return false;
  if (f->stall_until > now_ns) return false;
  if (f->st == Fiber::Ready) return true;
  if (f->pred && f->pred()) { f->wake = WK_OK; return true; }
  if (f->intr_at >= 0 && now_ns >= f->intr_at) { f->wake = WK_INTR; return true; }
  if (f->deadline >= 0 && now_ns >= f->deadline) { f->wake = WK_TIMEOUT; return true; }
  return false;
}
void sched_reset() {
  pct_points = 0; pct_change.clear(); pct_low = 1000;
  if (sched.strategy == 2) for (u32 i = 0; i < sched.pct_d; i++) pct_change.push_back(side_rng() % (sched.pct_len + 1));
}
static u32 strategy_pick(std::vector<Fiber*>& c, bool self_first) {
  u32 n = c.size();
  switch (sched.strategy) {
    default:
    case 0: // random with continuation bias
      if (self_first && side_rng() % sched.p_den != 0) return 0;
      return side_rng() % n;
    case 1: // round robin with a quantum
      if (self_first && c[0]->run_len % (sched.quantum + 1) != sched.quantum) return 0;
      return n > 1 ? 1 % n : 0;
    case 2: { // PCT
      pct_points++;
      u32 b = 0; for (u32 i = 1; i < n; i++) if (c[i]->prio > c[b]->prio) b = i;
      for (u64 p : pct_change) if (p == pct_points) { c[b]->prio = pct_low--; b = 0; for (u32 i = 1; i < n; i++) if (c[i]->prio > c[b]->prio) b = i; }
      return b;
    }
    case 3: { // starve a victim
      std::vector<u32> o; for (u32 i = 0; i < n; i++) if (c[i]->id != sched.victim) o.push_back(i);
      if (o.empty() || side_rng() % 97 == 0) return side_rng() % n;
      if (self_first && c[0]->id != sched.victim && side_rng() % sched.p_den != 0) return 0;
      return o[side_rng() % o.size()];
    }
    case 4: { // fair: least recently scheduled first, with some noise
      if (side_rng() % 8 == 0) return side_rng() % n;
      u32 b = 0; for (u32 i = 1; i < n; i++) if (c[i]->sched_count < c[b]->sched_count) b = i;
      return b;
    }
  }
}
static Fiber* choose(Fiber* self, bool rotate) {
  static std::vector<Fiber*> c; c.clear();
  int N = fibers.size(); if (!N) return nullptr;
  int base = self ? self->id : last_id + 1;
  for (int i = 0; i < N; i++) { Fiber* f = fibers[(base + i) % N]; if (runnable(f)) c.push_back(f); }
  if (c.empty()) return nullptr;
  if (c.size() == 1) return c[0];
  bool self_first = self && c[0] == self;
  if (self_first && (rotate || self->run_len > 2000)) { std::rotate(c.begin(), c.begin() + 1, c.end()); self_first = false; }
  u32 g = replaying() ? 0 : strategy_pick(c, self_first);
  return c[draw_gen(S_SCHED, c.size(), g)];
}
static u64 crash_left; static std::function<void()> crash_fn;
void crash_after_points(u64 n, std::function<void()> fn) { crash_left = n + 1; crash_fn = std::move(fn); }
static void check_caps() {
  if (crash_left && --crash_left == 0) crash_fn();
  if (npoints - ext_points > cap_points || npoints > 4 * cap_points) violate(K_LIVE, "livelock", "no progress after %llu scheduling points (step cap): %s", (unsigned long long)(npoints - ext_points), fibers_state().c_str()), finish_run(V_OK);
}
static void resched(bool rotate) {
  Fiber* f = choose(cur->st == Fiber::Blocked ? nullptr : cur, rotate);
  if (f == cur && !stop_flag) { cur->run_len++; cur->st = Fiber::Ready; return; }
  next_pick = f; to_main();
}
void point(int kind) {
  if (!cur || in_event) return;
  npoints++; R->points++; now_ns += 1000;
  check_caps();
  note((u64)cur->id << 32 | (u32)kind);
  if (fault(S_F_STALL, 1, sched.stall_den)) {
    static const i64 d[] = {200000, 3000000, 40000000, 700000000, 2500000000LL};
    cur->stall_until = now_ns + d[draw(S_F_STALL, 5)]; count(C_STALL); trace("stalled for %.1fms", (cur->stall_until - now_ns) / 1e6);
  }
  process_due();
  resched(false);
}
void yield_now() { if (!cur || in_event) return; npoints++; R->points++; now_ns += 1000; check_caps(); process_due(); resched(true); }
int block_until(const char* what, std::function<bool()> pred, i64 deadline, i64 intr_at) {
  if (!cur) harness_error("block outside fiber");
  process_due();
  if (pred()) return WK_OK;
  cur->st = Fiber::Blocked; cur->pred = std::move(pred); cur->deadline = deadline; cur->intr_at = intr_at; cur->what = what; cur->wake = WK_OK;
  npoints++; R->points++; check_caps();
  Fiber* f = choose(nullptr, false);
  if (f != cur) { next_pick = f; to_main(); }
  cur->st = Fiber::Ready; int w = cur->wake; 
  // a predicate may have become true meanwhile
  if (w != WK_OK && cur->pred && cur->pred()) w = WK_OK;
  cur->pred = nullptr; cur->deadline = cur->intr_at = -1; cur->what = "";
  return w;
}
std::string fibers_state() {
  std::string s;
  for (auto f : fibers) { char b[160]; snprintf(b, sizeof b, "%s:%s%s%s ", f->name, f->st == Fiber::Done ? "exited" : f->st == Fiber::Blocked ? "blocked in " : "ready", f->st == Fiber::Blocked ? f->what : "", f->stall_until > now_ns ? "(stalled)" : ""); s += b; }
  return s;
}
RunEnd run(std::function<bool()> stop) {
  ext_points = npoints; ext_ns = now_ns; ext_steps = 0;
  for (;;) {
    stop_flag = false;
    process_due();
    if (stop && stop()) { next_pick = nullptr; return RE_STOP; }
    Fiber* f = next_pick; next_pick = nullptr;
    if (f && !runnable(f)) f = nullptr;
    if (!f) f = choose(nullptr, false);
    if (!f) {
      i64 t = -1; auto upd = [&](i64 x) { if (x >= 0 && (t < 0 || x < t)) t = x; };
      if (!evq.empty()) upd(evq.top()->t);
      for (auto q : fibers) if (q->st != Fiber::Done) {
        if (q->stall_until > now_ns) upd(q->stall_until);
        else if (q->st == Fiber::Blocked) { upd(q->deadline); upd(q->intr_at); }
      }
      if (t < 0) return RE_IDLE;
      // Only the server's own timers are left. Threads that wake up now and then to look around are idle, too.
      if (evq.empty() && (now_ns - ext_ns > 3600000000000LL || (++ext_steps > 20000 && now_ns - ext_ns > 100000000000LL))) return RE_IDLE;
      if (t > now_ns) now_ns = t;
      continue;
    }
    if (f->id != last_id) { R->switches++; R->schash = mix64(R->schash ^ (u64)f->id << 20 ^ (npoints & 0)); count(C_SWITCH); f->run_len = 0; }
    R->schash = mix64(R->schash * 3 + f->id);
    f->sched_count = R->points + 1;
    last_id = f->id; cur = f; f->st = Fiber::Ready;
    __sanitizer_start_switch_fiber(&main_fake, f->stk, f->stksz);
    sim_ctx_switch(&main_sp, f->sp);
    __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
    cur = nullptr;
  }
}

// ------------------------------------------------------------------ memory-access preemption
struct Hot { int fib; bool wr; };
static std::unordered_map<uintptr_t, Hot> hot;
static u32 gap_left; static bool gap_init; static bool in_mem;
void mem_forget(const void* p, size_t n) {
  if (hot.empty()) return;
  uintptr_t a = (uintptr_t)p >> 3, b = ((uintptr_t)p + n + 7) >> 3;
  if (b - a < hot.size()) { for (uintptr_t k = a; k < b; k++) hot.erase(k); }
  else for (auto it = hot.begin(); it != hot.end();) if (it->first >= a && it->first < b) it = hot.erase(it); else ++it;
}
static void hot_preempt(Fiber* f, bool late) {
  count(C_PREEMPT_MEM); npoints++; now_ns += 1000; note(7777 + f->id);
  if (late ? fault(S_F_STALL, 1, 3) : sched.stall_den && fault(S_F_STALL, 1, 40)) { static const i64 d[] = {20000, 1000000, 1000000000LL, 2100000000LL}; f->stall_until = now_ns + d[draw(S_F_STALL, 4)]; count(C_STALL); trace("stalled for %.1fms on the way to shared memory", (f->stall_until - now_ns) / 1e6); }
  process_due(); resched(true);
}
static inline void mem_access(uintptr_t addr, bool wr) {
  Fiber* f = cur;
  if (!preempt_on || !f || in_event || in_mem) return;
  if (addr - (uintptr_t)f->stk < f->stksz) return;
  if (sched.hot_den) {
    in_mem = true;
    auto& h = hot.emplace(addr >> 3, Hot{f->id, false}).first->second;
    bool conflict = h.fib != f->id && (wr || h.wr);
    if (h.fib != f->id) { h.fib = f->id; h.wr = wr; } else h.wr |= wr;
    in_mem = false;
    // Before the access, or a few accesses after it: what was just written is then overwritten before it is read.
    bool late = f->late > 0;
    if (late ? --f->late == 0 : conflict && chance(S_MEM, 1, sched.hot_den) && !(draw(S_MEM, 3) == 1 && (f->late = 1 + draw(S_MEM, 8)))) { hot_preempt(f, late); return; }
  }
  if (sched.gap) {
    if (!gap_init || gap_left == 0) {
      bool fire = gap_init && gap_left == 0;
      u32 v = draw_gen(S_MEMGAP, 1u << 20, 1 + (u32)(side_rng() % (2 * sched.gap)));
      gap_init = true; gap_left = v ? v : 0xffffffffu;
      if (fire) { count(C_PREEMPT_MEM); npoints++; now_ns += 1000; note(8888 + f->id); process_due(); resched(true); }
    } else gap_left--;
  }
}
// A library call is about to touch [p, p+n): one possible preemption, and the words are remembered as shared.
void mem_range(const void* p, size_t n, bool wr) {
  Fiber* f = cur; if (!preempt_on || !f || in_event || in_mem || !n) return;
  uintptr_t a = (uintptr_t)p; if (a - (uintptr_t)f->stk < f->stksz) return;
  if (sched.hot_den && n > 8) {
    bool conflict = false; in_mem = true; uintptr_t e = (a + std::min<size_t>(n, 128) - 1) >> 3;
    for (uintptr_t k = (a >> 3) + 1; k <= e; k++) { auto& h = hot.emplace(k, Hot{f->id, false}).first->second; if (h.fib != f->id) { if (wr || h.wr) conflict = true; h.fib = f->id; h.wr = wr; } else h.wr |= wr; }
    in_mem = false;
    if (conflict) { auto& h = hot.emplace(a >> 3, Hot{f->id, false}).first->second; if (h.fib == f->id) h.fib = -1, h.wr = true; }
  }
  mem_access(a, wr);
}
}  // namespace sim

extern "C" {
#define A(n) void __sanitizer_cov_load##n(void* a) { sim::mem_access((uintptr_t)a, false); } void __sanitizer_cov_store##n(void* a) { sim::mem_access((uintptr_t)a, true); }
A(1) A(2) A(4) A(8) A(16)
void __sanitizer_cov_trace_pc_guard_init(uint32_t* s, uint32_t* e) { static uint32_t n; if (s == e || *s) return; for (; s < e; s++) *s = ++n; }
void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
  if (!sim::R) return;
  sim::R->edgebits[(*g >> 3) & ((1 << 13) - 1)] |= 1 << (*g & 7);
  if (++sim::R->edges > sim::cap_edges) {
    sim::cap_edges = ~0ull;
    sim::violate(sim::K_LIVE, "livelock", "endless loop: step cap of executed code exceeded in %s: %s", sim::cur ? sim::cur->name : "-", sim::fibers_state().c_str());
    sim::finish_run(sim::V_OK);
  }
}
}
