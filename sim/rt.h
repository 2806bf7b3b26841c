// Deterministic runtime: choices, fibers, scheduler, simulated clock, verdicts.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <unordered_map>

namespace sim {

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;

// ---------------------------------------------------------------- choices
enum Stream : u32 {
  S_CFG, S_SCHED, S_MEM, S_MEMGAP, S_NET,
  S_F_ACCEPT, S_F_RECV, S_F_SEND, S_F_MQ, S_F_OPEN, S_F_STAT, S_F_MMAP, S_F_READ,
  S_F_MALLOC, S_F_START, S_F_STALL, S_F_CLOCK, S_F_VFS, S_F_CRASH, S_OPS, S_OPS2, S_TMPL, S_MISC,
  S_W0 = 32,          // per-client workload streams
  S_MAX = 512
};
extern const char* stream_name(u32 s);

struct Choice { uint16_t stream; uint16_t pad; u32 idx; u32 val; };

// fault / rare-condition counters
enum Ctr {
  C_ACCEPT_ERR, C_ACCEPT_EINTR, C_ACCEPT_EMFILE, C_RECV_SHORT, C_RECV_EINTR, C_RECV_RST, C_RECV_EOF,
  C_SEND_SHORT, C_SEND_EINTR, C_SEND_PIPE, C_SEND_BLOCK, C_MQ_EINTR, C_MQ_SEND_BLOCK, C_OPEN_ERR, C_STAT_ERR,
  C_MMAP_ERR, C_READ_SHORT, C_MALLOC_FAIL, C_START_FAIL, C_STALL, C_CLOCK_JUMP, C_FILE_REPLACED,
  C_FILE_REMOVED, C_CRASH, C_LEFTOVER_MSGS, C_CLIENT_RST, C_CLIENT_FIN, C_CLIENT_HALFCLOSE, C_CLIENT_HOSTILE,
  C_SEGMENTED, C_PREEMPT_MEM, C_SWITCH, C_MULTI_INFLIGHT, C_LARGE_RESP, C_MULTI_CHUNK, C_FD_REUSED,
  C_REQ_SENT, C_RESP_OK, C_RESP_206, C_RESP_404, C_RESP_FILE, C_RESP_RENDER, C_FORM, C_BODY, C_TORN_LOG,
  C_HANDLER_RUN, C_CLEANUP_RUN, C_QUEUE_FULL, C_CONC_RENDER, C_OPS, C_MODEL_CHECKS, C_OVERTAKE, C_PROBE_OK, C_LONG_HISTORY, C_MANY_FDS, C_MANY_WORKERS, C_MANY_HEADERS, C_MANY_ROUTES, C_HUGE_BODY, C_SYMLINK, C_BURST, C_HEAP_REUSE, C_TWIN, C_START_SOFT, C_SLEEP_EINTR, C_STUCK_CLIENTS,
  C_NCTR
};
extern const char* ctr_names[C_NCTR];
inline bool ctr_is_fault(int c) { return c <= C_CLIENT_HOSTILE || c == C_SEGMENTED || c == C_START_SOFT || c == C_SLEEP_EINTR || c == C_STUCK_CLIENTS; }

enum Cls : u32 {
  K_CRASH = 1u << 0, K_LIVE = 1u << 1, K_INTEG = 1u << 2, K_FD = 1u << 3, K_LEAK = 1u << 4, K_LIFE = 1u << 5,
  K_LOG = 1u << 6, K_ROUTE = 1u << 7, K_VIEW = 1u << 8, K_RANGE = 1u << 9, K_FILE = 1u << 10, K_TMPL = 1u << 11,
  K_FAIR = 1u << 12, K_START = 1u << 13, K_CONT = 1u << 14, K_STALE = 1u << 15, K_CLOSED = 1u << 16, K_HARNESS = 1u << 31
};

enum Verdict { V_NONE = 0, V_OK = 1, V_VIOL = 2, V_HARNESS = 3 };

static const u32 MAX_CHOICES = 1u << 19;
static const u32 TRACE_MAX = 1u << 20;
struct Result {
  int verdict; u32 cls; char kind[64]; char msg[4000];
  u64 hash, schash; u64 points, switches, edges; u64 simtime_ns; u32 nthreads, nclients, nontrivial;
  u32 ctr[C_NCTR];
  u32 nchoices; u32 overflow; Choice choices[MAX_CHOICES];
  u32 tracelen; char trace[TRACE_MAX];
  char sample[1024];
  unsigned char edgebits[1 << 13];
  // state which survives a simulated crash
  struct { u32 n, tw; struct { char name[48]; u32 maxmsg, msgsize, nmsg; unsigned char data[10 * 64]; u32 len[10], prio[10]; int mode; } q[8]; } persist;
};
extern Result* R;
extern bool g_trace;

void choice_init(u64 seed, const std::vector<Choice>* replay, u32 epoch);
u32 draw_gen(u32 stream, u32 n, u32 genval);         // record/replay a value chosen by a strategy
u32 draw(u32 stream, u32 n);                         // uniform; 0 is the benign default
bool chance(u32 stream, u32 num, u32 den);           // 0/false is the benign default
u32 draw_skew(u32 stream, u32 n);                    // small values likelier
u64 side_rng();                                      // strategy-private randomness (never semantic)
bool replaying();
void twin(int m);    // 1: record the draws of client streams, 2: answer from that record, 0: off
void memo(int mode);    // 1: remember the per-client choices from here on; 2: make the same ones again; 0: off

// ---------------------------------------------------------------- verdicts
extern u32 g_mask;
[[noreturn]] void finish_run(int verdict);
void violate(u32 cls, const char* kind, const char* fmt, ...) __attribute__((format(printf, 3, 4)));  // returns if masked out
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(u64 x);                                     // into the history hash
inline void count(int c, u32 n = 1) { R->ctr[c] += n; }

// ---------------------------------------------------------------- time & events
extern i64 now_ns;             // monotonic simulated time
extern i64 wall_off_ns;        // wall = now + off
inline i64 wall_ns() { return now_ns + wall_off_ns; }
extern i64 tz_s;               // local time is this many seconds ahead of UTC
extern u32 clock_hot;          // 1 in so many clock readings is followed by a jump or a stall
void at(i64 t, std::function<void()> fn);
inline void after(i64 d, std::function<void()> fn) { at(now_ns + d, std::move(fn)); }
bool events_pending();
// wall-clock history, for stamp checks: (from mono, offset)
extern std::vector<std::pair<i64, i64>> wall_hist;
void wall_jump(i64 delta);

// ---------------------------------------------------------------- fibers
struct Fiber {
  int id = 0; const char* name = ""; void* sp = nullptr; char* stk = nullptr; size_t stksz = 0; void* fake = nullptr;
  enum { Ready, Blocked, Done } st = Ready;
  std::function<void()> entry;
  std::function<bool()> pred; i64 deadline = -1; i64 intr_at = -1; i64 stall_until = -1; u32 late = 0;
  int wake = 0; int err = 0; void* ret = nullptr; bool detached = false, joined = false;
  u64 prio = 0; u32 run_len = 0; i64 last_clock_read = -1; i64 last_log_write = -1; int log_cur = 0;
  const char* what = ""; int ctx = -1; u64 faults = 0, faults0 = 0; u64 sched_count = 0;
  std::unordered_map<void*, void*> tls;
};
extern Fiber* cur;
extern std::vector<Fiber*> fibers;
Fiber* spawn(const char* name, std::function<void()> fn, size_t stk = 512 * 1024);
void point(int kind);                        // scheduling point
void yield_now();
enum { WK_OK = 0, WK_TIMEOUT = 1, WK_INTR = 2 };
int block_until(const char* what, std::function<bool()> pred, i64 deadline = -1, i64 intr_at = -1);
enum RunEnd { RE_IDLE, RE_STOP, RE_CAP };
RunEnd run(std::function<bool()> stop);
void request_stop_check();
[[noreturn]] void fiber_exit(void* ret);

struct SchedCfg { int strategy = 0; u32 p_den = 8; u32 quantum = 1; int victim = -1; u32 hot_den = 0; u32 gap = 0; u32 stall_den = 0; u32 pct_d = 3; u64 pct_len = 2000; };
extern SchedCfg sched;
void sched_reset();
extern bool faults_on; extern bool preempt_on;
extern u64 cap_points, cap_edges;
u64 total_points(); void crash_after_points(u64 n, std::function<void()> fn);
bool fault(u32 stream, u32 num, u32 den);    // chance() but only while faults are on and den != 0
void mem_forget(const void* p, size_t n);    // block (re)allocated: forget sharing history
void mem_range(const void* p, size_t n, bool wr);   // a library call is about to touch this
std::string fibers_state();

}  // namespace sim
