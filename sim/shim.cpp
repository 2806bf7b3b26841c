// Replacement of the C library and kernel calls made by the code under test.
#define _GNU_SOURCE 1
#include "kernel.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <sanitizer/asan_interface.h>
#include <mqueue.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <regex.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>

namespace sim {
FaultCfg fc; Kernel K; Vfs vfs; AllocStat alloc; i64 malloc_fail_at = 0; u64 malloc_fired = 0; bool sigpipe_ignored = false;
std::string cap_out, cap_err; std::vector<LogWrite> logw;
std::function<void(const char*, int)> fd_misuse; std::function<void()> on_file_call;
static inline void fpt() { if (on_file_call && cur) on_file_call(); point(7); if (on_file_call && cur) on_file_call(); }

enum PK { P_SYS = 1, P_ACCEPT, P_RECV, P_SEND, P_CLOSE, P_MQ, P_FILE, P_TIME, P_LOG, P_ALLOC, P_THREAD, P_REGEX, P_MMAP };

// ------------------------------------------------------------------ errno
static int host_errno;
static int& E() { return cur ? cur->err : host_errno; }
static int fail(int e) { E() = e; return -1; }

// ------------------------------------------------------------------ memory
struct AB { size_t n; u64 serial; };
static std::unordered_map<void*, AB> blocks; static u64 aserial;
u64 alloc_serial() { return aserial; }
std::string live_alloc_summary(u64 since) {
  std::map<size_t, int> h; for (auto& b : blocks) if (b.second.serial > since) h[b.second.n]++;
  std::string s; for (auto& e : h) { char t[64]; snprintf(t, sizeof t, "%dx%zuB ", e.second, e.first); s += t; if (s.size() > 300) break; }
  return s;
}
static bool should_fail() {
  if (malloc_fail_at > 0 && cur && --malloc_fail_at == 0) { malloc_fired++; count(C_MALLOC_FAIL); trace("malloc fails"); cur->faults++; return true; }
  if (cur && fault(S_F_MALLOC, 1, fc.malloc_fail)) { malloc_fired++; count(C_MALLOC_FAIL); trace("malloc fails"); cur->faults++; return true; }
  return false;
}
// With heap_reuse, as with the C library's own allocator, the block freed last is the next one handed out for that size, old contents and all:
// what is remembered by address alone, or read before it is written, shows. Parked blocks are poisoned, so that any use of them is reported.
bool heap_reuse; static std::unordered_map<size_t, std::vector<void*>> parked; static std::unordered_map<void*, size_t> parked_at, owned;
static inline size_t block_class(size_t n) { return n <= 24 ? 24 : ((n + 8 + 15) & ~(size_t)15) - 8; }
static void* block_get(size_t n) {
  if (!heap_reuse || n > 60000) return malloc(n);
  size_t k = block_class(n); auto& v = parked[k]; char* p;
  if (v.size()) { p = (char*)v.back(); v.pop_back(); parked_at.erase(p); __asan_unpoison_memory_region(p, k); count(C_HEAP_REUSE); } else { p = (char*)malloc(k); if (!p) return p; owned[p] = k; }
  if (n < k) __asan_poison_memory_region(p + n, k - n);
  return p;
}
static void block_put(void* p, size_t n) {
  (void)n; auto it = heap_reuse ? owned.find(p) : owned.end(); if (it == owned.end()) { free(p); return; }
  size_t k = it->second; __asan_poison_memory_region(p, k); parked[k].push_back(p); parked_at[p] = k;
}
static void parked_again(void* p) { auto it = parked_at.find(p); if (it == parked_at.end()) return; __asan_unpoison_memory_region(p, it->second); free(p); }      // freed twice: leave the report to the sanitizer
static void* track(void* p, size_t n);
static void* track(void* p, size_t n) { if (p) { blocks[p] = AB{n, ++aserial}; alloc.live++; alloc.bytes += n; alloc.total++; mem_forget(p, n); } return p; }
static void untrack(void* p) { auto it = blocks.find(p); if (it != blocks.end()) { mem_forget(p, it->second.n); alloc.live--; alloc.bytes -= it->second.n; blocks.erase(it); } }

// ------------------------------------------------------------------ descriptors
int Kernel::alloc_fd(FileP f) {
  size_t i = 0; while (i < fds.size() && fds[i]) i++;
  if ((int)i >= limit) { if (cur) cur->faults++; return fail(EMFILE); }
  if (i == fds.size()) { fds.push_back(nullptr); gen.push_back(0); }
  if (gen[i]) count(C_FD_REUSED);
  gen[i]++; fds[i] = f; f->openfds++; f->serial = ++serial; return (int)i;
}
FileP Kernel::get(int fd) { if (fd < 0 || fd >= (int)fds.size()) return nullptr; return fds[fd]; }
std::string Kernel::describe_open() {
  std::string s; static const char* n[] = {"listen", "conn", "mq", "file", "dir", "sock", "pipe"};
  for (size_t i = 0; i < fds.size(); i++) if (fds[i]) { char b[96]; snprintf(b, sizeof b, "%zu=%s", i, n[fds[i]->type]); s += b;
    if (fds[i]->type == File::CONN) s += "#" + std::to_string(((ConnFile*)fds[i].get())->c->id); s += " "; }
  return s;
}
static FileP need(int fd, const char* what) {
  FileP f = K.get(fd);
  if (!f) { E() = EBADF; trace("%s(%d) EBADF", what, fd); if (fd >= 0 && fd_misuse) fd_misuse(what, fd); }
  return f;
}
static int do_close(int fd, const char* what) {
  FileP f = K.get(fd);
  if (!f) { E() = EBADF; trace("close(%d) EBADF", fd); if (fd >= 0 && fd_misuse) fd_misuse(what, fd); return -1; }
  K.fds[fd] = nullptr; trace("close(%d)", fd);
  if (--f->openfds == 0) f->last_close();
  return 0;
}

// ------------------------------------------------------------------ network
ListenFile::~ListenFile() { K.listeners.erase(this); for (auto& c : q) { auto cc = c; cc->aborted = true; after(cc->lat, [cc] { cc->cl->on_reset(); }); } }
std::shared_ptr<Conn> net_connect(ClientIface* cl, int port, i64 lat, size_t cap) {
  ListenFile* l = nullptr; for (auto* x : K.listeners) if (x->listening && !x->shut && x->port == port) l = x;
  if (!l) { trace("client connect refused"); cl->on_refused(); return nullptr; }
  auto c = std::make_shared<Conn>(); c->id = K.conns.size(); c->cl = cl; c->lat = lat; c->sndcap = cap; c->queued = true;
  K.conns.push_back(c); l->q.push_back(c); trace("conn#%d arrives", c->id);
  cl->on_connected(c.get());
  return c;
}
void net_client_data(std::shared_ptr<Conn> c, std::string b) {
  if (c->srv_closed) { if (!c->peer_gone) { auto cc = c; cc->aborted = true; after(c->lat, [cc] { cc->cl->on_reset(); }); } return; }
  c->total_rx += b.size(); c->rx += b; trace("conn#%d: %zu bytes arrive", c->id, b.size());
}
void net_client_fin(std::shared_ptr<Conn> c) { c->rx_eof = true; trace("conn#%d: FIN arrives", c->id); }
// As on Linux: what had arrived before stays readable, and after the client's FIN (CLOSE_WAIT) it is end-of-file to read and EPIPE to write.
void net_client_rst(std::shared_ptr<Conn> c) { if (!c->rx_eof) c->rx_reset = true; c->rst_known = true; if (draw(S_NET, 3) == 1) { c->rx.clear(); c->rxoff = 0; } c->inflight = 0; trace("conn#%d: RST arrives", c->id); }
void net_client_consumed(std::shared_ptr<Conn> c, size_t n) { c->inflight -= std::min(c->inflight, n); }
static void deliver(std::shared_ptr<Conn> c, std::string d) {
  i64 t = std::max(now_ns + c->lat, c->last_deliver + 1); c->last_deliver = t;
  at(t, [c, d] {
    if (c->aborted || c->peer_gone) { 
      if (c->peer_gone && !c->rst_known) { after(c->lat, [c] { if (!c->srv_closed) net_client_rst(c); }); }
      return; }
    c->cl->on_data(d.data(), d.size());
  });
}
void ConnFile::last_close() {
  Conn& k = *c; k.srv_closed = true; k.closes++; k.t_close = now_ns;
  if (K.on_close) K.on_close();
  bool unread = k.rxoff < k.rx.size() || so.linger0;
  auto cc = c;
  if (unread && !k.rst_known) {   // closing with unread input sends RST: undelivered output is lost
    k.aborted = true; trace("conn#%d: closed with %s -> RST to client", k.id, so.linger0 ? "SO_LINGER 0" : "unread input");
    after(k.lat, [cc] { cc->cl->on_reset(); });
  } else if (!k.rst_known) {
    i64 t = std::max(now_ns + k.lat, k.last_deliver + 1); k.last_deliver = t;
    at(t, [cc] { if (!cc->aborted && !cc->peer_gone) cc->cl->on_eof(); });
  }
}

// ------------------------------------------------------------------ files
static u64 ino_ctr = 100;
void Vfs::put(const std::string& p, std::vector<char> d, i64 mtime) {
  auto b = std::make_shared<Blob>(); b->d = std::move(d); b->mtime = mtime; b->ino = ino_ctr++; files[p] = b; hist[p].push_back({now_ns, b});
}
void Vfs::remove(const std::string& p) { files.erase(p); hist[p].push_back({now_ns, nullptr}); }
static void fill_stat(struct stat* st, BlobP b) {
  memset(st, 0, sizeof *st); st->st_mode = b->mode; st->st_size = b->d.size(); st->st_mtime = b->mtime; st->st_ino = b->ino; st->st_nlink = 1; st->st_blksize = 4096; st->st_blocks = (b->d.size() + 511) / 512;
}
i64 map_pages() { i64 n = 0; for (auto& m : K.maps) n += m.second / 4096; return n; }

static FILE* mk_std(bool err);
static FILE *f_out, *f_err;
static ssize_t std_write(void* ck, const char* b, size_t n) {
  bool err = ck != nullptr; std::string& s = err ? cap_err : cap_out;
  if (s.size() < (8u << 20)) s.append(b, n);
  return n;
}
static FILE* mk_std(bool err) {
  cookie_io_functions_t io = {}; io.write = std_write; FILE* f = fopencookie(err ? (void*)1 : nullptr, "w", io);
  setvbuf(f, nullptr, _IOFBF, 1 << 16); return f;
}
void flush_std() { if (f_out) fflush(f_out); if (f_err) fflush(f_err); }
static size_t std_len(bool err) { fflush(err ? f_err : f_out); return err ? cap_err.size() : cap_out.size(); }
struct StreamLock { int owner = -1, depth = 0; }; static StreamLock slocks[2];
static void slock(FILE* f) { auto& l = slocks[f == f_err]; if (cur && l.owner == cur->id) { l.depth++; return; } while (l.owner >= 0) block_until("stream lock", [&l] { return l.owner < 0; }); l.owner = cur ? cur->id : 0; l.depth = 1; }
static void sunlock(FILE* f) { auto& l = slocks[f == f_err]; if (--l.depth == 0) l.owner = -1; }
struct LogScope {   // records which bytes one output call produced
  bool on, err; size_t off;
  explicit LogScope(FILE* f) { on = f == f_out || f == f_err; err = f == f_err; point(P_LOG); if (on && cur) { auto& l = slocks[err]; while (l.owner >= 0 && l.owner != cur->id) block_until("stream lock", [&l] { return l.owner < 0; }); } if (on) off = std_len(err); }
  ~LogScope() { if (!on) return; size_t n = std_len(err); if (n > off && logw.size() < 200000) {
      Fiber* c = cur; logw.push_back({c ? c->id : -1, now_ns, off, n - off, c ? c->last_clock_read : -1, c ? c->last_log_write : -1, err});
      if (c) { c->last_log_write = now_ns; c->last_clock_read = -1; } } point(P_LOG); }
};
void persist_queues() {
  auto& P = R->persist; u32 tw = P.tw; memset(&P, 0, sizeof P);
  for (auto& c : K.conns) if (c->accepted && !c->aborted && !c->rx_reset && !c->rx_eof && !c->peer_gone) tw = 1;     // those the server's side closes first linger (TIME_WAIT)
  P.tw = tw;
  for (auto& e : K.mqs) { if (P.n >= 8) break; auto& q = P.q[P.n++]; auto& m = *e.second;
    snprintf(q.name, sizeof q.name, "%s", e.first.c_str()); q.maxmsg = m.maxmsg; q.msgsize = m.msgsize; q.mode = m.mode;
    for (auto& x : m.q) { if (q.nmsg >= 10) break; q.len[q.nmsg] = std::min<size_t>(x.d.size(), 64); q.prio[q.nmsg] = x.prio; memcpy(q.data + 64 * q.nmsg, x.d.data(), q.len[q.nmsg]); q.nmsg++; } }
}
void restore_queues() {
  auto& P = R->persist; K.mqs.clear();
  for (u32 i = 0; i < P.n; i++) { auto& q = P.q[i]; auto m = std::make_shared<Mq>(); m->name = q.name; m->maxmsg = q.maxmsg; m->msgsize = q.msgsize; m->mode = q.mode;
    for (u32 j = 0; j < q.nmsg; j++) m->q.push_back(MqMsg{std::string((char*)q.data + 64 * j, q.len[j]), q.prio[j], m->seq++});
    K.mqs[q.name] = m; }
}
static i64 intr_time(u32 stream, u32 den, int ctr) {
  (void)ctr;
  if (!fault(stream, 1, den)) return -1;
  static const i64 d[] = {0, 5000, 100000, 3000000, 200000000};
  return now_ns + d[draw(stream, 5)];
}
}  // namespace sim
using namespace sim;

extern "C" {
FILE *sim_stdout, *sim_stderr, *sim_stdin;
void sim_std_init() { f_out = sim_stdout = mk_std(false); f_err = sim_stderr = mk_std(true); sim_stdin = nullptr; }

int* sim___errno_location() { return &E(); }

// ---- allocation
void* sim_malloc(size_t n) { if (should_fail()) { E() = ENOMEM; return nullptr; } return track(block_get(n), n); }
void* sim_calloc(size_t a, size_t b) { if (should_fail()) { E() = ENOMEM; return nullptr; } size_t n; if (!heap_reuse || __builtin_mul_overflow(a, b, &n)) return track(calloc(a, b), a * b); void* p = block_get(n); if (p) memset(p, 0, n); return track(p, n); }
void* sim_realloc(void* p, size_t n) {
  if (should_fail()) { E() = ENOMEM; return nullptr; }
  bool was = p && blocks.count(p); size_t on = was ? blocks[p].n : 0;
  if (heap_reuse && was && n) { void* q = block_get(n); if (!q) return nullptr; track(q, n); memcpy(q, p, std::min(on, n)); untrack(p); block_put(p, on); return q; }
  if (p && !was) parked_again(p);
  if (was && owned.count(p)) { __asan_unpoison_memory_region(p, owned[p]); owned.erase(p); }
  void* q = realloc(p, n);
  if (q || (p && n == 0)) { if (was) { mem_forget(p, on); blocks.erase(p); alloc.live--; alloc.bytes -= on; } if (q) track(q, n); }
  return q;
}
void* sim_reallocarray(void* p, size_t a, size_t b) { return sim_realloc(p, a * b); }
void sim_free(void* p) { if (!p) return; auto it = blocks.find(p); if (it == blocks.end()) { parked_again(p); free(p); return; } size_t n = it->second.n; untrack(p); block_put(p, n); }
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char* sim_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char* sim___strdup(const char* s) { return sim_strdup(s); }
int sim_posix_memalign(void** o, size_t a, size_t n) { if (should_fail()) return ENOMEM; void* p = nullptr; int r = posix_memalign(&p, a, n); if (!r) { track(p, n); *o = p; } return r; }
void* sim_aligned_alloc(size_t a, size_t n) { if (should_fail()) { E() = ENOMEM; return nullptr; } return track(aligned_alloc(a, n), n); }
int sim_vasprintf(char** o, const char* f, va_list ap) { char* t = nullptr; int n = vasprintf(&t, f, ap); if (n < 0) return n; *o = sim_strdup(t); free(t); return *o ? n : -1; }
int sim_asprintf(char** o, const char* f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(o, f, ap); va_end(ap); return n; }

// ---- process
void sim___assert_fail(const char* e, const char* file, unsigned line, const char* fn) {
  const char* b = strrchr(file, '/'); violate(K_CRASH, "assert", "process aborts: assertion `%s' failed at %s:%u (%s) in thread %s", e, b ? b + 1 : file, line, fn, cur ? cur->name : "-"); finish_run(V_OK); }
void sim_abort() { violate(K_CRASH, "abort", "process calls abort() in thread %s", cur ? cur->name : "-"); finish_run(V_OK); }
void sim_exit(int c) { violate(K_CRASH, "exit", "process calls exit(%d) in thread %s", c, cur ? cur->name : "-"); finish_run(V_OK); }
void sim__exit(int c) { sim_exit(c); }
int sim_raise(int s) { violate(K_CRASH, "raise", "process raises signal %d", s); return 0; }
int sim_kill(pid_t, int) { return fail(EPERM); }
sighandler_t sim_signal(int s, sighandler_t h) { if (s == SIGPIPE) sigpipe_ignored = h != SIG_DFL; return SIG_DFL; }
int sim_sigaction(int s, const struct sigaction* a, struct sigaction* o) { if (o) memset(o, 0, sizeof *o); if (a && s == SIGPIPE) sigpipe_ignored = a->sa_handler != SIG_DFL; return 0; }
int sim_pthread_sigmask(int, const sigset_t*, sigset_t*) { return 0; }
pid_t sim_getpid() { return 4242; }
long sim_sysconf(int n) { return n == _SC_PAGESIZE ? 4096 : sysconf(n); }
int sim_getpagesize() { return 4096; }
long sim_syscall(long, ...) { return fail(ENOSYS); }

// ---- time
static void read_clock() {
  if (!cur) return;
  cur->last_clock_read = now_ns;
  if (!fault(S_F_CLOCK, 1, clock_hot)) return;        // the worst moment: the time is known, but not yet written down
  static const i64 js[] = {1000000000LL, -1000000000LL, 3600000000000LL, -86400000000000LL};
  u32 k = draw(S_F_CLOCK, 6); if (k < 4) wall_jump(js[k]); else { cur->stall_until = now_ns + (k == 4 ? 1000000000LL : 2500000000LL); count(C_STALL); trace("stalled for %.1fms after reading the clock", (cur->stall_until - now_ns) / 1e6); }
}
static struct tm* local_tm(const time_t* t, struct tm* o) { time_t v = *t + tz_s; gmtime_r(&v, o); o->tm_gmtoff = tz_s; return o; }
int sim_gettimeofday(struct timeval* tv, void*) { i64 w = wall_ns(); tv->tv_sec = w / 1000000000; tv->tv_usec = w % 1000000000 / 1000; read_clock(); point(P_TIME); return 0; }
time_t sim_time(time_t* t) { i64 w = wall_ns() / 1000000000; if (t) *t = w; read_clock(); point(P_TIME); return w; }
int sim_clock_gettime(clockid_t id, struct timespec* ts) {
  bool mono = id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME;
  i64 w = mono ? now_ns + 1000000000 : wall_ns(); ts->tv_sec = w / 1000000000; ts->tv_nsec = w % 1000000000; if (!mono) read_clock(); point(P_TIME); return 0; }
static struct tm s_tm; static char s_tbuf[64];
struct tm* sim_localtime(const time_t* t) { time_t v = *t; point(P_TIME); local_tm(&v, &s_tm); point(P_TIME); return &s_tm; }
struct tm* sim_gmtime(const time_t* t) { time_t v = *t; point(P_TIME); gmtime_r(&v, &s_tm); point(P_TIME); return &s_tm; }
struct tm* sim_localtime_r(const time_t* t, struct tm* o) { time_t v = *t; local_tm(&v, o); point(P_TIME); return o; }
struct tm* sim_gmtime_r(const time_t* t, struct tm* o) { time_t v = *t; gmtime_r(&v, o); point(P_TIME); return o; }
char* sim_ctime(const time_t* t) { time_t v = *t; point(P_TIME); local_tm(&v, &s_tm); asctime_r(&s_tm, s_tbuf); point(P_TIME); return s_tbuf; }
char* sim_ctime_r(const time_t* t, char* b) { time_t v = *t; struct tm m; local_tm(&v, &m); point(P_TIME); return asctime_r(&m, b); }
int sim_timespec_get(struct timespec* ts, int base) { return base == TIME_UTC && sim_clock_gettime(CLOCK_REALTIME, ts) == 0 ? base : 0; }
char* sim_asctime(const struct tm* t) { asctime_r(t, s_tbuf); point(P_TIME); return s_tbuf; }
time_t sim_mktime(struct tm* t) { time_t v = timegm(t) - tz_s; local_tm(&v, t); return v; }
void sim_tzset() {}
static i64 slept_left;
static int do_sleep(i64 ns) { i64 dl = now_ns + ns, in = intr_time(S_F_MQ, fc.mq_eintr, 0); if (block_until("sleep", [] { return false; }, dl, in) == WK_INTR) { slept_left = std::max<i64>(0, dl - now_ns); count(C_SLEEP_EINTR); trace("sleep: EINTR"); return fail(EINTR); } slept_left = 0; return 0; }
int sim_nanosleep(const struct timespec* r, struct timespec* rem) { int rc = do_sleep(r->tv_sec * 1000000000LL + r->tv_nsec); if (rc && rem) { rem->tv_sec = slept_left / 1000000000; rem->tv_nsec = slept_left % 1000000000; } return rc; }
int sim_clock_nanosleep(clockid_t id, int fl, const struct timespec* r, struct timespec*) {
  i64 v = r->tv_sec * 1000000000LL + r->tv_nsec; if (fl & TIMER_ABSTIME) v -= id == CLOCK_REALTIME ? wall_ns() : now_ns + 1000000000; return v > 0 && do_sleep(v) ? EINTR : 0; }
int sim_usleep(useconds_t u) { return do_sleep((i64)u * 1000); }
unsigned sim_sleep(unsigned s) { return do_sleep((i64)s * 1000000000) ? (slept_left + 999999999) / 1000000000 : 0; }

// ---- stdio
struct MemS { char* b = nullptr; size_t n = 0; char** ub; size_t* un; }; static std::map<FILE*, MemS*> mems;
static void mem_flushed(FILE* f);
static FILE* real_std(FILE* f) { return f; }
int sim_vfprintf(FILE* f, const char* fmt, va_list ap) { LogScope l(f); return vfprintf(real_std(f), fmt, ap); }
int sim_fprintf(FILE* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r; { LogScope l(f); r = vfprintf(f, fmt, ap); } va_end(ap); return r; }
ssize_t sim_write(int, const void*, size_t);
int sim_vdprintf(int fd, const char* fmt, va_list ap) { char* t = nullptr; int n = vasprintf(&t, fmt, ap); if (n < 0) return n; ssize_t r = sim_write(fd, t, n); free(t); return (int)r; }
int sim_dprintf(int fd, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vdprintf(fd, fmt, ap); va_end(ap); return r; }
int sim_printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r; { LogScope l(f_out); r = vfprintf(f_out, fmt, ap); } va_end(ap); return r; }
int sim_vprintf(const char* fmt, va_list ap) { LogScope l(f_out); return vfprintf(f_out, fmt, ap); }
int sim_puts(const char* s) { LogScope l(f_out); return fprintf(f_out, "%s\n", s); }
int sim_fputs(const char* s, FILE* f) { LogScope l(f); return fputs(s, f); }
int sim_fputc(int c, FILE* f) { LogScope l(f); return fputc(c, f); }
int sim_putc(int c, FILE* f) { return sim_fputc(c, f); }
int sim__IO_putc(int c, FILE* f) { return sim_fputc(c, f); }
int sim_putchar(int c) { return sim_fputc(c, f_out); }
size_t sim_fwrite(const void* p, size_t a, size_t b, FILE* f) { LogScope l(f); return fwrite(p, a, b, f); }
int sim_fflush(FILE* f) { point(P_LOG); int r = f ? fflush(f) : 0; mem_flushed(f); return r; }
void sim_setbuf(FILE*, char*) {}
int sim_setvbuf(FILE*, char*, int, size_t) { return 0; }
void sim_perror(const char* s) { int e = E(); LogScope l(f_err); if (s && *s) fprintf(f_err, "%s: %s\n", s, strerror(e)); else fprintf(f_err, "%s\n", strerror(e)); }
static int stream_fd(FILE*);
int sim_fileno(FILE* f) { return f == f_out ? 1 : f == f_err ? 2 : stream_fd(f); }
int sim_fileno_unlocked(FILE* f) { return sim_fileno(f); }
void sim_flockfile(FILE* f) { point(P_LOG); if (f == f_out || f == f_err) slock(f); } void sim_funlockfile(FILE* f) { if (f == f_out || f == f_err) sunlock(f); point(P_LOG); }
int sim_ftrylockfile(FILE* f) { point(P_LOG); if (f != f_out && f != f_err) return 0; auto& l = slocks[f == f_err]; if (l.owner >= 0 && cur && l.owner != cur->id) return 1; slock(f); return 0; }
int sim_fputs_unlocked(const char* s, FILE* f) { return sim_fputs(s, f); } int sim_fputc_unlocked(int c, FILE* f) { return sim_fputc(c, f); } int sim_putc_unlocked(int c, FILE* f) { return sim_fputc(c, f); } int sim_putchar_unlocked(int c) { return sim_fputc(c, f_out); }
int sim_fflush_unlocked(FILE* f) { return sim_fflush(f); } size_t sim_fwrite_unlocked(const void* p, size_t a, size_t b, FILE* f) { return sim_fwrite(p, a, b, f); }
void sim_setlinebuf(FILE*) {} void sim_setbuffer(FILE*, char*, size_t) {}
int sim_vdprintf(int fd, const char* fmt, va_list ap);

// ---- FILE* on the simulated file system
static ssize_t ck_read(void* ck, char* b, size_t n) {
  if (S_ISDIR(((RegFile*)ck)->b->mode)) return fail(EISDIR);
  RegFile* f = (RegFile*)ck; size_t left = f->pos >= (off_t)f->b->d.size() ? 0 : f->b->d.size() - f->pos; size_t m = std::min(n, left);
  if (m > 1 && fault(S_F_READ, 1, fc.read_short)) { m = 1 + draw(S_F_READ, m - 1); count(C_READ_SHORT); }
  memcpy(b, f->b->d.data() + f->pos, m); f->pos += m; return m; }
static int ck_seek(void* ck, off64_t* off, int wh) {
  RegFile* f = (RegFile*)ck; off_t o = wh == SEEK_SET ? *off : wh == SEEK_CUR ? f->pos + *off : (off_t)f->b->d.size() + *off; if (o < 0) return -1; f->pos = *off = o; return 0; }
struct FEnt { int fd; FileP f; }; static std::map<FILE*, FEnt> fstreams;
static BlobP lookup(const char* p) { auto it = vfs.files.find(vfs.real(p)); return it == vfs.files.end() ? nullptr : it->second; }
FILE* sim_fopen(const char* path, const char* mode) {
  fpt();
  if (fault(S_F_OPEN, 1, fc.open_err)) { static const int e[] = {EMFILE, ENFILE, EACCES, ENOMEM}; count(C_OPEN_ERR); if (cur) cur->faults++; E() = e[draw(S_F_OPEN, 4)]; return nullptr; }
  if (strpbrk(mode, "wa+")) { E() = EROFS; return nullptr; }
  BlobP b = lookup(path); if (!b) { E() = ENOENT; return nullptr; }
  auto f = std::make_shared<RegFile>(b); f->path = path; int fd = K.alloc_fd(f); if (fd < 0) return nullptr;
  cookie_io_functions_t io = {}; io.read = ck_read; io.seek = ck_seek; FILE* r = fopencookie(f.get(), "r", io);
  if (r) setvbuf(r, nullptr, _IOFBF, 512);
  fstreams[r] = {fd, f}; return r;
}
FILE* sim_fopen64(const char* p, const char* m) { return sim_fopen(p, m); }
int sim_fclose(FILE* f) { fpt(); { auto m = mems.find(f); if (m != mems.end()) { MemS* s = m->second; mems.erase(m); int r = fclose(f); *s->ub = s->b; *s->un = s->n; track(s->b, s->n + 1); delete s; return r; } } auto it = fstreams.find(f); if (it == fstreams.end()) { if (f == f_out || f == f_err) return 0; return fclose(f); } FEnt e = it->second; fstreams.erase(it); fclose(f); do_close(e.fd, "fclose"); return 0; }
size_t sim_fread(void* p, size_t a, size_t b, FILE* f) { fpt(); size_t r = fread(p, a, b, f); fpt(); return r; }
char* sim_fgets(char* b, int n, FILE* f) { fpt(); return fgets(b, n, f); }
ssize_t sim_getline(char** l, size_t* n, FILE* f) { char* t = nullptr; size_t tn = 0; ssize_t r = getline(&t, &tn, f); if (r >= 0) { if (!*l || *n < (size_t)r + 1) { *l = (char*)sim_realloc(*l, r + 1); *n = r + 1; } memcpy(*l, t, r + 1); } free(t); return r; }

ssize_t sim_getdelim(char** l, size_t* n, int d, FILE* f) { char* t = nullptr; size_t tn = 0; fpt(); ssize_t r = getdelim(&t, &tn, d, f); if (r >= 0) { if (!*l || *n < (size_t)r + 1) { *l = (char*)sim_realloc(*l, r + 1); *n = r + 1; } memcpy(*l, t, r + 1); } free(t); return r; }
// A stream in memory: its buffer becomes the caller's when the stream is closed (or flushed), so it is counted from then on.
FILE* sim_open_memstream(char** b, size_t* n) { if (should_fail()) { E() = ENOMEM; return nullptr; } auto* m = new MemS; m->ub = b; m->un = n; FILE* f = open_memstream(&m->b, &m->n); mems[f] = m; *b = nullptr; *n = 0; return f; }
static void mem_flushed(FILE* f) { auto m = mems.find(f); if (m != mems.end()) { *m->second->ub = m->second->b; *m->second->un = m->second->n; } }
FILE* sim_fmemopen(void* p, size_t n, const char* m) { return fmemopen(p, n, m); }
static int stream_fd(FILE* f) { auto it = fstreams.find(f); if (it != fstreams.end()) return it->second.fd; return fail(EBADF); }
ssize_t sim_recvfrom(int, void*, size_t, int, struct sockaddr*, socklen_t*); ssize_t sim_sendto(int, const void*, size_t, int, const struct sockaddr*, socklen_t);
static ssize_t conn_rd(void* ck, char* b, size_t n) { return sim_recvfrom((int)(intptr_t)ck, b, n, 0, nullptr, nullptr); }
static ssize_t conn_wr(void* ck, const char* b, size_t n) { ssize_t r = sim_sendto((int)(intptr_t)ck, b, n, 0, nullptr, 0); return r < 0 ? 0 : r; }
FILE* sim_fdopen(int fd, const char* mode) {
  fpt(); if (fd == 1) return f_out; if (fd == 2) return f_err; FileP f = need(fd, "fdopen"); if (!f) return nullptr;
  cookie_io_functions_t io = {}; FILE* r = nullptr;
  if (f->type == File::REG) { io.read = ck_read; io.seek = ck_seek; r = fopencookie(f.get(), "r", io); if (r) setvbuf(r, nullptr, _IOFBF, 512); }
  else if (f->type == File::CONN) { io.read = conn_rd; io.write = conn_wr; r = fopencookie((void*)(intptr_t)fd, mode, io); }
  else { E() = EBADF; return nullptr; }
  if (r) fstreams[r] = {fd, f};
  return r;
}
int sim_fgetc_unlocked(FILE* f) { fpt(); return fgetc(f); } int sim_getc_unlocked(FILE* f) { fpt(); return fgetc(f); } size_t sim_fread_unlocked(void* p, size_t a, size_t b, FILE* f) { return sim_fread(p, a, b, f); } char* sim_fgets_unlocked(char* b, int n, FILE* f) { return sim_fgets(b, n, f); }
int sim_fseek(FILE* f, long o, int w) { fpt(); return fseek(f, o, w); } int sim_fseeko(FILE* f, off_t o, int w) { fpt(); return fseeko(f, o, w); } long sim_ftell(FILE* f) { fpt(); return ftell(f); } off_t sim_ftello(FILE* f) { fpt(); return ftello(f); } void sim_rewind(FILE* f) { fpt(); rewind(f); }
int sim_fgetc(FILE* f) { fpt(); return fgetc(f); } int sim_getc(FILE* f) { return sim_fgetc(f); } int sim__IO_getc(FILE* f) { return sim_fgetc(f); }
int sim_dup2(int a, int b) { point(P_SYS); FileP f = need(a, "dup2"); if (!f) return -1; if (a == b) return b; if (b < 0 || b >= K.limit) return fail(EBADF); while ((int)K.fds.size() <= b) { K.fds.push_back(nullptr); K.gen.push_back(0); } if (K.fds[b]) do_close(b, "dup2"); K.fds[b] = f; K.gen[b]++; f->openfds++; return b; }
int sim_dup3(int a, int b, int) { return sim_dup2(a, b); }
void* sim_memalign(size_t a, size_t n) { return sim_aligned_alloc(a, n); }
clock_t sim_clock() { return (clock_t)(now_ns / 1000); }

// ---- threads
static Fiber* fib_of(pthread_t t) { size_t i = (size_t)t - 1; return i < fibers.size() ? fibers[i] : nullptr; }
extern int h_thread_create_allowed();
int sim_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  point(P_THREAD);
  if (fault(S_F_START, 1, fc.start_fail)) { count(C_START_FAIL); cur->faults++; trace("pthread_create fails"); return EAGAIN; }
  static int n; char nm[24]; snprintf(nm, sizeof nm, "thread%d", n++);
  Fiber* f = spawn(nm, [fn, arg] { void* r = fn(arg); fiber_exit(r); });
  *t = (pthread_t)(f->id + 1); trace("pthread_create -> %s", nm); point(P_THREAD); return 0;
}
int sim_pthread_join(pthread_t t, void** ret) { point(P_THREAD); Fiber* f = fib_of(t); if (!f) return ESRCH; if (f == cur) return EDEADLK; block_until("pthread_join", [f] { return f->st == Fiber::Done; }); f->joined = true; if (ret) *ret = f->ret; return 0; }
int sim_pthread_detach(pthread_t t) { Fiber* f = fib_of(t); if (!f) return ESRCH; f->detached = true; return 0; }
pthread_t sim_pthread_self() { return cur ? cur->id + 1 : 0; }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
void sim_pthread_exit(void* r) { fiber_exit(r); }
int sim_pthread_cancel(pthread_t) { return ESRCH; }
int sim_pthread_kill(pthread_t, int) { return 0; }
int sim_pthread_setname_np(pthread_t, const char*) { return 0; }
int sim_pthread_attr_init(pthread_attr_t*) { return 0; } int sim_pthread_attr_destroy(pthread_attr_t*) { return 0; }
int sim_pthread_attr_setstacksize(pthread_attr_t*, size_t) { return 0; } int sim_pthread_attr_getstacksize(const pthread_attr_t*, size_t* n) { *n = 512 * 1024; return 0; } int sim_pthread_attr_setguardsize(pthread_attr_t*, size_t) { return 0; } int sim_pthread_attr_setscope(pthread_attr_t*, int) { return 0; } int sim_pthread_attr_setinheritsched(pthread_attr_t*, int) { return 0; } int sim_pthread_setcancelstate(int, int* o) { if (o) *o = 0; return 0; } int sim_pthread_setcanceltype(int, int* o) { if (o) *o = 0; return 0; } int sim_pthread_getname_np(pthread_t, char* b, size_t n) { if (n) *b = 0; return 0; }
int sim_pthread_condattr_init(pthread_condattr_t*) { return 0; } int sim_pthread_condattr_destroy(pthread_condattr_t*) { return 0; } int sim_pthread_condattr_setclock(pthread_condattr_t*, clockid_t) { return 0; } int sim_pthread_attr_setdetachstate(pthread_attr_t*, int) { return 0; }
int sim_sched_yield() { yield_now(); return 0; }
struct Mx { int owner = -1; int depth = 0; int waiters = 0; }; static std::map<void*, Mx> mxs; static std::map<void*, u64> cvs; static std::map<void*, u64> cvsig;
static bool mx_rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static bool mx_chk(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK; }
static std::map<const void*, int> mxattr;
int sim_pthread_mutexattr_init(pthread_mutexattr_t* a) { mxattr[a] = 0; return 0; } int sim_pthread_mutexattr_destroy(pthread_mutexattr_t*) { return 0; } int sim_pthread_mutexattr_settype(pthread_mutexattr_t* a, int k) { mxattr[a] = k; return 0; } int sim_pthread_mutexattr_setpshared(pthread_mutexattr_t*, int) { return 0; } int sim_pthread_mutexattr_setrobust(pthread_mutexattr_t*, int) { return 0; } int sim_pthread_mutexattr_setprotocol(pthread_mutexattr_t*, int) { return 0; }
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); m->__data.__kind = a ? mxattr[a] & 3 : 0; mxs[m] = Mx(); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t* m) { mxs.erase(m); return 0; }
static int mx_lock(pthread_mutex_t* m, i64 dl) { point(P_THREAD); auto& x = mxs[m]; if (x.owner == cur->id && mx_rec(m)) { x.depth++; return 0; } if (x.owner == cur->id && mx_chk(m)) return EDEADLK;
  while (mxs[m].owner >= 0) if (block_until("mutex", [m] { return mxs[m].owner < 0; }, dl, -1) == WK_TIMEOUT) return ETIMEDOUT; mxs[m].owner = cur->id; mxs[m].depth = 1; return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t* m) { return mx_lock(m, -1); }
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { point(P_THREAD); auto& x = mxs[m]; if (x.owner == cur->id && mx_rec(m)) { x.depth++; return 0; } if (x.owner >= 0) return EBUSY; x.owner = cur->id; x.depth = 1; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { auto& x = mxs[m]; if (mx_rec(m) && --x.depth > 0) return 0; x.owner = -1; x.depth = 0; point(P_THREAD); return 0; }
struct Spin { int owner = -1; }; static std::map<const volatile void*, Spin> spins;
int sim_pthread_spin_init(pthread_spinlock_t* l, int) { spins[l] = Spin(); return 0; } int sim_pthread_spin_destroy(pthread_spinlock_t* l) { spins.erase(l); return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t* l) { point(P_THREAD); while (spins[l].owner >= 0) block_until("spinlock", [l] { return spins[l].owner < 0; }); spins[l].owner = cur->id; return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t* l) { point(P_THREAD); if (spins[l].owner >= 0) return EBUSY; spins[l].owner = cur->id; return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t* l) { spins[l].owner = -1; point(P_THREAD); return 0; }
struct Bar { unsigned n = 0, in = 0; u64 round = 0; }; static std::map<void*, Bar> bars;
int sim_pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n) { bars[b] = Bar{n, 0, 0}; return 0; } int sim_pthread_barrier_destroy(pthread_barrier_t* b) { bars.erase(b); return 0; }
int sim_pthread_barrier_wait(pthread_barrier_t* b) { point(P_THREAD); auto& x = bars[b]; u64 r = x.round; if (++x.in == x.n) { x.in = 0; x.round++; return PTHREAD_BARRIER_SERIAL_THREAD; } block_until("barrier", [b, r] { return bars[b].round != r; }); return 0; }
int sim_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; } int sim_pthread_cond_destroy(pthread_cond_t*) { return 0; }
struct CW { Fiber* f; bool woke; }; static std::map<void*, std::deque<CW*>> cw;
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, i64 dl) {
  CW w{cur, false}; cw[c].push_back(&w); mxs[m].owner = -1; mxs[m].depth = 0; int r = block_until("cond", [&w] { return w.woke; }, dl, -1);
  auto& q = cw[c]; q.erase(std::remove(q.begin(), q.end(), &w), q.end());
  while (mxs[m].owner >= 0) block_until("mutex", [m] { return mxs[m].owner < 0; }); mxs[m].owner = cur->id; mxs[m].depth = 1; return r == WK_TIMEOUT && !w.woke ? ETIMEDOUT : 0; }
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, -1); }
static i64 abs_wall(const struct timespec* t) { i64 d = t->tv_sec * 1000000000LL + t->tv_nsec - wall_ns(); return now_ns + (d < 0 ? 0 : d); }
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cond_wait(c, m, abs_wall(t)); }
int sim_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { return mx_lock(m, abs_wall(t)); }
int sim_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* t) { i64 v = t->tv_sec * 1000000000LL + t->tv_nsec; return cond_wait(c, m, id == CLOCK_MONOTONIC ? std::max(now_ns, v - 1000000000) : abs_wall(t)); }
int sim_pthread_cond_signal(pthread_cond_t* c) { for (auto* w : cw[c]) if (!w->woke) { w->woke = true; break; } point(P_THREAD); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t* c) { for (auto* w : cw[c]) w->woke = true; point(P_THREAD); return 0; }
int sim_pthread_once(pthread_once_t* o, void (*fn)(void)) { static std::map<void*, int> st; int& s = st[o]; if (s == 0) { s = 1; fn(); st[o] = 2; } else if (s == 1) block_until("once", [o] { return st[o] == 2; }); return 0; }
static std::map<void*, int> sems;
int sim_sem_init(sem_t* s, int, unsigned v) { sems[s] = v; return 0; } int sim_sem_destroy(sem_t* s) { sems.erase(s); return 0; }
int sim_sem_wait(sem_t* s) { point(P_THREAD); while (sems[s] <= 0) block_until("sem", [s] { return sems[s] > 0; }); sems[s]--; return 0; }
int sim_sem_trywait(sem_t* s) { point(P_THREAD); if (sems[s] <= 0) return fail(EAGAIN); sems[s]--; return 0; }
int sim_sem_timedwait(sem_t* s, const struct timespec* t) { point(P_THREAD); i64 dl = abs_wall(t); while (sems[s] <= 0) if (block_until("sem", [s] { return sems[s] > 0; }, dl, -1) == WK_TIMEOUT) return fail(ETIMEDOUT); sems[s]--; return 0; } int sim_sem_getvalue(sem_t* s, int* v) { *v = sems[s]; return 0; }
int sim_sem_post(sem_t* s) { sems[s]++; point(P_THREAD); return 0; }
struct RW { int r = 0; int w = -1; }; static std::map<void*, RW> rws;
int sim_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { rws[l] = RW(); return 0; } int sim_pthread_rwlock_destroy(pthread_rwlock_t* l) { rws.erase(l); return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* l) { point(P_THREAD); while (rws[l].w >= 0) block_until("rwlock", [l] { return rws[l].w < 0; }); rws[l].r++; return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* l) { point(P_THREAD); while (rws[l].w >= 0 || rws[l].r) block_until("rwlock", [l] { return rws[l].w < 0 && !rws[l].r; }); rws[l].w = cur->id; return 0; }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { point(P_THREAD); if (rws[l].w >= 0) return EBUSY; rws[l].r++; return 0; } int sim_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { point(P_THREAD); if (rws[l].w >= 0 || rws[l].r) return EBUSY; rws[l].w = cur->id; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t* l) { if (rws[l].w >= 0) rws[l].w = -1; else rws[l].r--; point(P_THREAD); return 0; }
static std::map<unsigned, int> tkeys; static unsigned nkey;
int sim_pthread_key_create(pthread_key_t* k, void (*)(void*)) { *k = nkey++; return 0; } int sim_pthread_key_delete(pthread_key_t) { return 0; }
int sim_pthread_setspecific(pthread_key_t k, const void* v) { cur->tls[(void*)(uintptr_t)(k + 1)] = (void*)v; return 0; }
void* sim_pthread_getspecific(pthread_key_t k) { auto it = cur->tls.find((void*)(uintptr_t)(k + 1)); return it == cur->tls.end() ? nullptr : it->second; }
struct EmuTls { size_t size, align; void* obj; void* templ; };
void* sim___emutls_get_address(EmuTls* o) { static std::unordered_map<void*, void*> host; auto& m = cur ? cur->tls : host; void*& p = m[o]; if (!p) { p = calloc(1, o->size + 64); if (o->templ) memcpy(p, o->templ, o->size); } return p; }

// ---- regex
static bool on_stack(const void* p) { if (cur && (uintptr_t)p - (uintptr_t)cur->stk < cur->stksz) return true; void* fs = __asan_get_current_fake_stack(); return fs && __asan_addr_is_in_fake_stack(fs, (void*)p, nullptr, nullptr); }
// A pattern anyone else can see is compiled in full view: not usable until it is done.
int sim_regcomp(regex_t* r, const char* p, int f) { if (!on_stack(r)) { mem_range(r, sizeof *r, true); memset(r, 0, sizeof *r); for (int k = 0; k < 4; k++) point(P_REGEX); } int rc = regcomp(r, p, f); if (!rc) alloc.regex++; point(P_REGEX); return rc; }
int sim_regexec(const regex_t* r, const char* s, size_t n, regmatch_t* m, int f) { if (!on_stack(r)) { mem_range(r, sizeof *r, false); if (!r->re_nsub && !r->buffer) trace("pattern used before it is compiled"); } return regexec(r, s, n, m, f); }
void sim_regfree(regex_t* r) { alloc.regex--; regfree(r); point(P_REGEX); }

// ---- sockets
static const int start_errs[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM, EACCES};
static bool start_fault(const char* w, const int* errs, int n) {
  if (!cur || !fault(S_F_START, 1, fc.start_fail)) return false;
  E() = errs[draw(S_F_START, n)]; count(C_START_FAIL); cur->faults++; trace("%s fails: %s", w, strerror(E())); return true; }
int sim_socket(int dom, int type, int) { point(P_SYS); if (start_fault("socket", start_errs, 5)) return -1; auto f = std::make_shared<ListenFile>(); (void)dom; if (type & SOCK_NONBLOCK) f->flags |= O_NONBLOCK; int fd = K.alloc_fd(f); trace("socket() = %d", fd); return fd; }
int sim_setsockopt(int fd, int lvl, int opt, const void* v, socklen_t n) {
  point(P_SYS); FileP f = need(fd, "setsockopt"); if (!f) return -1; if (f->type != File::LISTEN && f->type != File::CONN) return fail(ENOTSOCK);
  if (cur && fault(S_F_START, 2, fc.start_fail)) { count(C_START_SOFT); cur->faults++; trace("setsockopt fails"); E() = draw(S_F_START, 2) ? ENOBUFS : ENOMEM; return -1; }
  if (lvl != SOL_SOCKET || !v) return 0;
  if ((opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && n >= sizeof(struct timeval)) { auto* t = (const struct timeval*)v; (opt == SO_RCVTIMEO ? f->so.rcvto : f->so.sndto) = t->tv_sec * 1000000000LL + t->tv_usec * 1000LL; }
  if (opt == SO_LINGER && n >= sizeof(struct linger)) { auto* l = (const struct linger*)v; f->so.linger0 = l->l_onoff && l->l_linger == 0; }
  if ((opt == SO_REUSEADDR || opt == SO_REUSEPORT) && n >= sizeof(int)) f->so.reuse |= *(const int*)v != 0;
  if (opt == SO_RCVLOWAT && n >= sizeof(int)) f->so.lowat = std::max(1, *(const int*)v);
  return 0; }
int sim_getsockopt(int fd, int, int opt, void* v, socklen_t*) { if (!need(fd, "getsockopt")) return -1; if (opt == SO_ERROR) *(int*)v = 0; return 0; }
int sim_bind(int fd, const struct sockaddr* a, socklen_t) {
  point(P_SYS); FileP f = need(fd, "bind"); if (!f) return -1; static const int e[] = {EADDRINUSE, EACCES, EADDRNOTAVAIL}; if (start_fault("bind", e, 3)) return -1;
  if (f->type != File::LISTEN) return fail(ENOTSOCK); auto* l = (ListenFile*)f.get(); l->port = ntohs(((const sockaddr_in*)a)->sin_port); l->bound = true;
  for (auto* x : K.listeners) if (x != l && x->listening && x->port == l->port) { l->bound = false; return fail(EADDRINUSE); }
  if (R->persist.tw && !l->so.reuse) { l->bound = false; trace("bind: the address still has connections of the previous instance"); return fail(EADDRINUSE); }
  trace("bind port %d", l->port); return 0; }
int sim_listen(int fd, int) { point(P_SYS); FileP f = need(fd, "listen"); if (!f) return -1; static const int e[] = {EADDRINUSE}; if (start_fault("listen", e, 1)) return -1; if (f->type != File::LISTEN) return fail(ENOTSOCK); auto* l = (ListenFile*)f.get(); l->listening = true; K.listeners.insert(l); return 0; }
static int do_accept(int fd, struct sockaddr* a, socklen_t* sl, int fl) {
  point(P_ACCEPT);
  FileP f = need(fd, "accept"); if (!f) return -1; if (f->type != File::LISTEN) return fail(f->type == File::CONN ? EINVAL : ENOTSOCK);
  auto* l = (ListenFile*)f.get(); if (!l->listening || l->shut) return fail(EINVAL);
  if (fault(S_F_ACCEPT, 1, fc.accept_emfile)) { static const int e[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM}; E() = e[draw(S_F_ACCEPT, 4)]; count(C_ACCEPT_EMFILE); trace("accept: %s", strerror(E())); return -1; }
  if (fault(S_F_ACCEPT, 1, fc.accept_err)) { static const int e[] = {ECONNABORTED, EPROTO, ENETUNREACH, EHOSTUNREACH, EHOSTDOWN, ENETDOWN, ENONET, EOPNOTSUPP, ENOPROTOOPT}; E() = e[draw(S_F_ACCEPT, 9)]; count(C_ACCEPT_ERR); trace("accept: %s", strerror(E())); return -1; }
  for (;;) {
    if (l->shut) return fail(EINVAL);
    if (!l->q.empty()) break;
    if (l->flags & O_NONBLOCK) return fail(EAGAIN);
    i64 in = intr_time(S_F_ACCEPT, fc.accept_eintr, 0);
    int w = block_until("accept", [l] { return l->shut || !l->q.empty(); }, l->so.rcvto ? now_ns + l->so.rcvto : -1, in);
    if (w == WK_TIMEOUT) return fail(EAGAIN);
    if (w == WK_INTR) { count(C_ACCEPT_EINTR); trace("accept: EINTR"); return fail(EINTR); }
  }
  auto c = l->q.front(); l->q.pop_front();
  auto cf = std::make_shared<ConnFile>(c); cf->so = l->so; if (fl & SOCK_NONBLOCK) cf->flags |= O_NONBLOCK;
  int n = K.alloc_fd(cf); if (n < 0) { l->q.push_front(c); return -1; }
  c->accepted = true; c->fd = n; c->t_accept = now_ns; trace("accept() = %d (conn#%d)", n, c->id);
  if (a && sl) { struct sockaddr_in s = {}; s.sin_family = AF_INET; s.sin_port = htons(40000 + c->id); s.sin_addr.s_addr = htonl(0x7f000001); memcpy(a, &s, std::min<size_t>(*sl, sizeof s)); *sl = sizeof s; }
  point(P_ACCEPT); return n;
}
int sim_accept(int fd, struct sockaddr* a, socklen_t* l) { return do_accept(fd, a, l, 0); }
int sim_accept4(int fd, struct sockaddr* a, socklen_t* l, int fl) { return do_accept(fd, a, l, fl); }
static ssize_t conn_recv(FileP f, void* buf, size_t n, int fl) {
  auto cp = ((ConnFile*)f.get())->c; Conn* c = cp.get();
  for (;;) {
    if (c->rx_reset && c->rxoff >= c->rx.size()) { c->rx_reset = false; c->rx_eof = true; c->err_seen = c->fatal_seen = true; count(C_RECV_RST); return fail(ECONNRESET); }
    size_t av = c->rx.size() - c->rxoff;
    if (av && (av >= std::min<size_t>(n, f->so.lowat) || c->rx_eof || c->rx_reset || (f->flags & O_NONBLOCK) || (fl & MSG_DONTWAIT))) {
      size_t m = std::min(av, n);
      if ((fl & MSG_WAITALL) && m < n && !c->rx_eof) { int w = block_until("recv", [c, n] { return c->rx.size() - c->rxoff >= n || c->rx_eof || c->rx_reset; }); (void)w; m = std::min(c->rx.size() - c->rxoff, n); }
      else if (m > 1 && fault(S_F_RECV, 1, fc.recv_short)) { m = 1 + draw(S_F_RECV, m - 1); count(C_RECV_SHORT); }
      memcpy(buf, c->rx.data() + c->rxoff, m);
      if (!(fl & MSG_PEEK)) { c->rxoff += m; if (c->rxoff > 65536) { c->rx.erase(0, c->rxoff); c->rxoff = 0; } }
      trace("recv(conn#%d) = %zu", c->id, m); note(m); return m;
    }
    if (n == 0) return 0;
    if (c->rx_eof) { count(C_RECV_EOF); trace("recv(conn#%d) = EOF", c->id); return 0; }
    if ((f->flags & O_NONBLOCK) || (fl & MSG_DONTWAIT)) return fail(EAGAIN);
    i64 in = intr_time(S_F_RECV, fc.recv_eintr, 0);
    size_t want = std::min<size_t>(n, f->so.lowat);
    int w = block_until("recv", [c, want] { return c->rx.size() - c->rxoff >= want || c->rx_eof || c->rx_reset; }, f->so.rcvto ? now_ns + f->so.rcvto : -1, in);
    if (w == WK_TIMEOUT) { trace("recv(conn#%d): EAGAIN (SO_RCVTIMEO)", c->id); return fail(EAGAIN); }
    if (w == WK_INTR) { count(C_RECV_EINTR); trace("recv(conn#%d): EINTR", c->id); return fail(EINTR); }
  }
}
ssize_t sim_recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr*, socklen_t*) { point(P_RECV); FileP f = need(fd, "recv"); if (!f) return -1; if (f->type != File::CONN) return fail(f->type == File::LISTEN ? ENOTCONN : ENOTSOCK); ssize_t r = conn_recv(f, b, n, fl); point(P_RECV); return r; }
ssize_t sim_readv(int, const struct iovec*, int);
ssize_t sim_recvmsg(int fd, struct msghdr* m, int fl) { for (size_t i = 0; i < m->msg_iovlen; i++) if (m->msg_iov[i].iov_len) return sim_recvfrom(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, fl, nullptr, nullptr); return 0; }
ssize_t sim_recv(int fd, void* b, size_t n, int fl) { return sim_recvfrom(fd, b, n, fl, nullptr, nullptr); }
static ssize_t conn_send(FileP f, const char* b, size_t n, int fl) {
  auto cp = ((ConnFile*)f.get())->c; Conn* c = cp.get(); size_t done = 0;
  auto broken = [&]() -> ssize_t {
    c->err_seen = c->fatal_seen = true; count(C_SEND_PIPE);
    if (c->rx_reset) { c->rx_reset = false; c->rx_eof = true; trace("send(conn#%d): ECONNRESET", c->id); return fail(ECONNRESET); }
    if (!(fl & MSG_NOSIGNAL) && !sigpipe_ignored) { violate(K_CRASH, "sigpipe", "process killed by SIGPIPE writing to a connection the client closed"); finish_run(V_OK); }
    trace("send(conn#%d): EPIPE", c->id); return fail(EPIPE); };
  if (c->rst_known || c->shut_wr) return broken();
  if (n == 0) return 0;
  size_t lim = n;
  if (n > 1 && fault(S_F_SEND, 1, fc.send_short)) { lim = 1 + draw(S_F_SEND, n - 1); count(C_SEND_SHORT); }
  for (;;) {
    size_t room = c->sndcap > c->inflight ? c->sndcap - c->inflight : 0, m = std::min(room, lim - done);
    if (m) { c->inflight += m; c->total_tx += m; deliver(cp, std::string(b + done, m)); done += m; note(m); }
    if (done == lim) { trace("send(conn#%d, %zu) = %zu", c->id, n, done); return done; }
    if ((f->flags & O_NONBLOCK) || (fl & MSG_DONTWAIT)) { if (done) { return done; } return fail(EAGAIN); }
    count(C_SEND_BLOCK);
    i64 in = intr_time(S_F_SEND, fc.send_eintr, 0);
    int w = block_until("send", [c] { return c->inflight < c->sndcap || c->rst_known; }, f->so.sndto ? now_ns + f->so.sndto : -1, in);
    if (w == WK_TIMEOUT) { trace("send(conn#%d): timed out (SO_SNDTIMEO)", c->id); if (done) return done; return fail(EAGAIN); }
    if (w == WK_INTR) { count(C_SEND_EINTR); trace("send(conn#%d): interrupted after %zu", c->id, done); if (done) return done; return fail(EINTR); }
    if (c->rst_known) { if (done) return done; return broken(); }
  }
}
ssize_t sim_sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr*, socklen_t) { point(P_SEND); FileP f = need(fd, "send"); if (!f) return -1; if (f->type != File::CONN) return fail(f->type == File::LISTEN ? EPIPE : ENOTSOCK);
  if (fault(S_F_SEND, 1, fc.send_eintr ? fc.send_eintr * 4 : 0)) { Conn* c = ((ConnFile*)f.get())->c.get(); if (c->inflight >= c->sndcap) { count(C_SEND_EINTR); return fail(EINTR); } }
  ssize_t r = conn_send(f, (const char*)b, n, fl); point(P_SEND); return r; }
ssize_t sim_send(int fd, const void* b, size_t n, int fl) { return sim_sendto(fd, b, n, fl, nullptr, 0); }
int sim_shutdown(int fd, int how) { point(P_SYS); FileP f = need(fd, "shutdown"); if (!f) return -1;
  if (f->type == File::LISTEN) { auto* l = (ListenFile*)f.get(); if (!l->listening) return fail(ENOTCONN); l->shut = true; trace("shutdown(listen)"); return 0; }
  if (f->type == File::CONN) { auto* c = ((ConnFile*)f.get())->c.get(); if (c->rst_known) return fail(ENOTCONN); if (how != SHUT_RD) { if (!c->shut_wr) { c->shut_wr = true; auto cc = ((ConnFile*)f.get())->c; i64 t = std::max(now_ns + c->lat, c->last_deliver + 1); c->last_deliver = t; at(t, [cc] { if (!cc->aborted && !cc->peer_gone) cc->cl->on_eof(); }); } } if (how != SHUT_WR) c->rx_eof = true; return 0; }
  return fail(ENOTSOCK); }
int sim_getpeername(int fd, struct sockaddr* a, socklen_t* l) { if (!need(fd, "getpeername")) return -1; struct sockaddr_in s = {}; s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(0x7f000001); memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; return 0; }
int sim_getsockname(int fd, struct sockaddr* a, socklen_t* l) { return sim_getpeername(fd, a, l); }
int sim_close(int fd) { point(P_CLOSE); int r = do_close(fd, "close"); point(P_CLOSE); return r; }
int sim_dup(int fd) { FileP f = need(fd, "dup"); return f ? K.alloc_fd(f) : -1; }

static bool rd_ready(FileP f) {
  switch (f->type) { case File::LISTEN: { auto* l = (ListenFile*)f.get(); return l->shut || !l->q.empty(); } case File::CONN: { auto* c = ((ConnFile*)f.get())->c.get(); return c->rxoff < c->rx.size() || c->rx_eof || c->rx_reset; }
    case File::MQ: return !((MqFile*)f.get())->m->q.empty(); default: return true; } }
static bool wr_ready(FileP f) {
  switch (f->type) { case File::CONN: { auto* c = ((ConnFile*)f.get())->c.get(); return c->inflight < c->sndcap || c->rst_known; } case File::MQ: { auto* m = ((MqFile*)f.get())->m.get(); return m->q.size() < m->maxmsg; } case File::LISTEN: return false; default: return true; } }
static int poll_once(struct pollfd* p, nfds_t n) { int k = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; FileP f = K.get(p[i].fd); if (!f) { p[i].revents = POLLNVAL; k++; continue; }
    if ((p[i].events & POLLIN) && rd_ready(f)) p[i].revents |= POLLIN; if ((p[i].events & POLLOUT) && wr_ready(f)) p[i].revents |= POLLOUT;
    if (f->type == File::CONN) { auto* c = ((ConnFile*)f.get())->c.get(); if (c->rst_known) p[i].revents |= POLLERR | POLLHUP; }
    if (p[i].revents) k++; } return k; }
static int do_poll(struct pollfd* p, nfds_t n, i64 ns) {
  point(P_SYS); int k = poll_once(p, n); if (k || ns == 0) return k;
  bool lst = false; for (nfds_t i = 0; i < n; i++) { FileP f = p[i].fd >= 0 ? K.get(p[i].fd) : nullptr; if (f && f->type == File::LISTEN) lst = true; }
  i64 in = lst ? intr_time(S_F_ACCEPT, fc.accept_eintr, 0) : intr_time(S_F_RECV, fc.recv_eintr, 0);
  int w = block_until("poll", [p, n] { return poll_once(p, n) > 0; }, ns < 0 ? -1 : now_ns + ns, in);
  if (w == WK_INTR) { count(lst ? C_ACCEPT_EINTR : C_RECV_EINTR); trace("poll: EINTR"); return fail(EINTR); }
  k = poll_once(p, n); trace("poll = %d", k); return k; }
int sim_poll(struct pollfd* p, nfds_t n, int ms) { return do_poll(p, n, ms < 0 ? -1 : (i64)ms * 1000000); }
int sim_ppoll(struct pollfd* p, nfds_t n, const struct timespec* t, const sigset_t*) { return do_poll(p, n, t ? t->tv_sec * 1000000000LL + t->tv_nsec : -1); }
int sim_select(int nf, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
  std::vector<struct pollfd> v; for (int i = 0; i < nf; i++) { short ev = 0; if (r && FD_ISSET(i, r)) ev |= POLLIN; if (w && FD_ISSET(i, w)) ev |= POLLOUT; if (ev) v.push_back({i, ev, 0}); }
  int k = do_poll(v.data(), v.size(), tv ? tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL : -1); if (k < 0) return k;
  if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e); int c = 0; for (auto& p : v) { if (p.revents & POLLNVAL) return fail(EBADF); if (r && (p.revents & (POLLIN | POLLERR | POLLHUP))) { FD_SET(p.fd, r); c++; } if (w && (p.revents & (POLLOUT | POLLERR))) { FD_SET(p.fd, w); c++; } } return c; }
struct EpFile : File { EpFile() : File(File::SOCK) {} std::map<int, struct epoll_event> m; };
int sim_epoll_create1(int) { point(P_SYS); return K.alloc_fd(std::make_shared<EpFile>()); } int sim_epoll_create(int) { return sim_epoll_create1(0); }
int sim_epoll_ctl(int ep, int op, int fd, struct epoll_event* e) { point(P_SYS); FileP f = need(ep, "epoll_ctl"); auto* x = f ? dynamic_cast<EpFile*>(f.get()) : nullptr; if (!x) return fail(EINVAL); if (!need(fd, "epoll_ctl")) return -1; if (op == EPOLL_CTL_DEL) return x->m.erase(fd) ? 0 : fail(ENOENT); if (op == EPOLL_CTL_ADD && x->m.count(fd)) return fail(EEXIST); x->m[fd] = *e; return 0; }
int sim_epoll_wait(int ep, struct epoll_event* o, int n, int ms) { FileP f = need(ep, "epoll_wait"); auto* x = f ? dynamic_cast<EpFile*>(f.get()) : nullptr; if (!x) return fail(EINVAL); std::vector<struct pollfd> v; for (auto i = x->m.begin(); i != x->m.end();) { if (!K.get(i->first)) i = x->m.erase(i); else { v.push_back({i->first, (short)((i->second.events & EPOLLIN ? POLLIN : 0) | (i->second.events & EPOLLOUT ? POLLOUT : 0)), 0}); ++i; } }
  int k = do_poll(v.data(), v.size(), ms < 0 ? -1 : (i64)ms * 1000000); if (k <= 0) return k; int c = 0; for (auto& p : v) if (p.revents && c < n) { o[c].events = (p.revents & POLLIN ? EPOLLIN : 0) | (p.revents & POLLOUT ? EPOLLOUT : 0) | (p.revents & POLLERR ? EPOLLERR : 0) | (p.revents & POLLHUP ? EPOLLHUP : 0); o[c].data = x->m[p.fd].data; if (x->m[p.fd].events & EPOLLONESHOT) x->m[p.fd].events = 0; c++; } return c; }
int sim_pipe(int*) { return fail(EMFILE); } int sim_pipe2(int*, int) { return fail(EMFILE); } int sim_eventfd(unsigned, int) { return fail(EMFILE); }
int sim_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); FileP f = need(fd, "fcntl"); if (!f) return -1; if (cmd == F_GETFL) return f->flags; if (cmd == F_SETFL) { f->flags = (int)a; return 0; } return 0; }
int sim_ioctl(int fd, unsigned long req, ...) { va_list ap; va_start(ap, req); int* a = va_arg(ap, int*); va_end(ap); FileP f = need(fd, "ioctl"); if (!f) return -1; if (req == FIONREAD && f->type == File::CONN) { auto* c = ((ConnFile*)f.get())->c.get(); *a = c->rx.size() - c->rxoff; return 0; } if (req == FIONBIO) { if (*a) f->flags |= O_NONBLOCK; else f->flags &= ~O_NONBLOCK; } return 0; }

// ---- files
static bool file_err(u32 stream, u32 den, int ctr, const int* e, int n) { if (!fault(stream, 1, den)) return false; E() = e[draw(stream, n)]; count(ctr); if (cur) cur->faults++; return true; }
static const int stat_e[] = {EIO, EACCES, ENOMEM, ELOOP};
int sim_stat(const char* p, struct stat* st) { fpt(); if (file_err(S_F_STAT, fc.stat_err, C_STAT_ERR, stat_e, 4)) return -1; BlobP b = lookup(p); if (!b) return fail(ENOENT); fill_stat(st, b); trace("stat(%s) size %zu", p, b->d.size()); fpt(); return 0; }
int sim_lstat(const char* p, struct stat* st) { int r = sim_stat(p, st); if (!r && vfs.links.count(p)) { st->st_mode = S_IFLNK | 0777; st->st_size = vfs.real(p).size(); st->st_ino += 1000000; } return r; }
int sim_stat64(const char* p, struct stat* st) { return sim_stat(p, st); }
int sim___xstat(int, const char* p, struct stat* st) { return sim_stat(p, st); }
int sim_fstat(int fd, struct stat* st) { fpt(); FileP f = need(fd, "fstat"); if (!f) return -1; if (file_err(S_F_STAT, fc.stat_err, C_STAT_ERR, stat_e, 1)) return -1; if (f->type == File::REG) fill_stat(st, ((RegFile*)f.get())->b); else { memset(st, 0, sizeof *st); st->st_mode = S_IFSOCK | 0600; } fpt(); return 0; }
int sim_fstat64(int fd, struct stat* st) { return sim_fstat(fd, st); }
int sim___fxstat(int, int fd, struct stat* st) { return sim_fstat(fd, st); }
int sim_access(const char* p, int) { fpt(); return lookup(p) ? 0 : fail(ENOENT); }
static int do_open(const char* p, int fl) { fpt(); static const int e[] = {EMFILE, ENFILE, EACCES, EINTR, ENOMEM}; if (file_err(S_F_OPEN, fc.open_err, C_OPEN_ERR, e, 5)) { trace("open(%s): %s", p, strerror(E())); return -1; }
  if ((fl & O_ACCMODE) != O_RDONLY || (fl & O_CREAT)) return fail(EROFS); BlobP b = lookup(p); if (b && (fl & O_NOFOLLOW) && vfs.links.count(p)) return fail(ELOOP); if (!b) { trace("open(%s): ENOENT", p); return fail(ENOENT); } auto f = std::make_shared<RegFile>(b); f->path = p; int fd = K.alloc_fd(f); trace("open(%s) = %d", p, fd); fpt(); return fd; }
int sim_open(const char* p, int fl, ...) { return do_open(p, fl); }
int sim_open64(const char* p, int fl, ...) { return do_open(p, fl); }
char* sim_realpath(const char* p, char* out) { fpt(); if (!lookup(p)) { E() = ENOENT; return nullptr; } std::string r = vfs.real(p); if (out) { strcpy(out, r.c_str()); return out; } return sim_strdup(r.c_str()); }
int sim_fstatat(int, const char* p, struct stat* st, int fl) { return fl & AT_SYMLINK_NOFOLLOW ? sim_lstat(p, st) : sim_stat(p, st); } int sim_fstatat64(int d, const char* p, struct stat* st, int fl) { return sim_fstatat(d, p, st, fl); }
int sim_openat64(int, const char* p, int fl, ...) { return do_open(p, fl); }
int sim_openat(int, const char* p, int fl, ...) { return do_open(p, fl); }
off_t sim_lseek(int fd, off_t o, int wh) { FileP f = need(fd, "lseek"); if (!f) return -1; if (f->type != File::REG) return fail(ESPIPE); auto* r = (RegFile*)f.get(); off_t n = wh == SEEK_SET ? o : wh == SEEK_CUR ? r->pos + o : (off_t)r->b->d.size() + o; if (n < 0) return fail(EINVAL); return r->pos = n; }
ssize_t sim_read(int fd, void* b, size_t n) { FileP f = need(fd, "read"); if (!f) return -1; if (f->type == File::CONN) return sim_recv(fd, b, n, 0); if (f->type != File::REG) return fail(EINVAL); fpt(); RegFile* r = (RegFile*)f.get(); if (r->b->mode & S_IFDIR && !(r->b->mode & S_IFREG)) return fail(EISDIR); return ck_read(r, (char*)b, n); }
ssize_t sim_pread(int fd, void* b, size_t n, off_t o) { FileP f = need(fd, "pread"); if (!f) return -1; if (f->type != File::REG) return fail(ESPIPE); if (S_ISDIR(((RegFile*)f.get())->b->mode)) return fail(EISDIR); RegFile t(((RegFile*)f.get())->b); t.pos = o; return ck_read(&t, (char*)b, n); }
ssize_t sim_write(int fd, const void* b, size_t n) { FileP f = K.get(fd); if (f && f->type == File::CONN) return sim_sendto(fd, b, n, 0, nullptr, 0); if (fd == 1 || fd == 2) { FILE* s = fd == 1 ? f_out : f_err; LogScope l(s); return fwrite(b, 1, n, s); } if (!need(fd, "write")) return -1; return fail(EBADF); }
ssize_t sim_readv(int fd, const struct iovec* v, int n) { for (int i = 0; i < n; i++) if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len); return 0; }
static ssize_t sendv(int fd, const struct iovec* v, int n, int fl) { std::string s; for (int i = 0; i < n; i++) s.append((char*)v[i].iov_base, v[i].iov_len); return sim_sendto(fd, s.data(), s.size(), fl, nullptr, 0); }
ssize_t sim_writev(int fd, const struct iovec* v, int n) { return sendv(fd, v, n, 0); }
ssize_t sim_sendmsg(int fd, const struct msghdr* m, int fl) { return sendv(fd, m->msg_iov, m->msg_iovlen, fl); }
ssize_t sim_sendfile(int, int, off_t*, size_t) { return fail(EINVAL); }
void* sim_mmap(void* a, size_t n, int prot, int fl, int fd, off_t off) {
  point(P_MMAP); (void)a; if (n == 0 || (off & 4095)) { E() = EINVAL; return MAP_FAILED; }
  static const int e[] = {ENOMEM, EAGAIN, ENFILE}; FileP f;
  if (!(fl & MAP_ANONYMOUS)) { f = need(fd, "mmap"); if (!f) return MAP_FAILED; if (f->type != File::REG || !S_ISREG(((RegFile*)f.get())->b->mode)) { E() = ENODEV; return MAP_FAILED; } if ((prot & PROT_WRITE) && (fl & MAP_SHARED)) { E() = EACCES; return MAP_FAILED; } }
  if (file_err(S_F_MMAP, fc.mmap_err, C_MMAP_ERR, e, 3)) { trace("mmap: %s", strerror(E())); return MAP_FAILED; }
  size_t sz = (n + 4095) & ~4095ul; if (sz > (1ul << 32)) { E() = ENOMEM; return MAP_FAILED; }
  char* p = (char*)mmap(nullptr, sz + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { E() = ENOMEM; return MAP_FAILED; }
  mprotect(p, 4096, PROT_NONE); mprotect(p + 4096 + sz, 4096, PROT_NONE); char* u = p + 4096; size_t valid = sz;
  if (f) { auto& d = ((RegFile*)f.get())->b->d; size_t av = (size_t)off < d.size() ? d.size() - off : 0, m = std::min(av, sz); memcpy(u, d.data() + (m ? off : 0), m); valid = std::min(sz, (m + 4095) & ~4095ul); }
  mprotect(u, sz, prot & (PROT_READ | PROT_WRITE)); if (valid < sz) mprotect(u + valid, sz - valid, PROT_NONE);   // beyond EOF: SIGBUS
  K.maps[u] = sz; trace("mmap(%zu) ok", n); point(P_MMAP); return u;
}
void* sim_mmap64(void* a, size_t n, int p, int fl, int fd, off_t o) { return sim_mmap(a, n, p, fl, fd, o); }
int sim_munmap(void* a, size_t n) {
  point(P_MMAP); char* p = (char*)a; if (((uintptr_t)p & 4095) || n == 0) { E() = EINVAL; return -1; }
  size_t sz = (n + 4095) & ~4095ul; char* e = p + sz; std::vector<std::pair<char*, size_t>> add; std::vector<char*> del;
  for (auto& m : K.maps) { char *s = m.first, *t = s + m.second; if (t <= p || s >= e) continue; del.push_back(s); if (s < p) add.push_back({s, p - s}); if (t > e) add.push_back({e, t - e}); char* x = std::max(s, p); char* y = std::min(t, e); mprotect(x, y - x, PROT_NONE); madvise(x, y - x, MADV_DONTNEED); }
  for (auto d : del) K.maps.erase(d); for (auto& q : add) K.maps[q.first] = q.second; trace("munmap(%zu)%s", n, del.empty() ? " nothing mapped" : ""); return 0; }
int sim_madvise(void*, size_t, int) { point(P_MMAP); return 0; }
int sim_posix_fadvise(int, off_t, off_t, int) { return 0; }
int sim_posix_madvise(void*, size_t, int) { return 0; }

// ---- message queues
static const int mqopen_e[] = {EMFILE, ENFILE, ENOMEM, ENOSPC, EACCES};
mqd_t sim_mq_open(const char* name, int fl, ...) {
  point(P_MQ); if (start_fault("mq_open", mqopen_e, 5)) return (mqd_t)-1;
  va_list ap; va_start(ap, fl); int mode = 0; struct mq_attr* at = nullptr; if (fl & O_CREAT) { mode = va_arg(ap, int); at = va_arg(ap, struct mq_attr*); } va_end(ap);
  if (name[0] != '/' || strchr(name + 1, '/')) return fail(EINVAL); if (strlen(name) > 255) return fail(ENAMETOOLONG);
  auto it = K.mqs.find(name); std::shared_ptr<Mq> m;
  if (it == K.mqs.end()) { if (!(fl & O_CREAT)) return fail(ENOENT); if (at && (at->mq_maxmsg <= 0 || at->mq_msgsize <= 0 || at->mq_maxmsg > 10 || at->mq_msgsize > 8192)) return fail(EINVAL);
    m = std::make_shared<Mq>(); m->name = name; m->maxmsg = at ? at->mq_maxmsg : 10; m->msgsize = at ? at->mq_msgsize : 8192; m->mode = mode; K.mqs[name] = m; }
  else { if ((fl & O_CREAT) && (fl & O_EXCL)) return fail(EEXIST); m = it->second; }
  auto f = std::make_shared<MqFile>(m); f->flags = fl & (O_ACCMODE | O_NONBLOCK); int fd = K.alloc_fd(f); trace("mq_open(%s) = %d", name, fd); return fd; }
int sim_mq_close(mqd_t d) { point(P_MQ); FileP f = K.get(d); if (f && f->type != File::MQ) { if (fd_misuse) fd_misuse("mq_close of another descriptor", d); return fail(EBADF); } return do_close(d, "mq_close"); }
int sim_mq_unlink(const char* n) { point(P_MQ); static const int e[] = {EACCES}; (void)e; auto it = K.mqs.find(n); if (it == K.mqs.end()) return fail(ENOENT); it->second->unlinked = true; K.mqs.erase(it); trace("mq_unlink(%s)", n); return 0; }
static MqFile* mqf(mqd_t d, FileP& f, const char* w) { f = need(d, w); if (!f) return nullptr; if (f->type != File::MQ) { if (fd_misuse) fd_misuse(w, d); E() = EBADF; return nullptr; } return (MqFile*)f.get(); }
static void mq_insert(Mq* m, MqMsg x) { x.seq = m->seq++; auto it = m->q.begin(); while (it != m->q.end() && it->prio >= x.prio) ++it; m->q.insert(it, std::move(x)); }
static int mq_do_send(mqd_t d, const char* p, size_t n, unsigned prio, i64 dl) {
  point(P_MQ); FileP f; MqFile* q = mqf(d, f, "mq_send"); if (!q) return -1; if ((f->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF); auto m = q->m; if (n > m->msgsize) return fail(EMSGSIZE);
  MqMsg x{std::string(p, n), prio, 0}; note(n);
  if (!m->recvw.empty()) { auto* w = m->recvw.front(); m->recvw.pop_front(); w->m = x; w->done = true; point(P_MQ); return 0; }
  if (m->q.size() < m->maxmsg) { mq_insert(m.get(), x); if (m->q.size() == m->maxmsg) count(C_QUEUE_FULL); point(P_MQ); return 0; }
  if (f->flags & O_NONBLOCK) return fail(EAGAIN);
  if (dl >= 0 && now_ns >= dl) return fail(ETIMEDOUT);
  count(C_MQ_SEND_BLOCK);
  MqWaiter w{cur, x}; m->sendw.push_back(&w); i64 in = intr_time(S_F_MQ, fc.mq_eintr, 0);
  int r = block_until("mq_send", [&w] { return w.done; }, dl, in);
  if (!w.done) { m->sendw.erase(std::remove(m->sendw.begin(), m->sendw.end(), &w), m->sendw.end()); if (r == WK_INTR) { count(C_MQ_EINTR); trace("mq_send: EINTR"); return fail(EINTR); } return fail(ETIMEDOUT); }
  return 0; }
static ssize_t mq_do_recv(mqd_t d, char* p, size_t n, unsigned* prio, i64 dl) {
  point(P_MQ); FileP f; MqFile* q = mqf(d, f, "mq_receive"); if (!q) return -1; if ((f->flags & O_ACCMODE) == O_WRONLY) return fail(EBADF); auto m = q->m; if (n < m->msgsize) return fail(EMSGSIZE);
  MqMsg x;
  if (!m->q.empty()) { x = m->q.front(); m->q.pop_front(); if (!m->sendw.empty()) { auto* w = m->sendw.front(); m->sendw.pop_front(); mq_insert(m.get(), w->m); w->done = true; } }
  else { if (f->flags & O_NONBLOCK) return fail(EAGAIN); if (dl >= 0 && now_ns >= dl) return fail(ETIMEDOUT);
    MqWaiter w{cur, {}}; m->recvw.push_back(&w); i64 in = intr_time(S_F_MQ, fc.mq_eintr, 0); int r = block_until("mq_receive", [&w] { return w.done; }, dl, in);
    if (!w.done) { m->recvw.erase(std::remove(m->recvw.begin(), m->recvw.end(), &w), m->recvw.end()); if (r == WK_INTR) { count(C_MQ_EINTR); trace("mq_receive: EINTR"); return fail(EINTR); } return fail(ETIMEDOUT); }
    x = w.m; }
  memcpy(p, x.d.data(), x.d.size()); if (prio) *prio = x.prio; point(P_MQ); return x.d.size(); }
int sim_mq_send(mqd_t d, const char* p, size_t n, unsigned pr) { return mq_do_send(d, p, n, pr, -1); }
int sim_mq_timedsend(mqd_t d, const char* p, size_t n, unsigned pr, const struct timespec* t) { return mq_do_send(d, p, n, pr, abs_wall(t)); }
ssize_t sim_mq_receive(mqd_t d, char* p, size_t n, unsigned* pr) { return mq_do_recv(d, p, n, pr, -1); }
ssize_t sim_mq_timedreceive(mqd_t d, char* p, size_t n, unsigned* pr, const struct timespec* t) { return mq_do_recv(d, p, n, pr, abs_wall(t)); }
int sim_mq_getattr(mqd_t d, struct mq_attr* a) { point(P_MQ); FileP f; MqFile* q = mqf(d, f, "mq_getattr"); if (!q) return -1; a->mq_flags = f->flags & O_NONBLOCK; a->mq_maxmsg = q->m->maxmsg; a->mq_msgsize = q->m->msgsize; a->mq_curmsgs = q->m->q.size(); return 0; }
int sim_mq_setattr(mqd_t d, const struct mq_attr* a, struct mq_attr* o) { if (o) sim_mq_getattr(d, o); FileP f; MqFile* q = mqf(d, f, "mq_setattr"); if (!q) return -1; f->flags = (f->flags & ~O_NONBLOCK) | (a->mq_flags & O_NONBLOCK); return 0; }
int sim_mq_notify(mqd_t, const struct sigevent*) { return fail(ENOSYS); }

// ---- randomness
int sim_rand_r(unsigned*) { return (int)draw(S_MISC, 1u << 30); } long sim_lrand48() { return draw(S_MISC, 1u << 30); } double sim_drand48() { return draw(S_MISC, 1u << 30) / double(1u << 30); } void sim_srand48(long) {} unsigned sim_arc4random() { return draw(S_MISC, 1u << 30) * 4u + draw(S_MISC, 4); } unsigned sim_arc4random_uniform(unsigned n) { return n ? draw(S_MISC, n) : 0; }
// C11 threads: the same locks and conditions
static int thrd_rc(int r) { return r == 0 ? 0 : r == ETIMEDOUT ? 4 : r == EBUSY ? 1 : r == ENOMEM ? 3 : 2; }
int sim_mtx_init(void* m, int ty) { pthread_mutexattr_t a; sim_pthread_mutexattr_init(&a); sim_pthread_mutexattr_settype(&a, ty & 1 ? PTHREAD_MUTEX_RECURSIVE : PTHREAD_MUTEX_NORMAL); return thrd_rc(sim_pthread_mutex_init((pthread_mutex_t*)m, &a)); }
int sim_mtx_lock(void* m) { return thrd_rc(sim_pthread_mutex_lock((pthread_mutex_t*)m)); } int sim_mtx_unlock(void* m) { return thrd_rc(sim_pthread_mutex_unlock((pthread_mutex_t*)m)); } int sim_mtx_trylock(void* m) { return thrd_rc(sim_pthread_mutex_trylock((pthread_mutex_t*)m)); }
int sim_mtx_timedlock(void* m, const struct timespec* t) { return thrd_rc(sim_pthread_mutex_timedlock((pthread_mutex_t*)m, t)); } void sim_mtx_destroy(void* m) { sim_pthread_mutex_destroy((pthread_mutex_t*)m); }
int sim_cnd_init(void* c) { return thrd_rc(sim_pthread_cond_init((pthread_cond_t*)c, nullptr)); } void sim_cnd_destroy(void* c) { sim_pthread_cond_destroy((pthread_cond_t*)c); } int sim_cnd_signal(void* c) { return thrd_rc(sim_pthread_cond_signal((pthread_cond_t*)c)); } int sim_cnd_broadcast(void* c) { return thrd_rc(sim_pthread_cond_broadcast((pthread_cond_t*)c)); }
int sim_cnd_wait(void* c, void* m) { return thrd_rc(sim_pthread_cond_wait((pthread_cond_t*)c, (pthread_mutex_t*)m)); } int sim_cnd_timedwait(void* c, void* m, const struct timespec* t) { return thrd_rc(sim_pthread_cond_timedwait((pthread_cond_t*)c, (pthread_mutex_t*)m, t)); }
void sim_call_once(void* o, void (*fn)(void)) { sim_pthread_once((pthread_once_t*)o, fn); } void sim_thrd_yield() { sim_sched_yield(); } int sim_thrd_sleep(const struct timespec* a, struct timespec* b) { return sim_nanosleep(a, b) ? -1 : 0; } pthread_t sim_thrd_current() { return sim_pthread_self(); }
int sim_thrd_create(pthread_t* t, int (*fn)(void*), void* arg) { return thrd_rc(sim_pthread_create(t, nullptr, (void* (*)(void*))fn, arg)); } int sim_thrd_join(pthread_t t, int* r) { void* v = nullptr; int e = sim_pthread_join(t, &v); if (r) *r = (int)(intptr_t)v; return thrd_rc(e); } int sim_thrd_detach(pthread_t t) { return thrd_rc(sim_pthread_detach(t)); }
int sim_tss_create(pthread_key_t* k, void (*d)(void*)) { return thrd_rc(sim_pthread_key_create(k, d)); } void sim_tss_delete(pthread_key_t k) { sim_pthread_key_delete(k); } void* sim_tss_get(pthread_key_t k) { return sim_pthread_getspecific(k); } int sim_tss_set(pthread_key_t k, void* v) { return thrd_rc(sim_pthread_setspecific(k, v)); }
int sim_pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec*) { return sim_pthread_rwlock_rdlock(l); } int sim_pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec*) { return sim_pthread_rwlock_wrlock(l); } int sim_pthread_rwlockattr_init(void*) { return 0; } int sim_pthread_rwlockattr_destroy(void*) { return 0; } int sim_pthread_rwlockattr_setkind_np(void*, int) { return 0; }
int sim_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) { return c == CLOCK_REALTIME ? sim_pthread_mutex_timedlock(m, t) : sim_pthread_mutex_lock(m); }
int sim_pthread_setschedparam(pthread_t, int, const void*) { return 0; } int sim_pthread_attr_setschedpolicy(void*, int) { return 0; } int sim_pthread_attr_setschedparam(void*, const void*) { return 0; } int sim_pthread_setaffinity_np(pthread_t, size_t, const void*) { return 0; } int sim_pthread_attr_setstack(void*, void*, size_t) { return 0; } int sim_pthread_atfork(void (*)(), void (*)(), void (*)()) { return 0; } void sim_pthread_testcancel() { point(P_THREAD); }
int sim_sigprocmask(int, const sigset_t*, sigset_t* o) { if (o) sigemptyset(o); return 0; } int sim_fsync(int fd) { return need(fd, "fsync") ? 0 : -1; } int sim_fdatasync(int fd) { return sim_fsync(fd); } int sim_feof(FILE* f) { return feof(f); } int sim_ferror(FILE* f) { return ferror(f); }
ssize_t sim_pread64(int fd, void* b, size_t n, off_t o) { return sim_pread(fd, b, n, o); } off_t sim_lseek64(int fd, off_t o, int w) { return sim_lseek(fd, o, w); } ssize_t sim_sendfile64(int o, int i, off_t* f, size_t n) { return sim_sendfile(o, i, f, n); }
int sim_rand() { return (int)draw(S_MISC, 1u << 30); } long sim_random() { return sim_rand(); } void sim_srand(unsigned) {} void sim_srandom(unsigned) {}
ssize_t sim_getrandom(void* b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((char*)b)[i] = draw(S_MISC, 256); return n; }
}
