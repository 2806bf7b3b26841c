#include "world.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <ctime>
#include <cerrno>
#include <unistd.h>
#include <mqueue.h>

namespace sim {
extern std::function<void()> on_file_call;

u32 prop_mask(int p) {
  static const u32 m[] = {0, K_INTEG, K_LIVE, K_VIEW | K_INTEG | K_LIVE, K_LIVE | K_INTEG | K_CLOSED, K_FD | K_CLOSED, K_LEAK, K_LIFE,
    K_LIVE | K_INTEG, K_STALE | K_LIVE | K_INTEG | K_FD, K_START | K_FD, K_ROUTE | K_INTEG, K_VIEW, K_RANGE, K_FILE, K_TMPL | K_LEAK, K_FAIR, K_LOG, K_CONT};
  return m[p] | K_CRASH | K_LIVE;
}

// Did the run exercise the situation its property is about? (check.py states the rule in the evidence)
static int prop;               // property under check
static bool nontrivial_run() {
  auto n = [](int c) { return R->ctr[c] > 0; }; bool multi = n(C_MULTI_INFLIGHT);
  switch (prop) {
    case 1: return multi && (n(C_SEND_SHORT) || n(C_SEND_EINTR) || n(C_SEND_BLOCK) || n(C_MULTI_CHUNK));
    case 2: return multi && (n(C_STALL) || n(C_SEND_BLOCK) || n(C_QUEUE_FULL) || n(C_MQ_SEND_BLOCK) || n(C_MULTI_CHUNK));
    case 3: return n(C_SEGMENTED);
    case 4: return n(C_CLIENT_HOSTILE) || n(C_CLIENT_RST) || n(C_CLIENT_FIN);
    case 5: return n(C_CLIENT_HOSTILE) || n(C_CLIENT_RST) || n(C_CLIENT_FIN) || n(C_RECV_RST) || n(C_RECV_EOF) || n(C_SEND_PIPE) || n(C_ACCEPT_ERR);
    case 6: return n(C_CLIENT_HOSTILE) || n(C_CLIENT_RST) || n(C_CLIENT_FIN) || n(C_RECV_RST) || n(C_SEND_PIPE) || n(C_RESP_404) || n(C_OPEN_ERR) || n(C_STAT_ERR) || n(C_MMAP_ERR);
    case 7: return multi && n(C_CLEANUP_RUN);
    case 8: return n(C_ACCEPT_ERR) || n(C_ACCEPT_EINTR) || n(C_ACCEPT_EMFILE) || n(C_RECV_EINTR) || n(C_SEND_EINTR) || n(C_MQ_EINTR);
    case 9: return n(C_CRASH);
    case 11: return multi && R->ctr[C_HANDLER_RUN] > 1;
    case 12: return n(C_MODEL_CHECKS) && (n(C_BODY) || n(C_FORM) || n(C_SEGMENTED));
    case 13: return n(C_RESP_206);
    case 14: return n(C_RESP_FILE) || n(C_OPEN_ERR) || n(C_STAT_ERR) || n(C_MMAP_ERR);
    default: return multi || n(C_STALL);
  }
}
static u32 epoch;
static i64 id_base;

// ------------------------------------------------------------------ routes
struct PoolRoute { const char* verb; const char* re; int nm; int kind; };
static const PoolRoute pool[] = {
  {"GET", "^/static~[0-9]+$", 0, AK_STATIC},                          // 0
  {"GET", "^/heap/([a-z0-9]+)~([0-9]+)$", 2, AK_HEAP},                // 1
  {"GET", "^/h", 0, AK_HEAPNC},                                       // 2 overlaps 1
  {"POST", "^/post/([^~]*)~", 1, AK_STATIC},                          // 3
  {"POST", "^/form~[0-9]+$", 0, AK_HEAP},                             // 4
  {"GET", "^/files/([^~]+)~([0-9]+)$", 2, AK_MMAP},                   // 5
  {"GET", "^/page/(a|b|c)~", 1, AK_RENDER},                           // 6
  {"PUT", "^/(put|store)/([a-z]+)~([0-9]+)", 3, AK_RAW},              // 7
  {"GET", "^/empty", 0, AK_EMPTY404},                                 // 8
  {"GET", "^/redir~", 0, AK_STATIC},                                  // 9
  {"GET", "^/x(y)?z~", 1, AK_HEAP},                                   // 10
  {"DELETE", "^/.*$", 0, AK_STATIC},                                  // 11
  {"GET", "\\.(css|js)~[0-9]+$", 1, AK_HEAPNC},                       // 12
  {"GET", "^/[a-z]{3,5}/[0-9]+~", 0, AK_STATIC},                      // 13
  {"POST", "^/.*$", 0, AK_RAW},                                       // 14 catches all POSTs
  {"GET", "^/err~", 0, AK_STATIC},                                    // 15
  {"GET", "^/files/([a-z]+)", 1, AK_HEAP},                            // 16 overlaps 5
  {"GET", "(z)~([0-9])([0-9]*)$", 3, AK_HEAPNC},                      // 17 overlaps 10
  {"PATCH", "^/doc/([a-z]+)~", 1, AK_HEAP},                           // 18
  {"OPTIONS", "~[0-9]+$", 0, AK_STATIC},                              // 19
};
static const int NPOOL = sizeof pool / sizeof *pool;
struct Slot { int pool; m38_route r; regex_t re; bool has_cleanup; };
static std::vector<Slot> table_; static std::vector<m38_route> routes;
static m38_app* app; static int main_fd = -1; static int serve_rc = -12345; static bool serve_done;
static Fiber* main_fiber;
static int cust404;            // 0 none, 1 handler, 2 handler+cleanup, 3 cleanup only, 4 cleanup then handler
static int nthreads;

struct Tpl { std::string path; TCase tc; };
static std::vector<Tpl> tpls; static std::vector<std::string> fpaths; static bool tpl_includes;

// ------------------------------------------------------------------ clients
typedef std::pair<std::string, std::string> KV;
enum CKind { NORMAL, ABORT, HOSTILE };
struct Rec;
struct Client : ClientIface {
  int id = 0; u32 st = 0; CKind kind = NORMAL; int phase = 1; std::string token;
  std::string verb, path, body, wire, ip, ua, range, fpath; std::vector<KV> hdr; bool has_body = false; bool has_range = false;
  int slot = -1, fslot = -1; bool builtin404 = false; regmatch_t em[4]; int nm = 0;
  struct plan pl, pl404; std::string pbody, pmime, p404body; std::vector<KV> ch; std::string cookie;
  std::vector<std::string> q; std::vector<std::pair<bool, std::string>> qe; std::vector<std::string> fk; std::vector<std::pair<bool, std::string>> fe; std::vector<std::string> ck; std::vector<std::pair<bool, std::string>> ce;
  bool form = false; int tpl = -1; bool large = false; u32 huge = 0; bool exact = false;
  // behaviour
  i64 start = 0; std::vector<std::pair<size_t, i64>> segs; i64 lat = 50000; size_t sndcap = 65536; u32 read_chunk = 0; i64 read_delay = 0; i64 pause = 0; size_t pause_at = 0; int half_close = 0; i64 hc_delay = 0;
  int abort_kind = 0; size_t abort_at = 0; i64 abort_delay = 0;    // 1 close after sending n bytes; 2 rst after n bytes; 3/4 close/rst after receiving n bytes; 5/6 close/rst n after the request
  // runtime
  std::shared_ptr<Conn> conn; std::string rx; bool eof = false, reset = false, refused = false, gone = false, checked = false, complete = false; i64 t_conn = -1, t_end = -1, t_sent = -1;
  int runs = 0, runs404 = 0, prods = 0; bool filefault = false; u64 f0 = 0; i64 t_prod = -1, t_last_arrive = -1; size_t tx_goal = 0; int logged = 0;
  size_t next_judge = 0; size_t pend = 0; bool draining = false; int status_sent = 0; int retries = 0;
  std::shared_ptr<Client> keep;
  void go();
  void on_connected(Conn*) override {}
  void on_refused() override;
  void on_data(const char* p, size_t n) override;
  void on_eof() override;
  void on_reset() override;
  void drain();
  void hang(bool rst);
  bool done() const { return eof || reset || refused || gone; }
};
typedef std::shared_ptr<Client> CP;
static std::vector<CP> clients; static std::unordered_map<std::string, Client*> by_token; static bool hostile_present; static bool file_faults;
static int active_handlers, max_active;

struct Rec { Client* c; int slot; int status; void* out; size_t outsize; void* extra; int cleaned = 0, cstatus = 0; u64 tx_at_clean = 0; bool expect_cleanup; u64 seq; };
static std::vector<Rec*> recs; 
struct Baseline { bool set = false; i64 live, bytes, regex, maps; int fds; u64 serial; } base;
static int fds0, fd_limit = 1024;

static std::string tok(int id) { u64 z = (u64)id * 0x9E3779B97F4A7C15ull + 12345; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 32; char b[40]; snprintf(b, sizeof b, "%d%010llu", id + 1, (unsigned long long)(z % 10000000000ull)); return b; }
static const char* kname(CKind k) { return k == NORMAL ? "well-behaved" : k == ABORT ? "aborting" : "hostile"; }
static std::string cdesc(Client* c) { char b[400]; snprintf(b, sizeof b, "client %d (%s, phase %d) %s %.120s", c->id, kname(c->kind), c->phase, c->verb.c_str(), c->path.c_str()); return b; }
static std::string show(const std::string& s, size_t n = 60) { std::string o; for (size_t i = 0; i < s.size() && i < n; i++) { unsigned char ch = s[i]; if (ch >= 32 && ch < 127 && ch != '\\') o += ch; else { char b[6]; snprintf(b, sizeof b, "\\x%02x", ch); o += b; } } if (s.size() > n) o += "..."; return o; }

// pseudo-random bytes which identify their owner
static std::string blob(u64 seed, size_t n, bool text) {
  std::string s(n, 0); u64 x = seed * 0x9E3779B97F4A7C15ull + 77; 
  for (size_t i = 0; i < n; i++) { if ((i & 7) == 0) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; } unsigned char b = x >> ((i & 7) * 8); s[i] = text ? (char)("abcdefghijklmnopqrstuvwxyz0123456789 <>&%\n"[b % 42]) : (char)b; }
  return s;
}
static const char* kExt[] = {".css", ".jpg", ".txt", ".html", ".svg", ".ico", ".webm", ".gif", ".json", ".js"};
static const char* kTyp[] = {"text/css", "image/jpeg", "text/plain", "text/html", "image/svg+xml", "image/x-icon", "video/webm", "image/gif", "application/json", "text/javascript"};
// content type a file's extension calls for; "" = not judged
static std::string file_type(const std::string& p) {
  size_t sl = p.rfind('/'); std::string bn = sl == std::string::npos ? p : p.substr(sl + 1); size_t d = bn.rfind('.');
  if (d == std::string::npos) return p.find('.') == std::string::npos ? "text/html" : "";
  std::string e = bn.substr(d); for (auto& ch : e) ch = tolower((unsigned char)ch);
  for (int i = 0; i < 10; i++) if (e == kExt[i]) return kTyp[i];
  if (e.size() <= 10) return "application/octet-stream";
  return "";
}

// ------------------------------------------------------------------ response oracle
struct Resp { bool head = false; int status = 0; std::vector<KV> h; std::string body; size_t headlen = 0; std::string bad; };
static Resp parse_resp(const std::string& s) {
  Resp r; size_t e = s.find("\r\n\r\n"); if (e == std::string::npos) return r;
  r.head = true; r.headlen = e + 4; r.body = s.substr(e + 4); std::string hd = s.substr(0, e + 2); size_t p = 0; bool first = true;
  while (p < hd.size()) { size_t q = hd.find("\r\n", p); std::string l = hd.substr(p, q - p); p = q + 2;
    for (unsigned char ch : l) if ((ch < 32 && ch != '\t') || ch == 127) { r.bad = "control byte in header line"; }
    if (first) { first = false; if (l.compare(0, 9, "HTTP/1.1 ") && l.compare(0, 9, "HTTP/1.0 ")) { r.bad = "bad status line"; continue; } r.status = atoi(l.c_str() + 9); if (l.size() < 12 || (l.size() > 12 && l[12] != ' ')) r.bad = "bad status line"; continue; }
    size_t c = l.find(':'); if (c == std::string::npos || c == 0) { r.bad = "malformed header line"; continue; }
    std::string n = l.substr(0, c), v = l.substr(c + 1); for (char ch : n) if (ch == ' ' || ch == '\t') r.bad = "malformed header name";
    size_t a = 0; while (a < v.size() && v[a] == ' ') a++; r.h.push_back({n, v.substr(a)}); }
  return r;
}
static bool ieq(const std::string& a, const std::string& b) { return strcasecmp(a.c_str(), b.c_str()) == 0; }
static int hcount(const Resp& r, const char* n, std::string* v) { int k = 0; for (auto& h : r.h) if (ieq(h.first, n)) { k++; if (v) *v = h.second; } return k; }
static const std::string kBuiltin = "<h1>\"Welcome to Die|</h1>";

static bool parse_u(const std::string& s, size_t& i, unsigned long long& v) { size_t a = i; v = 0; while (i < s.size() && isdigit((unsigned char)s[i])) { if (v > (1ull << 60)) return false; v = v * 10 + (s[i] - '0'); i++; } return i > a; }
// classification of a Range header value: 0 not judged, 1 explicit satisfiable (a,b), 2 open-ended satisfiable (a)
static int range_kind(const std::string& v, unsigned long long L, unsigned long long& a, unsigned long long& b) {
  if (v.compare(0, 6, "bytes=")) return 0; size_t i = 6; if (!parse_u(v, i, a)) return 0; if (i >= v.size() || v[i] != '-') return 0; i++;
  if (i == v.size()) { b = L - 1; return a < L ? 2 : 0; }
  if (!parse_u(v, i, b) || i != v.size()) return 0;
  if (a > b || a >= L) return 0;
  if (b >= L) b = L - 1;
  return 1;
}
static std::vector<BlobP> versions(const std::string& p, i64 t0, i64 t1, bool& absent) {
  std::vector<BlobP> o; absent = false; auto it = vfs.hist.find(vfs.real(p)); if (it == vfs.hist.end()) { absent = true; return o; }
  auto& v = it->second; if (v.empty() || v[0].from > t0) absent = true;
  for (size_t i = 0; i < v.size(); i++) { i64 from = v[i].from, to = i + 1 < v.size() ? v[i + 1].from : INT64_MAX; if (from <= t1 && to >= t0) { if (v[i].b && S_ISREG(v[i].b->mode)) o.push_back(v[i].b); else absent = true; } }
  return o;
}
// judges the bytes received so far against what client c's request calls for
static void judge(Client* c, bool complete) {
  Resp r = parse_resp(c->rx); std::string D = cdesc(c);
  u32 X = 0; bool isfile = c->fslot >= 0 && c->fslot < 24 && (c->pl.kind == AK_MMAP || c->pl.kind == AK_RENDER);
  if (isfile) X |= K_FILE; if (c->has_range) X |= K_RANGE;
  if (c->slot >= 0 && c->runs == 0) X |= K_ROUTE | K_LIFE;
  if (!r.head) {
    if (complete) violate(K_INTEG | K_LIVE | K_CLOSED | X, "no-response", "%s: connection closed after %zu bytes without a complete response head: \"%s\"", D.c_str(), c->rx.size(), show(c->rx).c_str());
    else if (c->rx.size() && strncmp(c->rx.c_str(), "HTTP/1.1 ", std::min<size_t>(9, c->rx.size()))) violate(K_INTEG | X, "alien-bytes", "%s: response starts with \"%s\"", D.c_str(), show(c->rx).c_str());
    return;
  }
  if (!r.bad.empty()) { violate(K_INTEG | X, "malformed-head", "%s: %s in \"%s\"", D.c_str(), r.bad.c_str(), show(c->rx, 300).c_str()); return; }
  // what the handler produced
  int status; std::string type, body; bool have_body = true; bool alt_empty = false; std::vector<std::string> alts; bool may404 = false; std::vector<KV> ch;
  if (c->fslot == 24 && c->slot >= 0) ch = c->ch;      // a handler without a body of its own may have set headers already
  if (c->builtin404) { status = 404; body = kBuiltin; type = "text/html"; if (cust404 == 3) { alt_empty = true; } }
  else if (c->fslot == 24) { status = c->pl404.status; body = c->p404body; type = c->pl404.mimetype ? c->pl404.mimetype : "text/html"; for (int i = 0; i < c->pl404.nh; i++) ch.push_back({c->pl404.hn[i], c->pl404.hv[i]}); }
  else { status = c->pl.status; body = c->pbody; type = c->pl.mimetype ? c->pl.mimetype : "text/html"; ch = c->ch;
    if (isfile) { have_body = false; status = 200; if (!c->pl.mimetype) type = file_type(c->fpath); } }
  if (isfile) {
    bool absent; auto vs = versions(c->fpath, c->t_conn, now_ns, absent); may404 = absent || c->filefault;
    if (r.status == 404) {
      bool empty_ok = false; for (auto& b : vs) if (b->d.empty()) empty_ok = true;
      if (!may404 && !empty_ok) violate(K_FILE | K_INTEG | X, "file-404", "%s: file %s exists and nothing failed, but the response is 404", D.c_str(), c->fpath.c_str());
      std::string cl; if (hcount(r, "Content-Length", &cl) != 1 || (complete && cl != std::to_string(r.body.size()))) violate(K_FILE | K_INTEG | X, "bad-404", "%s: 404 for failed file with Content-Length '%s' and %zu body bytes", D.c_str(), cl.c_str(), r.body.size());
      if (complete) { c->complete = true; c->status_sent = 404; count(C_RESP_404); }
      return;
    }
    if (c->pl.kind == AK_RENDER) { for (auto& b : vs) if (b) alts.push_back(tpls[c->tpl].tc.out); }
    else for (auto& b : vs) alts.push_back(std::string(b->d.begin(), b->d.end()));
    if (alts.empty()) { violate(K_FILE | X, "file-phantom", "%s: status %d for file %s which did not exist", D.c_str(), r.status, c->fpath.c_str()); return; }
  } else alts.push_back(body);
  if (alt_empty) alts.push_back("");
  bool emptyall = true; for (auto& a : alts) if (!a.empty()) emptyall = false;
  bool redirect = status == 301 || status == 302;
  bool range_ok = c->has_range && status == 200 && !emptyall;
  if (c->has_range && redirect) X |= K_RANGE;
  // status
  if (r.status == 206 && range_ok) {}
  else if (r.status != status) { violate(K_INTEG | X | (c->fslot == 24 || c->builtin404 ? K_ROUTE : 0), "wrong-status", "%s: handler produced status %d, client received %d", D.c_str(), status, r.status); return; }
  // headers
  std::string cl, ct; int ncl = hcount(r, "Content-Length", &cl), nct = hcount(r, "Content-Type", &ct);
  if (ncl != 1) violate(K_INTEG | X, "content-length-count", "%s: %d Content-Length headers", D.c_str(), ncl);
  if (nct != 1) violate(K_INTEG | X, "content-type-count", "%s: %d Content-Type headers", D.c_str(), nct);
  if (!type.empty() && ct != type) violate((isfile && !c->pl.mimetype ? K_FILE : K_INTEG) | (r.status == 206 ? K_RANGE : 0), "content-type", "%s: Content-Type '%s', expected '%s'%s", D.c_str(), ct.c_str(), type.c_str(), isfile ? (" for " + c->fpath).c_str() : "");
  std::vector<KV> got; for (auto& h : r.h) { bool mine = strncasecmp(h.first.c_str(), "X-C", 3) == 0 || h.first == "Location" || h.first == "Set-Cookie"; if (mine) got.push_back(h); }
  if (got != ch) { std::string a, b; for (auto& h : got) a += h.first + ": " + h.second.substr(0, 40) + " | "; for (auto& h : ch) b += h.first + ": " + h.second.substr(0, 40) + " | "; violate(K_INTEG | (r.status == 206 ? K_RANGE : 0) | X, "custom-headers", "%s: custom headers received [%s], handler set [%s] (status %d)", D.c_str(), a.substr(0, 700).c_str(), b.substr(0, 700).c_str(), r.status); }
  for (auto& h : r.h) if (!ieq(h.first, "Content-Length") && !ieq(h.first, "Content-Type") && !ieq(h.first, "Connection") && !ieq(h.first, "Server") && !ieq(h.first, "Accept-Ranges") && !ieq(h.first, "Content-Range") && !ieq(h.first, "Date") && strncasecmp(h.first.c_str(), "X-C", 3) && h.first != "Location" && h.first != "Set-Cookie")
    violate(K_INTEG | X, "stray-header", "%s: response header '%s' which the handler did not set", D.c_str(), h.first.c_str());
  // body
  if (r.status == 206) {
    std::string cr; if (hcount(r, "Content-Range", &cr) != 1) { violate(K_RANGE | K_INTEG, "no-content-range", "%s: 206 without exactly one Content-Range", D.c_str()); return; }
    unsigned long long a, b, L; char dummy; if (sscanf(cr.c_str(), "bytes %llu-%llu/%llu%c", &a, &b, &L, &dummy) != 3) { violate(K_RANGE | K_INTEG, "bad-content-range", "%s: Content-Range '%s'", D.c_str(), show(cr).c_str()); return; }
    bool ok = false; std::string why = "no version of the body has that length";
    for (auto& f : alts) { if (f.size() != L) continue; if (a > b || b >= L) { why = "range outside the body"; continue; }
      if (cl != std::to_string(b - a + 1)) { why = "Content-Length " + cl + " but the range has " + std::to_string(b - a + 1) + " bytes"; continue; }
      std::string part = f.substr(a, b - a + 1);
      if (complete ? r.body != part : (r.body.size() > part.size() || part.compare(0, r.body.size(), r.body))) { size_t k = 0; while (k < r.body.size() && k < part.size() && r.body[k] == part[k]) k++; why = "body has " + std::to_string(r.body.size()) + " bytes and differs from the announced range at byte " + std::to_string(k); continue; }
      unsigned long long ea, eb; int rk = range_kind(c->range, L, ea, eb);
      if (rk && (ea != a || eb != b)) { why = "range requested calls for " + std::to_string(ea) + "-" + std::to_string(eb); continue; }
      ok = true; }
    if (!ok) { violate(K_RANGE | K_INTEG | (isfile ? K_FILE : 0), "bad-partial", "%s: Range '%s' answered with Content-Range '%s', Content-Length %s: %s", D.c_str(), show(c->range, 80).c_str(), cr.c_str(), cl.c_str(), why.c_str()); return; }
  } else {
    if (hcount(r, "Content-Range", nullptr)) violate(K_RANGE, "stray-content-range", "%s: status %d carries Content-Range", D.c_str(), r.status);
    if (range_ok) { bool must = !alts.empty(); unsigned long long ea, eb; for (auto& f : alts) if (f.empty() || !range_kind(c->range, f.size(), ea, eb)) must = false;
      if (must) { violate(K_RANGE, "range-ignored", "%s: satisfiable range '%s' answered with %d", D.c_str(), show(c->range, 80).c_str(), r.status); } }
    bool ok = false; size_t best = 0, want = 0;
    for (auto& f : alts) { if (complete ? r.body == f : (r.body.size() <= f.size() && f.compare(0, r.body.size(), r.body) == 0)) { if (cl == std::to_string(f.size())) ok = true; else { best = std::max(best, r.body.size()); want = f.size(); } }
      else { size_t k = 0; while (k < r.body.size() && k < f.size() && r.body[k] == f[k]) k++; if (k >= best) { best = k; want = f.size(); } } }
    if (!ok) { violate(K_INTEG | X | (complete && r.body.size() < want ? K_CLOSED | K_LIVE : 0) | (c->builtin404 || c->fslot == 24 ? K_ROUTE : 0), "wrong-body", "%s: handler's body has %zu bytes, client received %zu (Content-Length %s), %s at byte %zu: \"%s\"", D.c_str(), want, r.body.size(), cl.c_str(), best == r.body.size() && best < want ? "truncated" : "differs", best, show(r.body.substr(std::min(best, r.body.size())), 40).c_str()); return; }
  }
  if (complete) { c->complete = true; c->status_sent = r.status; count(C_RESP_OK); if (r.status == 206) count(C_RESP_206); if (r.status == 404) count(C_RESP_404); if (isfile) count(c->pl.kind == AK_RENDER ? C_RESP_RENDER : C_RESP_FILE); if (c->rx.size() > 4096) count(C_MULTI_CHUNK); if (c->rx.size() > 200000) count(C_LARGE_RESP); if (c->phase == 2) count(C_PROBE_OK); }
}

// ------------------------------------------------------------------ client behaviour
void Client::on_refused() {
  refused = true; t_end = now_ns;
  if (kind == NORMAL && retries < 50 && !serve_done && phase != 3) { refused = false; retries++; after(1000000, [this] { go(); }); }
}
void Client::drain() {
  if (draining || !conn) return; draining = true;
  if (pause && rx.size() > pause_at) { i64 d = pause; pause = 0; trace("client %d stops reading for %lld s", id, (long long)(d / 1000000000)); after(d, [this] { draining = false; if (!done()) drain(); }); return; }
  if (!read_chunk) { size_t n = pend; pend = 0; auto c = conn; draining = false; after(lat, [c, n] { net_client_consumed(c, n); }); return; }
  after(read_delay, [this] { draining = false; size_t n = std::min<size_t>(pend, read_chunk); pend -= n; net_client_consumed(conn, n); if (pend) drain(); });
}
void Client::hang(bool rst) {
  if (done()) return; gone = true; t_end = now_ns; auto c = conn; if (!c) return; c->peer_gone = true;
  trace("client %d %s", id, rst ? "resets" : "closes"); count(rst ? C_CLIENT_RST : C_CLIENT_FIN);
  bool hard = rst || pend > 0; after(lat, [c, hard] { if (c->srv_closed) return; if (hard) net_client_rst(c); else net_client_fin(c); });
}
void Client::on_data(const char* p, size_t n) {
  rx.append(p, n); pend += n; note((u64)id << 40 | n); drain();
  if (kind != HOSTILE && !checked && rx.size() > 16 && kind == NORMAL && rx.size() >= next_judge) { next_judge = rx.size() * 2 + 4096; judge(this, false); }
  if ((abort_kind == 3 || abort_kind == 4) && rx.size() >= abort_at) hang(abort_kind == 4);
}
void Client::on_eof() {
  if (done()) return; eof = true; t_end = now_ns; trace("client %d: EOF after %zu bytes", id, rx.size());
  if (kind != HOSTILE) { checked = true; bool full = kind == NORMAL; if (kind == ABORT && rx.size()) { Resp r = parse_resp(rx); std::string cl; if (r.head && hcount(r, "Content-Length", &cl) && cl == std::to_string(r.body.size())) full = true; } judge(this, full); }
}
void Client::on_reset() {
  if (done()) return; reset = true; t_end = now_ns; trace("client %d: connection reset after %zu bytes", id, rx.size());
  if (kind == NORMAL) violate(K_INTEG | K_LIVE | K_CLOSED, "reset", "%s: server reset the connection of a well-behaved client after %zu response bytes", cdesc(this).c_str(), rx.size());
  else if (kind == ABORT) judge(this, false);
}
void Client::go() {
  t_conn = now_ns; conn = net_connect(this, app->port, lat, sndcap); if (!conn) return;
  count(C_REQ_SENT); int infl = 0; for (auto& c : clients) if (c.get() != this && c->conn && !c->done()) infl++; if (infl) count(C_MULTI_INFLIGHT);
  auto c = conn; i64 t = now_ns + lat; size_t off = 0; size_t lim = wire.size();
  if ((abort_kind == 1 || abort_kind == 2) && abort_at < lim) lim = abort_at;
  if (segs.size() > 1) count(C_SEGMENTED);
  for (auto& s : segs) { t += s.second; size_t e = std::min(s.first, lim); if (e > off) { std::string part = wire.substr(off, e - off); at(t, [this, c, part] { if (!gone) net_client_data(c, part); t_last_arrive = now_ns; }); off = e; t += 1; } }
  if (off < lim) { std::string part = wire.substr(off, lim - off); at(t, [this, c, part] { if (!gone) net_client_data(c, part); t_last_arrive = now_ns; }); t++; }
  t_sent = t;
  if (half_close) { at(t + hc_delay, [this, c] { if (!gone && !done()) { count(C_CLIENT_HALFCLOSE); net_client_fin(c); } }); }
  if (abort_kind == 1 || abort_kind == 2 || abort_kind == 5 || abort_kind == 6) { bool r = abort_kind == 2 || abort_kind == 6; at(t + abort_delay, [this, r] { hang(r); }); }
  if (abort_kind == 3 || abort_kind == 4) { bool r = abort_kind == 4; at(t + 20000000000LL, [this, r] { hang(r); }); }
}

// ------------------------------------------------------------------ request generation
struct Want { bool bodies = true, forms = true, ranges = true, files = true, renders = true, manyh = true, large = true, cookies = true; int large_den = 24; size_t large_max = 300000; bool many_resp_h = true; bool only_heap = false; };
static Want W;

static std::string make_path(Client* c, u32 s, int pi) {
  static const char* w[] = {"abc", "x", "longersegment", "n0", "zz9", "q"}; std::string t = "~" + c->token;
  switch (pi) {
    case 0: return "/static" + t;
    case 1: return std::string("/heap/") + w[draw(s, 6)] + t;
    case 2: return std::string("/h") + (draw(s, 2) ? "ello?Content-Length:%205&X-Q0:z=1" : "/a/b/c") + t;
    case 3: return std::string("/post/") + w[draw(s, 6)] + "-_." + t;
    case 4: return "/form" + t;
    case 5: case 16: return std::string("/files/") + w[draw(s, 6)] + t;
    case 6: return std::string("/page/") + "abc"[draw(s, 3)] + t;
    case 7: return std::string(draw(s, 2) ? "/put/" : "/store/") + (draw(s, 2) ? "key" : "otherkey") + t;
    case 8: return "/empty" + t;
    case 9: return "/redir" + t;
    case 10: case 17: return std::string(draw(s, 2) ? "/xyz" : "/xz") + t;
    case 11: return "/del/" + std::to_string(draw(s, 100)) + t;
    case 12: return std::string("/assets/site.") + (draw(s, 2) ? "css" : "js") + t;
    case 13: return std::string("/") + (draw(s, 2) ? "abc" : "abcde") + "/" + std::to_string(draw(s, 1000)) + t;
    case 14: return "/anything/at/all?x=1" + t;
    case 15: return "/err" + t;
    case 18: return std::string("/doc/") + (draw(s, 2) ? "readme" : "a") + t;
    case 19: return (draw(s, 2) ? "/static" : "*") + t;
    default: { static const char* o[] = {"/nope", "/", "/STATIC", "/stat", "/file/x", "/pages/a", "//static"}; return o[draw(s, 7)] + t; }
  }
}
static std::string num_for_size(u32 s) { return ""; (void)s; }
static size_t pick_size(u32 s) {
  switch (draw(s, 10)) {
    case 0: return draw(s, 40) + 1;
    case 1: { static const size_t z[] = {0, 1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 99999, 100000}; return z[draw(s, 15)]; }
    case 2: { size_t k = 1 + draw(s, 4); return k * 4096 - 120 + draw(s, 60); }          // whole response near a chunk multiple (header ~100 bytes)
    case 3: { size_t k = 1 + draw(s, 4); return k * 4096 + draw(s, 5) - 2; }
    case 4: return draw(s, 3000);
    case 5: return draw(s, 20000);
    case 6: if (W.large && draw(s, W.large_den / 4 + 1) == 1) return W.large_max / 4 + draw(s, W.large_max); return 200 + draw(s, 400);
    default: return 20 + draw(s, 200);
  }
}
static bool twins; static int twin_rot;                                      // requests with the same shape still differ in all their values
static std::string rot(std::string v) {
  if (twin_rot) for (auto& c : v) { if (c >= 'a' && c <= 'z') c = 'a' + (c - 'a' + twin_rot) % 26; else if (c >= 'A' && c <= 'Z') c = 'A' + (c - 'A' + twin_rot) % 26; else if (c >= '0' && c <= '9') c = '0' + (c - '0' + twin_rot) % 10; }
  return v;
}
static std::string rnd_value(u32 s) {
  static const char* v[] = {"a", "text/html", "value with spaces", "k: v", "X-Q1: fake", "Content-Length: 3", "bytes=0-1", "0", "\"quoted\"", "a;b=c", "~!@#$%^&*()", "Mozilla/5.0 (X11; Linux x86_64)", "", "\xc3\xa9\xc3\xa8"};
  if (draw(s, 20) == 1) return rot(std::string(1, 'a' + draw(s, 26)) + std::string(1 + (draw(s, 4) == 1 ? draw(s, 9000) : draw(s, 600)), 'v'));
  return rot(v[draw(s, 14)]);
}
static std::string pct(u32 s, const std::string& in, bool eq = false) {     // eq: an equals sign may stay as it is
  std::string o; u32 mode = draw(s, 3); if (eq) eq = draw(s, 2);
  for (unsigned char c : in) { if (eq && c == '=') { o += c; continue; } if (c == ' ' && mode) { o += '+'; continue; } bool safe = isalnum(c) || strchr("-_.~", c); if (c < 33 || c > 126 || strchr("&=+%#", c) || (!safe && mode != 1) || (mode == 2 && c % 7 == 0)) { char b[4]; snprintf(b, sizeof b, draw(s, 2) ? "%%%02x" : "%%%02X", c); o += b; } else o += c; }
  return o;
}
static void gen_range(Client* c, u32 s, size_t L) {
  char b[200]; unsigned long long l = L ? L : 1; unsigned long long x, y;
  auto pos = [&]() -> unsigned long long { switch (draw(s, 6)) { case 0: return draw(s, (u32)l); case 1: return 0; case 2: return l - 1; case 3: return l; case 4: return l + draw(s, 100000); default: return draw_skew(s, (u32)l); } };
  switch (draw(s, 12)) {
    case 0: case 1: case 2: case 3: x = pos(); y = pos(); if (x > y) std::swap(x, y); snprintf(b, sizeof b, "bytes=%llu-%llu", x, y); break;
    case 4: case 5: snprintf(b, sizeof b, "bytes=%llu-", pos()); break;
    case 6: snprintf(b, sizeof b, "bytes=-%llu", pos()); break;
    case 7: x = pos(); y = pos(); if (x < y) std::swap(x, y); snprintf(b, sizeof b, "bytes=%llu-%llu", x, y); break;
    case 8: snprintf(b, sizeof b, "bytes=0-0,%llu-", pos()); break;
    case 9: { static const char* v[] = {"bytes=", "bytes=-", "0-10", "bytes", "items=0-5", "bytes=a-b", "bytes=5", "", "bytes=--5", "bytes=0x10-0x20", "bytes 0-5", "bytes=1-2-3"}; snprintf(b, sizeof b, "%s", v[draw(s, 12)]); break; }
    case 10: { static const char* v[] = {"bytes=9223372036854775807-", "bytes=0-9223372036854775807", "bytes=18446744073709551615-18446744073709551616", "bytes=99999999999999999999999-", "bytes=0-99999999999999999999999", "bytes=-99999999999999999999999", "bytes=-1-5", "bytes=5--1", "bytes=4294967295-4294967296", "bytes=1-18446744073709551615"}; snprintf(b, sizeof b, "%s", v[draw(s, 10)]); break; }
    default: x = draw(s, (u32)l); y = x + draw_skew(s, 9000); snprintf(b, sizeof b, "bytes=%llu-%llu", x, y); break;
  }
  c->range = b; c->has_range = true;
}
static void match_routes(Client* c) {
  c->slot = -1; c->nm = 0;
  for (size_t i = 0; i < table_.size(); i++) {
    if (c->verb != table_[i].r.verb) continue;
    regmatch_t m[4]; int n = table_[i].r.expected_matches; 
    if (regexec(&table_[i].re, c->path.c_str(), n ? n + 1 : 0, m, 0) == 0) { c->slot = i; c->nm = n; for (int k = 0; k <= n && n; k++) c->em[k] = m[k]; break; }
  }
  c->fslot = c->slot;
  if (c->slot < 0 || table_[c->slot].r.handler == nullptr) c->fslot = 24;
  if (c->slot >= 0 && app_slot_kind[c->slot] == AK_EMPTY404) c->fslot = 24;
  if (c->fslot == 24 && (cust404 == 0 || cust404 == 3)) c->builtin404 = true;
}
static std::string header_token(u32 s) { static const char* n[] = {"X-Q", "X-Q1", "X-Q12", "AX-Q1", "x-q-lower", "Accept", "Cookie2", "X-Real", "Content-Len", "Agent", "User-Agent-X", "Type", "X-Content-Type", "Z"}; return n[draw(s, 14)]; }

// builds the request of client c and what must come of it; s: stream of all choices
static void gen_request(Client* c, u32 s, int pi, bool rich) {
  memset(&c->pl, 0, sizeof c->pl); memset(&c->pl404, 0, sizeof c->pl404); c->pl.id = c->pl404.id = c->id;
  c->token = tok(c->id); by_token[c->token] = c;
  c->verb = pi >= 0 && pi < NPOOL ? pool[pi].verb : (rich && draw(s, 4) == 1 ? "PATCH" : rich && draw(s, 4) == 1 ? "OPTIONS" : "GET");
  if (rich && draw(s, 24) == 1) { static const char* v[] = {"get", "GETX", "GE", "POST", "ABCDEFGHIJKLMNO", "DELETED", "PATCHY", "PATC", "OPTION", "OPTIONSX", "POSTER", "PUTT", "PU", "Get", "HEAD"}; c->verb = v[draw(s, 15)]; }
  c->path = make_path(c, s, pi);
  if (rich && draw(s, 12) == 1) { size_t t = c->path.rfind('~'); size_t room = 490 - c->path.size(); std::string f(draw_skew(s, room), 'p'); if (draw(s, 4) == 1) for (size_t i = 0; i < f.size(); i++) f[i] = "%s%n%d%c"[i % 8]; c->path.insert(t, f); }
  if (rich && draw(s, 40) == 1) { size_t t = c->path.rfind('~'); c->path.insert(t, std::string(500 - c->path.size(), 'P')); }
  match_routes(c);
  // ---- headers
  auto H = [&](std::string n, std::string v) { c->hdr.push_back({n, v}); };
  H("Host", "localhost");
  if (!rich || draw(s, 4)) { static const char* u[] = {"sim/1.0", "Mozilla/5.0 (X11)", "curl/8", "a \"b\" c", "%s%d%n"}; c->ua = rich ? u[draw(s, 5)] : "sim/1.0"; if (rich && draw(s, 14) == 1) { std::string f = blob(c->id * 7 + 3, draw_skew(s, 3000), false); for (auto& ch : f) ch = "abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ/;()0123"[(unsigned char)ch % 61]; c->ua = "L" + f + "."; } c->ua = rot(c->ua); H("User-Agent", c->ua); } else c->ua = "NOUSERAGENT";
  if (!rich || draw(s, 4)) { c->ip = (rich && draw(s, 20) == 1 ? "2001:db8:85a3:8d3:1319:8a2e:370:7348, 10." : "10.") + std::to_string(c->id / 65536 % 256) + "." + std::to_string(c->id / 256 % 256) + "." + std::to_string(c->id % 256); H("X-Real-IP", c->ip); } else c->ip = "NOIP";
  if (rich && W.manyh) { int n = draw_skew(s, 12); for (int i = 0; i < n; i++) { std::string nm = header_token(s); bool dup = false; for (auto& h : c->hdr) if (ieq(h.first, nm)) dup = true; std::string v = rnd_value(s); if (!dup) H(nm, v); }
    if (draw(s, 40) == 1) { int n2 = 30 + draw(s, 120); bool longer = draw(s, 2); for (int i = 0; i < n2; i++) H("X-Q-" + std::to_string(i) + (longer ? std::string(1 + i % 70, 'n') : ""), "v" + std::to_string(c->id) + "_" + std::to_string(i)); count(C_MANY_HEADERS); } }
  if (rich && W.cookies && draw(s, 5) == 1) { static const char* cn[] = {"sid", "id", "a", "session", "xsid", "sidx"}; int n = 1 + draw(s, 4); std::string v; std::vector<std::string> used; for (int i = 0; i < n; i++) { std::string k = cn[draw(s, 6)]; if (std::find(used.begin(), used.end(), k) != used.end()) continue; std::string val = blob(c->id * 31 + i, draw(s, 14) == 1 ? 30 + draw_skew(s, 3000) : draw(s, 30), false); for (auto& ch : val) ch = "abcdefghijklmnopqrstuvwxyzABCDEF0123456789-_./"[(unsigned char)ch % 46]; if (draw(s, 6) == 1) val += "="; if (draw(s, 10) == 1) val = "x" + val + " y" + (draw(s, 2) ? val : "z"); if (used.size()) v += draw(s, 3) == 1 ? ";" : "; "; v += k + "=" + val; used.push_back(k); c->ck.push_back(k); c->ce.push_back({true, val}); } static const char* ab[] = {"nope", "si", "d", "ession"}; c->ck.push_back(ab[draw(s, 4)]); c->ce.push_back({false, ""}); c->cookie = v; H("Cookie", v); }
  // ---- body
  bool canbody = c->verb == "POST" || c->verb == "PUT" || c->verb == "PATCH" || (rich && draw(s, 30) == 1);
  if (canbody && rich && W.bodies) {
    u32 k = draw(s, 6); bool form = pi == 4 ? draw(s, 5) != 1 : k == 1; if (!W.forms) form = false;
    if (form) {
      c->form = true; int n = draw_skew(s, 14) + (draw(s, 10) == 1 ? 30 : 0); if (draw(s, 40) == 1) n = 60 + draw(s, 440); std::map<std::string, std::string> m; std::vector<std::string> keys;
      for (int i = 0; i < n; i++) {
        std::string key; if (keys.size() && draw(s, 5) == 1) key = keys[draw(s, keys.size())]; else { static const char* kn[] = {"a", "ab", "name", "k", "user_id", "x.y", "Z-9"}; key = kn[draw(s, 7)]; if (draw(s, 2)) key += std::to_string(i); if (draw(s, 12) == 1) key += std::string(1 + draw_skew(s, 300), 'k'); if (draw(s, 6) == 1) { static const char* odd[] = {" b", "&", "=", "a=b", "%41", "+", "\xc3\xa9", "[]", ";", "\t", "%"}; key += odd[draw(s, 11)]; if (draw(s, 2)) key += "q"; } if (draw(s, 60) == 1) key += std::string("\0z", 2); }
        std::string val; u32 vk = draw(s, 6); if (vk == 1) val = ""; else if (vk == 2) { val = blob(c->id * 77 + i, 1 + draw(s, 60), false); if (draw(s, 3)) for (auto& ch : val) if (!ch) ch = 1; } else if (vk == 3) val = draw(s, 40) == 1 && c->body.size() < 200000 ? blob(c->id * 31 + i, draw_skew(s, 100000), true) : std::string(draw_skew(s, 2000), 'w'); else if (vk == 4) val = "a b&c=d%e+f"; else val = "v" + std::to_string(draw(s, 1000));
        if (vk > 2 || !vk) val = rot(val);
        if (c->body.size()) c->body += "&"; c->body += pct(s, key) + "=" + pct(s, val, true); m[key] = val; keys.push_back(key);
      }
      for (auto& e : m) { c->fk.push_back(e.first); c->fe.push_back({true, e.second}); if (c->fk.size() >= 560) break; }
      static const char* absent[] = {"nam", "name0x", "aba", "", "a b", "=", "v1", "k=", "charset"}; for (int i = 0, q = draw(s, 4); i < q; i++) { std::string key = draw(s, 3) == 1 && keys.size() ? keys[draw(s, keys.size())] + (draw(s, 2) ? "=" : "0") : absent[draw(s, 9)]; if (!m.count(key)) { c->fk.push_back(key); c->fe.push_back({false, ""}); } }
      static const char* tails[] = {"", "; charset=UTF-8", ";charset=utf-8"}; H("Content-Type", std::string(draw(s, 8) == 1 ? "Application/X-WWW-Form-URLEncoded" : "application/x-www-form-urlencoded") + tails[draw(s, 3)]); c->has_body = true; count(C_FORM);
      if (c->body.empty()) { c->body = "solo=1"; c->fk.push_back("solo"); c->fe.push_back({true, "1"}); }
    } else if (k != 5) {
      size_t n = draw(s, 3) == 0 ? draw_skew(s, 400) : draw(s, 3) == 0 ? draw_skew(s, 9000) : draw_skew(s, 70000); if (draw(s, 60) == 1) n = 200000 + draw(s, 300000);
      if (draw(s, prop == 3 || prop == 12 ? 60 : 500) == 1) { n = 1000000 + draw(s, 900000); c->huge = 1 + draw(s, 3); count(C_HUGE_BODY); }      // up to all that the server accepts
      c->body = blob(c->id * 13 + 5, n, draw(s, 2)); c->has_body = true; if (draw(s, 2)) H("Content-Type", draw(s, 2) ? "application/octet-stream" : "text/plain; x=application/x-www-form-urlencoded"); count(C_BODY);
    }
    if (c->has_body || draw(s, 2)) { std::string nm = draw(s, 6) == 1 ? "content-length" : "Content-Length"; H(nm, std::string(draw(s, 12) == 1 ? 1 + draw(s, 9) : 0, '0') + std::to_string(c->body.size())); }
    if (c->hdr.size() > 2 && draw(s, 2)) std::swap(c->hdr.back(), c->hdr[1 + draw(s, c->hdr.size() - 1)]);
  }
  // ---- plan
  struct plan& P = c->pl; P.kind = c->slot >= 0 ? app_slot_kind[c->slot] : 0; P.status = 200; int pk = c->slot >= 0 ? table_[c->slot].pool : -1;
  size_t n = rich ? pick_size(s) : 30; 
  c->pbody = blob((u64)c->id * 1000003 + 17, n, rich ? draw(s, 2) : 1);
  { std::string mark = "[" + c->token + "]"; for (size_t i = 0; i < mark.size() && i < n; i++) c->pbody[i] = mark[i]; }
  if (pk == 9) { P.status = draw(s, 2) ? 301 : 302; c->ch.push_back({"Location", "/elsewhere/" + c->token}); if (draw(s, 2)) { c->pbody.clear(); } }
  if (pk == 15) { static const int st[] = {400, 403, 404, 500}; P.status = st[draw(s, 4)]; if (c->pbody.empty()) c->pbody = "e"; }
  if (pk == 11 && rich && draw(s, 3) == 1) { static const int st[] = {500, 403, 301}; P.status = st[draw(s, 3)]; }
  if ((P.kind == AK_HEAP || P.kind == AK_HEAPNC) && rich && draw(s, 6) == 1) { static const int st[] = {500, 403, 400, 302}; P.status = st[draw(s, 4)]; }
  if (P.kind == AK_RAW) P.status = 200;
  if (P.kind == AK_EMPTY404 && rich) P.nonnull = draw(s, 2);
  if (rich) {
    if (draw(s, 4) == 1 && P.kind != AK_EMPTY404) { static const char* mt[] = {"application/json", "image/png", "text/plain; charset=utf-8", "x/y", "application/octet-stream-longer1"}; c->pmime = std::string(mt[draw(s, 5)]).substr(0, 31); }
    int nh = W.many_resp_h ? draw_skew(s, 9) : 0; if (W.many_resp_h && draw(s, 30) == 1) nh = 20 + draw(s, 30);
    for (int i = 0; i < nh; i++) { std::string hn = "X-C" + std::to_string(draw(s, 4) == 1 ? 0 : i); std::string hv; u32 z = draw(s, 6); if (z == 1) hv = ""; else if (z == 2) hv = std::string(draw_skew(s, 3000), 'h') + std::to_string(c->id); else if (z == 3) hv = "100%s %d %n"; else hv = "v" + std::to_string(c->id) + "-" + std::to_string(i); if (draw(s, 8) == 1) hn = "Set-Cookie"; c->ch.push_back({hn, hv}); }
  }
  if (P.kind == AK_EMPTY404 && c->ch.size() > 3) c->ch.resize(3);
  if (rich && (P.kind == AK_HEAP || P.kind == AK_HEAPNC) && n > 0 && n < 100000 && c->pbody.size() && draw(s, 6) == 1) {      // the whole response, head included, fills whole pieces
    const char* st = P.status == 200 ? "200 OK" : P.status == 301 ? "301 Moved" : P.status == 302 ? "302 Found" : P.status == 400 ? "400 Bad Request" : P.status == 403 ? "403 Forbidden" : P.status == 404 ? "404 Not Found" : "500 Internal Server Error";
    size_t k = (1 + draw(s, 6)) * 4096, head = strlen("HTTP/1.1 \r\nContent-Type: \r\nContent-Length: \r\nConnection: close\r\nServer: 38-Moths\r\n\r\n") + strlen(st) + (c->pmime.empty() ? strlen("text/html") : c->pmime.size()); int m = 0;
    for (auto& h : c->ch) if (m++ < 64) head += h.first.size() + h.second.size() + 4;
    while (k < head + 64) k += 4096; size_t b = k - head; b -= std::to_string(b).size(); static const int dd[] = {0, 0, 1, -1}; b += dd[draw(s, 4)];
    if (b > c->pbody.size()) c->pbody += blob(c->id * 31 + 7, b - c->pbody.size(), true); else c->pbody.resize(b); }
  if (P.kind == AK_MMAP) { c->fpath = fpaths.size() ? fpaths[rich ? draw(s, fpaths.size()) : 0] : "/srv/none"; if (rich && draw(s, 12) == 1) c->fpath = "/srv/missing.txt"; }
  if (P.kind == AK_RENDER) { c->tpl = rich ? draw(s, tpls.size()) : 0; c->fpath = tpls[c->tpl].path; }
  P.body = c->pbody.data(); P.len = c->pbody.size(); P.mimetype = c->pmime.empty() ? nullptr : c->pmime.c_str(); P.path = c->fpath.c_str();
  P.nh = 0; for (auto& h : c->ch) { if (P.nh >= 64) break; P.hn[P.nh] = strdup(h.first.c_str()); P.hv[P.nh] = strdup(h.second.c_str()); P.nh++; }
  c->ch.resize(P.nh);
  if (rich) { static const int dl[] = {0, 0, 0, 1000, 30000, 800000}; P.delay_us = dl[draw(s, 6)]; }
  // what the handler looks up
  if (rich) {
    int nq = draw_skew(s, 8); bool usual = draw(s, 4) == 1; if (usual) nq = std::max(nq, 1); for (int i = 0; i < nq; i++) {
      std::string nm; bool found = false; std::string val; if (usual && !i) nm = draw(s, 2) ? "User-Agent" : "X-Real-IP"; else if (draw(s, 3)) { auto& h = c->hdr[draw(s, c->hdr.size())]; nm = h.first; } else nm = header_token(s);
      for (auto& h : c->hdr) if (ieq(h.first, nm)) { found = true; val = h.second; break; }
      u32 cs = draw(s, 4); if (cs == 1) for (auto& ch : nm) ch = toupper((unsigned char)ch); if (cs == 2) for (auto& ch : nm) ch = tolower((unsigned char)ch);
      c->q.push_back(nm); c->qe.push_back({found, val}); } }
  P.nq = 0; for (auto& x : c->q) P.q[P.nq++] = x.c_str(); P.nf = 0; for (auto& x : c->fk) { P.fk[P.nf] = x.data(); P.fkn[P.nf++] = x.size(); }
  P.nck = 0; for (auto& x : c->ck) P.ck[P.nck++] = x.c_str(); P.cookie = c->cookie.c_str(); P.ncookie = c->cookie.size();
  // custom 404 page
  c->p404body = "custom-404[" + c->token + "]" + (rich ? blob(c->id, draw_skew(s, 6000), true) : ""); c->pl404 = plan(); memset(&c->pl404, 0, sizeof c->pl404); c->pl404.id = c->id; c->pl404.kind = app_slot_kind[24]; c->pl404.status = 404; c->pl404.body = c->p404body.data(); c->pl404.len = c->p404body.size();
  if (rich && draw(s, 3) == 1) { c->pl404.nh = 1; c->pl404.hn[0] = "X-C404"; c->pl404.hv[0] = "yes"; }
  // ---- range
  if (rich && W.ranges && draw(s, prop == 13 ? 2 : 8) == (prop == 13 ? 0 : 1)) { size_t L = c->pbody.size(); if (P.kind == AK_MMAP) { auto it = vfs.files.find(vfs.real(c->fpath)); if (it != vfs.files.end()) L = it->second->d.size(); } if (P.kind == AK_RENDER) L = tpls[c->tpl].tc.out.size(); gen_range(c, s, L); bool dup = false; for (auto& h : c->hdr) if (ieq(h.first, "Range")) dup = true; if (!dup) H("Range", c->range); }
  // ---- wire
  std::string ver = rich && draw(s, 16) == 1 ? "HTTP/1.0" : "HTTP/1.1"; std::string w = c->verb + " " + c->path + " " + ver + "\r\n", hl;
  for (auto& h : c->hdr) { static const char* seps[] = {":", ":  ", ":\t", ": \t ", ":      "}; static const char* tls[] = {" ", "\t", "  ", " \t", "\t  "}; const char* sep = rich && draw(s, 12) == 1 ? seps[draw(s, 5)] : ": "; const char* tl = rich && draw(s, 24) == 1 ? tls[draw(s, 5)] : ""; if (h.second.empty()) sep = ": ", tl = ""; hl += h.first + sep + h.second + tl + "\r\n"; }
  if (rich && draw(s, 5) == 1) {     // make the header block or the whole request hit a buffer boundary
    size_t fixed = w.size() + hl.size() + 2 + 9, target, extra = draw(s, 2) ? c->body.size() : 0; size_t k = 1 + draw(s, 4); static const int dd[] = {0, -1, 1, -2, 2, -3, 3, -4, 4}; int dlt = dd[draw(s, 9)]; 
    while ((target = k * 1024 + dlt) < fixed + extra + 1) k++;
    hl += "X-Pad: " + std::string(target - fixed - extra, 'P') + "\r\n"; }
  if (c->huge > 1) {    // as large as the server takes, or nearly so; the length keeps its number of digits
    size_t head = (w + hl).size() + 2, n = 2097152 - head - (c->huge == 2 ? 0 : draw(s, 1100)); std::string was = std::to_string(c->body.size()), is = std::to_string(n);
    size_t k = hl.find(was + "\r\n"); while (k != std::string::npos && (k == 0 || isdigit((unsigned char)hl[k - 1]))) k = hl.find(was + "\r\n", k + 1);
    if (k != std::string::npos && is.size() == was.size() && n > c->body.size()) {
      c->body += blob(c->id * 7 + 1, n - c->body.size(), true); hl.replace(k, was.size(), is);
      for (auto& h : c->hdr) if (ieq(h.first, "Content-Length")) h.second = is;
      for (size_t i = 0; i < c->q.size(); i++) if (ieq(c->q[i], "Content-Length")) c->qe[i].second = is; } }
  c->wire = w + hl + "\r\n" + c->body;
}
static void gen_segments(Client* c, u32 s, bool heavy) {
  size_t n = c->wire.size(); static const i64 dl[] = {20000, 1000000, 30000000, 400000000, 5000000000LL, 45000000000LL, 400000000000LL};
  u32 m = draw(s, 6); if (!heavy && m > 2) m = 0;
  std::vector<size_t> cuts;
  if (m == 1) cuts.push_back(draw(s, n));
  else if (m == 2) { size_t e = c->wire.find("\r\n\r\n"); size_t p = e + draw(s, 9); if (p > 4) p -= 2; if (p < n) cuts.push_back(p); }
  else if (m == 3) { int k = 1 + draw(s, 8); for (int i = 0; i < k; i++) cuts.push_back(draw(s, n)); }
  else if (m == 4) { size_t st = 1 + draw_skew(s, 1500); for (size_t p = st; p < n && cuts.size() < 400; p += st) cuts.push_back(p); }
  else if (m == 5) { for (size_t p = 1024; p < n && cuts.size() < 60; p += 1024) cuts.push_back(p + (int)draw(s, 3) - 1); }
  std::sort(cuts.begin(), cuts.end()); u32 dm = draw(s, 7); i64 first = draw(s, 4) == 1 ? dl[draw(s, 7)] : 0; bool f1 = true;
  for (auto p : cuts) { if (!p || p >= n) continue; if (c->segs.size() && c->segs.back().first >= p) continue; c->segs.push_back({p, f1 ? first : (cuts.size() > 20 ? dl[std::min(dm, 1u)] : dl[draw(s, dm + 1)])}); f1 = false; }
  c->segs.push_back({n, c->segs.empty() ? first : cuts.size() > 20 ? dl[std::min(dm, 1u)] : dl[draw(s, dm + 1)]});
}
static void gen_net(Client* c, u32 s, bool slow) {
  static const i64 la[] = {50000, 1000, 500000, 20000000, 150000000}; c->lat = la[draw(s, 5)];
  static const size_t sc[] = {65536, 4096, 4097, 16384, 1000, 200000, 100}; c->sndcap = sc[slow ? draw(s, 7) : draw(s, 2) ? 0 : draw(s, 4)];
  if (slow && draw(s, 3) == 1) { static const u32 rc[] = {4096, 512, 20000, 100}; static const i64 rd[] = {100000, 2000000, 40000000}; c->read_chunk = rc[draw(s, 4)]; c->read_delay = rd[draw(s, 3)]; size_t tot = c->pbody.size() + 2000; while (tot / c->read_chunk > 500) c->read_chunk *= 2; }
  if (c->pbody.size() > 100000 && c->sndcap < 4096) c->sndcap = 4096;
  if (slow && draw(s, 10) == 1) { static const i64 pz[] = {3000000000LL, 65000000000LL, 700000000000LL}; c->pause = pz[draw(s, 3)]; c->pause_at = draw_skew(s, c->pbody.size() + 200); if (draw(s, 2)) c->sndcap = 1000 + draw(s, 5000); if (c->pbody.size() > 100000 && c->sndcap < 4096) c->sndcap = 4096; }
}
static void gen_abort(Client* c, u32 s) {
  c->kind = ABORT; c->abort_kind = 1 + draw(s, 6); static const i64 dl[] = {0, 20000, 200000, 5000000, 300000000, 2000000000LL}; c->abort_delay = dl[draw(s, 6)];
  if (c->abort_kind <= 2) c->abort_at = draw(s, c->wire.size() + 1); else c->abort_at = draw(s, 3) ? draw_skew(s, c->pbody.size() + 200) : 1;
}
static void gen_hostile(Client* c, u32 s) {
  c->kind = HOSTILE; count(C_CLIENT_HOSTILE); std::string w = c->wire; u32 k = draw(s, 16); u64 rs = draw(s, 1u << 30); bool over = false; if (prop == 12 && draw(s, 3) == 1) { k = 13; over = true; }
  auto lrng = [&]() { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (u32)(rs >> 33); };
  switch (k) {
    case 0: { int n = 1 + draw_skew(s, 12); for (int i = 0; i < n && w.size(); i++) { size_t p = lrng() % w.size(); switch (lrng() % 4) { case 0: w[p] = (char)lrng(); break; case 1: w.erase(p, 1 + lrng() % 8); break; case 2: w.insert(p, std::string(1 + lrng() % 8, (char)lrng())); break; case 3: w[p] ^= 1 << (lrng() & 7); } } break; }
    case 1: w = blob(rs, draw_skew(s, 6000), false); break;
    case 2: w.resize(draw(s, w.size() + 1)); break;
    case 3: { static const char* v[] = {"", "\r\n\r\n", "\r\n", " ", "GET", "GET ", "GET /", "GET / ", "GET / HTTP/1.1", "GET / HTTP/1.1\r\n", "GET / HTTP/1.1\r\n\r", "\n\n\n\n", "GET\r\n\r\n", "  \r\n\r\n", "GET  \r\n\r\n", "A B \r\n\r\n", "\0\0\0\0", "GET / HTTP/1.1\r\nHost\r\n\r\n", "GET / HTTP/1.1\r\n: x\r\n\r\n", "GET / HTTP/1.1\r\nRange:\r\nUser-Agent:\r\n\r\n", "GET / HTTP/1.1\r\nContent-Length\r\n\r\n", "GET / HTTP/1.1\nHost: x\n\n", "%s%n%s%n\r\n\r\n", "GET%s%s%s%n%n\r\n\r\n", "%s%s%s %n%s%n HTTP/1.1\r\n\r\n", "GET /%s%n%s%n%s%n\r\n\r\n", "GET /%s%n%s%n HTTP/1.1\r\n%s%n: %s%n\r\n\r\n"}; w = v[draw(s, 27)]; break; }
    case 4: w = "GET /" + std::string(draw_skew(s, 5000), 'a') + " HTTP/1.1\r\n\r\n"; break;
    case 5: w = std::string(draw_skew(s, 5000), 'V') + " /static HTTP/1.1\r\n\r\n"; break;
    case 6: { static const char* v[] = {"-1", "-2147483648", "99999999999999999999", "2147483648", "4294967296", "18446744073709551615", "abc", "", "1e3", "0x10", "+5", " 7", "10 20", "5\r\nContent-Length: 50"}; std::string b = blob(rs, draw_skew(s, 3000), true); w = "POST /post/x~1 HTTP/1.1\r\nContent-Length: " + std::string(v[draw(s, 14)]) + "\r\n\r\n" + b; break; }
    case 7: w = "POST /post/x~1 HTTP/1.1\r\nContent-Length: " + std::to_string(draw_skew(s, 5000)) + "\r\n\r\n" + blob(rs, draw_skew(s, 5000), false); break;
    case 8: { static const char* v[] = {"%", "a=%", "a=%4", "a=%zz", "=", "&&&&", "=x&=y", "a=b=c&d", "a=%00b", "&a", "a=&b=", "%41=b", "a=+%2"}; std::string b = v[draw(s, 13)]; if (draw(s, 4) == 1) b = blob(rs, draw_skew(s, 3000), false);
      if (draw(s, 3) == 1) { static const char* pc[] = {"a=1&", "&", "=&", "a&", "k=v&", "%41=%42&", "a=%&", "b=+++&"}; const char* q = pc[draw(s, 8)]; size_t n = draw_skew(s, 60000); b.clear(); while (b.size() < n) b += *q == 'k' ? "k" + std::to_string(b.size()) + "=v&" : q; }      // thousands of fields
      w = "POST /form~1 HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\n" + (draw(s, 5) ? "Content-Length: " + std::to_string(b.size()) + "\r\n" : std::string()) + "\r\n" + b; break; }
    case 9: if (draw(s, 4) == 1) { static const char* pc[] = {"a=1; ", ";", "=;", "a; ", "0-1,", "5-9, ", "-,", "bytes="}; u32 j = draw(s, 8); std::string v = j < 4 ? "" : "bytes="; size_t n = draw_skew(s, 20000); while (v.size() < n) v += pc[j]; w = "GET /static~1 HTTP/1.1\r\n" + std::string(j < 4 ? "Cookie: " : "Range: ") + v + "\r\n\r\n"; break; }
      { std::string v = blob(rs, draw_skew(s, 200), false); w = "GET /static~1 HTTP/1.1\r\nRange: bytes=" + v + "\r\nUser-Agent: " + blob(rs + 1, draw_skew(s, 2000), false) + "\r\nX-Real-IP: " + blob(rs + 2, draw_skew(s, 1200), false) + "\r\n\r\n"; break; }
    case 10: { int n = draw_skew(s, 3000); w = "GET /static~1 HTTP/1.1\r\n"; for (int i = 0; i < n; i++) w += "H" + std::to_string(i) + ": " + std::string(lrng() % 60, 'q') + "\r\n"; if (draw(s, 3)) w += "\r\n"; break; }
    case 11: w += draw(s, 2) ? w : blob(rs, draw_skew(s, 4000), false); break;      // trailing bytes after the request
    case 12: { std::string v; for (int i = 0; i < 4; i++) v += std::string(draw_skew(s, 30), "\0 \r\n"[i]); w = "GET /h" + v + " HTTP/1.1\r\n\r\n"; if (draw(s, 2)) w.insert(w.size() / 2, 1, '\0'); break; }
    case 13: if (over || draw(s, 12) == 2) {    // well-formed, but more than the server takes: refused, or else seen in full
        c->body = blob(rs, 2096000 + draw(s, 2000), true); c->exact = true; w = "POST " + c->path + " HTTP/1.1\r\nContent-Length: " + std::to_string(c->body.size()) + "\r\n\r\n" + c->body; break; }
      if (draw(s, 12) == 1) { w = "GET /static~1 HTTP/1.1\r\n"; size_t t = 2000000 + draw(s, 400000); w += "X: " + std::string(t, 'z'); if (draw(s, 2)) w += "\r\n\r\n"; } else { w = "POST /post/q~1 HTTP/1.1\r\nContent-Length: 3000000\r\n\r\n" + std::string(draw_skew(s, 4000), 'b'); } break;
    case 14: { std::string p = blob(rs, 1 + draw_skew(s, 500), false); for (auto& ch : p) if (ch == ' ' || ch == '\r' || ch == '\n') ch = '_'; static const char* pre[] = {"/files/", "/heap/", "/x", "/page/", "/", ""}; w = "GET " + std::string(pre[draw(s, 6)]) + p + " HTTP/1.1\r\n\r\n"; break; }
    case 15: w = w.substr(0, w.find("\r\n") + 2) + "\r\n" + w; break;
  }
  c->wire = w; c->has_range = false;
  c->abort_kind = 5 + draw(s, 2); static const i64 dl[] = {1000000, 0, 50000, 300000000, 5000000000LL}; c->abort_delay = dl[draw(s, 5)];
  if (draw(s, 3) == 1) { c->half_close = 1; c->hc_delay = dl[draw(s, 5)]; c->abort_delay = 30000000000LL; }
  if (draw(s, 8) == 1) { c->abort_kind = 1 + draw(s, 2); c->abort_at = draw(s, w.size() + 1); }
  if (c->exact) { c->abort_kind = 5; c->half_close = 0; c->abort_delay = 1000000; }      // all of it is sent: a client which stops halfway gets what it sent handled
}
static CP new_client(int id, int phase) { auto c = std::make_shared<Client>(); c->id = id + id_base; c->phase = phase; c->keep = c; clients.push_back(c); return c; }
static CP probe_client(int id, int phase, int pi) { auto c = new_client(id, phase); gen_request(c.get(), S_MISC, pi, false); c->segs.push_back({c->wire.size(), 0}); return c; }

// ------------------------------------------------------------------ boot
static Fiber* start_server() {
  main_fiber = spawn("main", [] {
    if (cust404) { if (cust404 == 4) { m38_set_404_cleanup(app, app_cleanups[24]); m38_set_404_handler(app, app_handlers[24]); } else { if (cust404 != 3) m38_set_404_handler(app, app_handlers[24]); if (cust404 >= 2) m38_set_404_cleanup(app, app_cleanups[24]); } }
    int rc = m38_http_serve(app); serve_rc = rc; serve_done = true; trace("m38_http_serve returned %d", rc); 
    for (;;) block_until("after serve", [] { return false; });
  });
  return main_fiber;
}
static void gen_table(bool rich) {
  std::vector<int> idx; for (int i = 0; i < NPOOL; i++) idx.push_back(i);
  if (!W.files && !W.renders) {}
  if (rich) { u32 n = draw(S_CFG, 3); if (n) for (int i = 0; i < NPOOL; i++) { int j = i + draw(S_CFG, NPOOL - i); std::swap(idx[i], idx[j]); } u32 cut = draw(S_CFG, NPOOL); idx.resize(NPOOL - cut); }
  if (rich && (prop == 12 || prop == 14) && draw(S_CFG, 4)) { int f = prop == 12 ? 4 : 5; idx.erase(std::remove(idx.begin(), idx.end(), f), idx.end()); idx.insert(idx.begin(), f); }      // what the property is about
  std::vector<int> out; for (int i : idx) { if (pool[i].kind == AK_RENDER && !W.renders) continue; if (pool[i].kind == AK_MMAP && !W.files) continue; out.push_back(i); }
  table_.clear(); routes.clear();
  for (size_t i = 0; i < out.size(); i++) {
    const PoolRoute& p = pool[out[i]]; Slot s; s.pool = out[i]; memset(&s.r, 0, sizeof s.r); strncpy(s.r.verb, p.verb, sizeof s.r.verb - 1); snprintf(s.r.name, sizeof s.r.name, "route%zu", i); strncpy(s.r.route_match, p.re, sizeof s.r.route_match - 1); s.r.expected_matches = p.nm;
    app_slot_kind[i] = p.kind; s.r.handler = app_handlers[i]; s.has_cleanup = !(p.kind == AK_STATIC && out[i] % 2 == 0) && p.kind != AK_RAW; s.r.cleanup = s.has_cleanup ? app_cleanups[i] : nullptr;
    if (regcomp(&s.re, p.re, REG_EXTENDED)) harness_error("bad pattern"); table_.push_back(s); routes.push_back(s.r); }
  app_slot_kind[24] = cust404 == 2 || cust404 == 4 ? AK_HEAPNC : AK_STATIC;   // only with a cleanup may it own its body
}
static void boot(bool rich) {
  fds0 = 0;
  int fdb = rich && draw(S_CFG, 10) == 1 ? 0 : 3; if (prop == 5 || prop == 10) fdb = draw(S_CFG, 4) == 1 ? 0 : 3;
  if (fdb == 3 && draw(S_CFG, 10) == 1) { static const int held[] = {60, 120, 124, 248, 253, 505, 1016, 2000}; fdb = held[draw(S_CFG, 8)] + draw(S_CFG, 8); count(C_MANY_FDS); }      // descriptors the application holds itself
  K.limit = fd_limit = 1024 + fdb;
  for (int i = 0; i < fdb; i++) { auto f = std::make_shared<File>(File::PIPE); K.alloc_fd(f); }
  fds0 = K.nopen();
  nthreads = 1 + draw(S_CFG, 4); if ((rich && draw(S_CFG, 30) == 1) || (prop == 10 && draw(S_CFG, 6) == 1)) { nthreads = 5 + draw(S_CFG, 36); count(C_MANY_WORKERS); }
  if (twins && draw(S_CFG, 2)) nthreads = 1;
  cust404 = rich ? draw(S_CFG, 5) : 0;
  wall_off_ns = 1700000000LL * 1000000000LL + (i64)draw(S_CFG, 1000) * 1000000; wall_hist.clear(); wall_hist.push_back({0, wall_off_ns});
  // files
  int nf = 1 + draw(S_CFG, 12);
  for (int i = 0; i < nf; i++) {
    static const size_t sz[] = {100, 0, 1, 1024, 4095, 4096, 4097, 8192, 12288, 65536, 20000, 300000, 7, 4096 * 3 - 1};
    size_t n = sz[draw(S_CFG, 14)]; std::string base_; u32 k = draw(S_CFG, 19); std::string nm = std::string(1, 'a' + i);
    if (k < 10) base_ = "/srv/" + nm + kExt[k]; else if (k == 10) base_ = "/srv/" + nm; else if (k == 11) base_ = "/" + nm; else if (k == 12) base_ = nm + ".js"; else if (k == 13) base_ = "/srv/" + std::string(200 + i, 'd') + "/" + nm + ".json"; else if (k == 14) base_ = "/srv/" + nm + ".tar.xyz"; else if (k == 15) base_ = "/srv/" + nm + ".HTML"; else if (k == 16) { static const char* o[] = {".jsx", ".jsonl", ".icon", ".txt2", ".cssx", ".jpgx"}; base_ = "/srv/" + nm + o[i % 6]; } else if (k == 17) { static const char* o[] = {".j", ".c", ".htm", ".jp", ".", ".xsvg", ".mjs"}; base_ = "/srv/" + nm + o[i % 7]; } else base_ = "/srv.d/" + nm + kExt[i % 10];
    if (draw(S_CFG, 8) == 1) base_ = "/srv/verylongfilenamewithoutanydirectory" + nm + ".jpg";
    std::string d = blob(9000 + i, n, draw(S_CFG, 2)); vfs.put(base_, std::vector<char>(d.begin(), d.end())); fpaths.push_back(base_);
  }
  if (nf > 1 && draw(S_CFG, 3) == 1) { static const char* dn[] = {"/srv/sub", "/srv/sub.txt", "/srv/x/"}; std::string n = dn[draw(S_CFG, 3)]; vfs.put(n, std::vector<char>(4096, 0)); vfs.files[n]->mode = S_IFDIR | 0755; fpaths.push_back(n); }      // a directory can be opened, but not mapped
  if (draw(S_CFG, 4) == 1) { static const char* ln[] = {"/srv/link", "/srv/current.css", "/link.json", "/srv/link.d/file"}; std::string n = ln[draw(S_CFG, 4)]; vfs.links[n] = fpaths[draw(S_CFG, fpaths.size())]; fpaths.push_back(n); count(C_SYMLINK); }
  if (W.renders) { int nt = 1 + draw(S_CFG, 3); for (int i = 0; i < nt; i++) { Tpl t; static const char* ex[] = {".html", ".txt", ""}; t.path = "/tpl/t" + std::to_string(i) + ex[draw(S_CFG, 3)]; t.tc = gen_tcase(S_TMPL, "/inc/" + std::string(1, (char)('a' + i)) + "/", tpl_includes, prop == 6 ? 8 : 5); bool none = draw(S_CFG, 12) == 1; if (none || t.tc.tmpl.empty()) t.tc.tmpl = none ? "xXx UNLESS NOT @dne xXx\nnothing\nxXx ENDLESS xXx" : "hello xXx @truthy xXx\n", ref_render(t.tc.tmpl, {&t.tc.ctx}, t.tc.includes, t.tc.full, t.tc.outsize), t.tc.out = t.tc.full.substr(0, t.tc.outsize);
      vfs.put(t.path, std::vector<char>(t.tc.tmpl.begin(), t.tc.tmpl.end())); for (auto& e : t.tc.includes) vfs.put(e.first, std::vector<char>(e.second.begin(), e.second.end())); trace("template %s: %s", t.path.c_str(), show(t.tc.tmpl, 600).c_str()); for (auto& e : t.tc.includes) trace("include %s: %s", e.first.c_str(), show(e.second, 300).c_str()); tpls.push_back(t); } }
  gen_table(rich);
  if (rich && draw(S_CFG, prop == 11 ? 4 : 12) == 1) {      // many more routes, which nobody asks for
    int n = 1 + draw_skew(S_CFG, draw(S_CFG, prop == 11 ? 2 : 5) == 1 ? 140 : 25); if (prop == 11 && draw(S_CFG, 5) == 1) n = 190 + draw(S_CFG, 150); bool before = draw(S_CFG, 2); std::vector<m38_route> pad;
    for (int i = 0; i < n; i++) { m38_route r; memset(&r, 0, sizeof r); strcpy(r.verb, i % 3 ? "GET" : "POST"); snprintf(r.name, sizeof r.name, "pad%d%s", i, i % 7 ? "" : std::string(50, 'n').c_str()); std::string re = "^/padding(" + std::to_string(i) + ")-" + std::string(i % 5 == 0 ? 235 : i % 30, 'q') + "$"; strncpy(r.route_match, re.c_str(), sizeof r.route_match - 1); r.expected_matches = i % 2; r.handler = app_handlers[23]; pad.push_back(r); }
    if (before) routes.insert(routes.begin(), pad.begin(), pad.end()); else routes.insert(routes.begin() + draw(S_CFG, routes.size() + 1), pad.begin(), pad.end()); count(C_MANY_ROUTES); }
  app = (m38_app*)calloc(1, sizeof(m38_app)); m38_app tmp = {&main_fd, 8080, nthreads, routes.data(), (int)routes.size(), nullptr, nullptr}; memcpy((void*)app, &tmp, sizeof tmp);
  fd_misuse = [](const char* w, int fd) { violate(K_FD, "bad-descriptor", "%s(%d) on a descriptor that is not open or not of that kind, in %s", w, fd, cur ? cur->name : "-"); };
}
static void pick_sched(bool fair) {
  sched = SchedCfg(); sched.strategy = fair ? 4 : (int)(side_rng() % 5); static const u32 pd[] = {2, 4, 16, 64}; sched.p_den = pd[side_rng() % 4]; sched.quantum = 1 + side_rng() % 6; sched.victim = 1 + side_rng() % (nthreads + 2); sched.pct_d = 1 + side_rng() % 6; static const u64 pl[] = {300, 3000, 30000}; sched.pct_len = pl[side_rng() % 3];
  static const u32 hd[] = {0, 1, 3, 20}; sched.hot_den = hd[draw(S_CFG, 4)]; static const u32 gp[] = {0, 3000, 300, 30000, 40}; sched.gap = gp[draw(S_CFG, 5)]; static const u32 sd[] = {0, 0, 3000, 600}; sched.stall_den = fair ? 0 : sd[draw(S_CFG, 4)];
  sched_reset();
}
static void run_idle(const char* what) {
  RunEnd e = run(nullptr); (void)e; (void)what;
  if (serve_done && prop != 10) violate(K_LIVE, "server-stopped", "m38_http_serve returned %d while serving (%s)", serve_rc, what);
}

// ------------------------------------------------------------------ idle oracles
static void check_clients(int phase, const char* what) {
  for (auto& c : clients) { if (c->phase != phase) continue;
    if (c->kind == NORMAL && !c->complete) {
      const char* st = !c->conn ? "never connected" : !c->conn->accepted ? "connection never accepted" : c->runs == 0 && c->slot >= 0 ? "handler never ran" : c->rx.empty() ? "no response byte sent" : "response incomplete";
      violate(K_LIVE | K_INTEG | (c->conn && c->conn->accepted && !c->conn->srv_closed ? K_CLOSED : 0), "unanswered", "%s: never answered (%s; %zu bytes received) though nothing is left to happen [%s]; threads: %s", cdesc(c.get()).c_str(), st, c->rx.size(), what, fibers_state().c_str()); }
    else if (c->kind == ABORT && !c->checked) { c->checked = true; if (c->rx.size()) judge(c.get(), false); }
  }
  for (auto& c : clients) { if (c->phase != phase) continue;
    if (c->conn && c->conn->accepted && !c->conn->srv_closed) violate(K_CLOSED | K_FD, "not-closed", "connection #%d (fd %d) of %s was accepted and never closed [%s]; threads: %s", c->conn->id, c->conn->fd, cdesc(c.get()).c_str(), what, fibers_state().c_str());
    if (c->conn && !c->conn->accepted && !c->refused) violate(K_LIVE, "not-accepted", "connection #%d of %s was never accepted [%s]; threads: %s", c->conn->id, cdesc(c.get()).c_str(), what, fibers_state().c_str());
    if (c->kind == HOSTILE) continue;
    bool delivered = c->kind == NORMAL;
    if (c->slot >= 0) { if (c->runs > 1 || (delivered && c->runs != 1)) violate(K_LIFE, "handler-count", "%s: handler ran %d times", cdesc(c.get()).c_str(), c->runs); }
    if (delivered && c->fslot == 24 && !c->builtin404 && c->runs404 != 1) violate(K_LIFE | K_ROUTE, "handler-count", "%s: custom 404 handler ran %d times", cdesc(c.get()).c_str(), c->runs404);
    if (c->runs404 && c->fslot != 24) violate(K_ROUTE, "stray-404", "%s: 404 handler ran for a matched request", cdesc(c.get()).c_str());
  }
  for (auto r : recs) {
    if (r->expect_cleanup && r->cleaned != 1) violate(K_LIFE | (r->cleaned == 0 ? K_LEAK : 0), "cleanup-count", "cleanup of the response produced for %s (route slot %d, status %d) ran %d times [%s]", r->c ? cdesc(r->c).c_str() : "a hostile request", r->slot, r->status, r->cleaned, what);
    if (r->cleaned && r->c && r->c->complete && r->tx_at_clean != ~0ull && r->cstatus != r->c->status_sent) violate(K_LIFE, "cleanup-status", "cleanup of the response for %s was told status %d, the client got %d", cdesc(r->c).c_str(), r->cstatus, r->c->status_sent);
    if (r->cleaned && r->c && r->c->conn && r->c->conn->total_tx > r->tx_at_clean) violate(K_LIFE, "cleanup-early", "cleanup of the response for %s ran when %llu of %llu response bytes had been handed to the network", cdesc(r->c).c_str(), (unsigned long long)r->tx_at_clean, (unsigned long long)r->c->conn->total_tx);
  }
  for (auto& c : K.conns) if (c->closes > 1) violate(K_FD, "double-close", "connection #%d closed %d times", c->id, c->closes);
}
struct Holdings { i64 fds, live, regex, maps; bool operator>(const Holdings& o) const { return fds > o.fds || live > o.live || regex > o.regex || maps > o.maps; } };
static Holdings holdings() { return {K.nopen(), alloc.live, alloc.regex, map_pages()}; }
static Holdings at_base() { return {base.fds, base.live, base.regex, base.maps}; }
static void report_growth(const char* what, const Holdings& h0, int again) {
  Holdings h = holdings(); char more[200] = ""; if (again) snprintf(more, sizeof more, "; the same traffic repeated made it grow again %d times", again);
  if (h.fds > h0.fds) violate(K_FD | K_LEAK, "fd-leak", "%lld descriptors open at idle, %d before the traffic [%s]%s: %s", (long long)h.fds, base.fds, what, more, K.describe_open().c_str());
  if (h.live > h0.live) violate(K_LEAK, "memory-leak", "%lld allocations (%lld bytes) live at idle, %lld (%lld bytes) before the traffic [%s]%s; newer ones: %s", (long long)alloc.live, (long long)alloc.bytes, (long long)base.live, (long long)base.bytes, what, more, live_alloc_summary(base.serial).c_str());
  if (h.regex > h0.regex) violate(K_LEAK, "regex-leak", "%lld compiled patterns live at idle, %lld before the traffic [%s]%s", (long long)alloc.regex, (long long)base.regex, what, more);
  if (h.maps > h0.maps) violate(K_LEAK, "map-leak", "%lld pages mapped at idle, %lld before the traffic [%s]%s", (long long)map_pages(), (long long)base.maps, what, more);
}
static bool grown(u32 mask) { if (!(g_mask & mask)) return false; Holdings h = holdings(), b = at_base(); if (g_mask & K_LEAK) return h > b; return h.fds > b.fds; }
static void take_baseline() { base = {true, alloc.live, alloc.bytes, alloc.regex, map_pages(), K.nopen(), alloc_serial()}; }

// ---- log
static i64 offset_at(i64 t) { i64 o = wall_hist[0].second; for (auto& h : wall_hist) if (h.first <= t) o = h.second; return o; }
static bool stamp_ok(const std::string& st, i64 from, i64 to) {
  // some wall-clock second shown between simulated instants from and to must print as st
  auto test = [&](i64 a, i64 b, i64 off) { i64 s0 = (a + off) / 1000000000 + tz_s, s1 = (b + off) / 1000000000 + tz_s; if (s1 - s0 > 100000) s0 = s1 - 100000; for (i64 s = s0; s <= s1; s++) { time_t t = s; struct tm tm; gmtime_r(&t, &tm); char b2[64]; strftime(b2, sizeof b2, "%b %d %H:%M:%S", &tm); if (st == b2) return true; } return false; };
  i64 a = from; 
  for (size_t i = 0; i < wall_hist.size(); i++) { i64 b = i + 1 < wall_hist.size() ? wall_hist[i + 1].first : INT64_MAX; i64 lo = std::max(a, wall_hist[i].first), hi = std::min(to, b); if (lo <= hi && test(lo, hi, wall_hist[i].second)) return true; }
  return false;
}
static bool looks_stamp(const char* p, size_t n) {
  if (n < 15) return false; static const char* mo = "JanFebMarAprMayJunJulAugSepOctNovDec"; bool m = false; for (int i = 0; i < 12; i++) if (!strncmp(p, mo + 3 * i, 3)) m = true;
  return m && p[3] == ' ' && isdigit((unsigned char)p[5]) && p[6] == ' ' && isdigit((unsigned char)p[7]) && p[9] == ':' && p[12] == ':';
}
static void check_log() {
  flush_std(); bool hostile = hostile_present;
  struct L { size_t off, len; }; std::vector<L> lines; size_t p = 0;
  while (p < cap_out.size()) { size_t e = cap_out.find('\n', p); if (e == std::string::npos) e = cap_out.size(); lines.push_back({p, e - p}); p = e + 1; }
  std::map<std::string, std::vector<size_t>> bytok;
  size_t lw = 0; std::vector<const LogWrite*> ow; for (auto& w : logw) if (!w.err) ow.push_back(&w);
  for (size_t i = 0; i < lines.size(); i++) {
    const char* s = cap_out.data() + lines[i].off; size_t n = lines[i].len; if (!n) continue;
    while (lw + 1 < ow.size() && ow[lw + 1]->off <= lines[i].off) lw++;
    if (!hostile) {
      if (!looks_stamp(s, n)) { violate(K_LOG, "torn-line", "log line does not start with a time stamp: \"%s\"", show(std::string(s, n), 160).c_str()); continue; }
      for (size_t k = 15; k + 15 <= n; k++) if (s[k] != ' ' && looks_stamp(s + k, n - k)) { violate(K_LOG, "torn-line", "two log lines run into each other: \"%s\"", show(std::string(s, n), 200).c_str()); break; }
    }
    if (looks_stamp(s, n) && lw < ow.size() && lines[i].off >= ow[lw]->off && lines[i].off < ow[lw]->off + ow[lw]->len) {
      i64 from = ow[lw]->clock_read >= 0 ? ow[lw]->clock_read : ow[lw]->prev_write >= 0 ? ow[lw]->prev_write : 0; 
      std::string st(s, 15); if (!stamp_ok(st, from, ow[lw]->mono)) { time_t t = (ow[lw]->mono + offset_at(ow[lw]->mono)) / 1000000000 + tz_s; struct tm tm; gmtime_r(&t, &tm); char b2[64]; strftime(b2, sizeof b2, "%b %d %H:%M:%S", &tm);
        violate(K_LOG, "false-stamp", "log line stamped %s was written at %s (thread %s): \"%s\"", st.c_str(), b2, ow[lw]->fiber >= 0 ? fibers[ow[lw]->fiber]->name : "-", show(std::string(s, n), 120).c_str()); } }
    for (size_t k = 0; k + 12 < n; k++) if (s[k] == '~' && isdigit((unsigned char)s[k + 1])) { size_t e = k + 1; while (e < n && isdigit((unsigned char)s[e])) e++; if (e + 1 < n && s[e] == '"' && s[e + 1] == ' ') bytok[std::string(s + k + 1, e - k - 1)].push_back(i); }
  }
  for (auto& c : clients) {
    if (c->kind == HOSTILE) continue; auto& v = bytok[c->token];
    if (c->kind == NORMAL ? v.size() != 1 : v.size() > 1) { violate(K_LOG, "line-count", "%s: %zu access-log lines", cdesc(c.get()).c_str(), v.size()); continue; }
    if (!c->complete || v.empty()) continue; Resp r = parse_resp(c->rx);
    std::string ln = cap_out.substr(lines[v[0]].off, lines[v[0]].len); std::vector<size_t> sizes{r.body.size()};
    if (r.status == 206) { std::string cr; hcount(r, "Content-Range", &cr); size_t sl = cr.rfind('/'); if (sl != std::string::npos) sizes.push_back(strtoull(cr.c_str() + sl + 1, 0, 10)); }
    bool ok = false; std::string want; for (auto z : sizes) { want = c->ip + " \"" + c->verb + " " + c->path + "\" " + std::to_string(r.status) + " " + std::to_string(z) + " \"" + c->ua + "\""; if (ln.size() >= want.size() && ln.compare(ln.size() - want.size(), want.size(), want) == 0 && (ln.size() == want.size() || ln[ln.size() - want.size() - 1] == ' ')) ok = true; }
    if (want.size() > 690) continue;
    if (!ok) violate(K_LOG, "wrong-line", "%s: access-log line \"%s\" should end in \"%s\"", cdesc(c.get()).c_str(), show(ln, 300).c_str(), show(want, 300).c_str());
  }
}

// ------------------------------------------------------------------ workload
static int pick_pool(u32 s) {
  if (prop == 14) { static const int f[] = {5, 5, 5, 6, 0, 5, 5, 1}; return f[draw(s, 8)]; }
  if (prop == 12) { static const int f[] = {4, 3, 7, 14, 2, 1, 4, 0, 13}; return f[draw(s, 9)]; }
  if (prop == 11) { return (int)draw(s, NPOOL + 4); }
  return (int)draw(s, NPOOL + 2);
}
static bool burst; static int same_pool = -1;             // everybody at the same instant, at the same distance
static void workload(int n, int p_abort, int p_hostile, bool heavy_seg, bool slow, i64 spread) {
  bool model = false;
  for (int k = 0; k < n; k++) {
    u32 s = S_W0 + k; if (!draw_gen(s, 2, 1)) continue;
    auto c = new_client(twins ? k + 100 : k, 1); c->st = s;
    if (twins) { twin_rot = k % 25; if (!model || draw(s, 8)) { twin(model ? 2 : 1); model = true; } }
    { int pi = pick_pool(s); gen_request(c.get(), s, same_pool >= 0 && draw(s, 8) ? same_pool : pi, true); }
    twin(0); twin_rot = 0;
    bool host = p_hostile && draw(s, 100) + 1 > 100u - p_hostile, ab = !host && p_abort && draw(s, 100) + 1 > 100u - p_abort;
    if (host) { hostile_present = true; gen_hostile(c.get(), s); }
    if (c->wire.size()) gen_segments(c.get(), s, heavy_seg && c->wire.size() < 200000); else c->segs.push_back({0, 0});
    gen_net(c.get(), s, slow); if (ab) gen_abort(c.get(), s);
    if (c->kind == NORMAL && prop != 3 && draw(s, 12) == 1) { c->half_close = 1; c->hc_delay = draw(s, 2) ? 0 : 3000000; }
    if (burst && !host) { c->lat = 50000; if (draw(s, 8)) c->segs.assign(1, {c->wire.size(), 0}); c->start = now_ns + 1000; Client* cc = c.get(); at(c->start, [cc] { cc->go(); }); continue; }
    c->start = now_ns + 1000 + (spread ? (i64)((u64)draw(s, 1000) * spread / 1000) : 0) + draw(s, 50) * 1000; Client* cc = c.get(); at(c->start, [cc] { cc->go(); });
  }
}
static void probes(const char* what, int phase = 2) {
  int n = nthreads + 2; std::vector<CP> ps; int pi = -1; for (auto& s : table_) if (pool[s.pool].kind == AK_STATIC || pool[s.pool].kind == AK_HEAP || pool[s.pool].kind == AK_HEAPNC || pool[s.pool].kind == AK_RAW) { pi = s.pool; break; }
  if (pi < 0) pi = 99;
  max_active = active_handlers; i64 t = now_ns;
  for (int i = 0; i < n; i++) { auto c = probe_client(3000 + i + phase * 100, phase, pi); if (i < nthreads) c->pl.delay_us = 1000000; Client* cc = c.get(); at(t + 1000 + i * 10, [cc] { cc->go(); }); ps.push_back(c); }
  run_idle(what); check_clients(phase, what);
  bool slow_ok = true; for (int i = 0; i < nthreads; i++) if (ps[i]->slot < 0) slow_ok = false;
  if (slow_ok && max_active < nthreads) violate(K_LIVE, "worker-lost", "only %d of %d worker threads still serve requests [%s]; threads: %s", max_active, nthreads, what, fibers_state().c_str());
}
// Clients which connect, stop half-way and stay, one fewer than there are workers: the others are served meanwhile.
static void stuck_clients() {
  int k = 1 + draw(S_MISC, std::min(nthreads - 1, 6)); hostile_present = true; std::vector<Client*> hs; i64 t = now_ns;
  for (int i = 0; i < k; i++) {
    auto c = probe_client(3700 + i, 6, draw(S_MISC, 2) ? 0 : 4); c->kind = HOSTILE; u32 m = draw(S_MISC, 5);
    if (m == 1) c->wire.clear(); else if (m == 2) c->wire.resize(1 + draw(S_MISC, c->wire.size() - 1)); else if (m == 3) c->wire = "POST /" + std::string(draw_skew(S_MISC, 3000), 'x') + " HTTP/1.1\r\nContent-Length: 5000\r\n\r\n" + std::string(draw_skew(S_MISC, 4999), 'y'); else if (m == 4) c->wire = "GET / HTTP/1.1\r\nX: y\r\n" + std::string(draw_skew(S_MISC, 5000), 'z'); else c->wire.resize(c->wire.size() - 1);
    c->segs.clear(); c->segs.push_back({c->wire.size(), 0}); Client* cc = c.get(); hs.push_back(cc); at(t + 1000 + i * 10, [cc] { cc->go(); });
  }
  run_idle("clients that stop half-way"); count(C_STUCK_CLIENTS); t = now_ns;
  int pi = table_.empty() ? 99 : table_[draw(S_MISC, table_.size())].pool; for (int i = 0; i < 5; i++) { auto c = probe_client(3800 + i, 5, i & 1 ? pi : 99); Client* cc = c.get(); at(t + 1000 + draw(S_MISC, 3) * 1000000, [cc] { cc->go(); }); }
  run_idle("while others do not go on"); check_clients(5, "while other clients, fewer than there are workers, stopped half-way");
  for (auto c : hs) { bool r = draw(S_MISC, 2); after(1000, [c, r] { c->hang(r); }); }
  run_idle("after the others hung up"); check_clients(6, "after clients that stopped half-way hung up"); probes("after clients that stopped half-way hung up", 7);
}
static void warmup() {
  int id = 1000;
  for (size_t i = 0; i < table_.size(); i++) { auto c = probe_client(id++, 0, table_[i].pool); Client* cc = c.get(); after(1000, [cc] { cc->go(); }); run_idle("warm-up"); check_clients(0, "warm-up"); }
  { auto c = probe_client(id++, 0, 99); Client* cc = c.get(); after(1000, [cc] { cc->go(); }); run_idle("warm-up"); check_clients(0, "warm-up"); }
}
// every mutation is an atomic replacement, removal or creation of a whole file
static void setup_vfs_faults(u32 den) {
  on_file_call = [den] {
    if (!faults_on || !den || fpaths.empty()) return; static bool busy; if (busy) return; 
    if (!chance(S_F_VFS, 1, den)) return; busy = true;
    const std::string p = vfs.real(fpaths[draw(S_F_VFS, fpaths.size())]); u32 k = draw(S_F_VFS, 4);
    if (k == 3 && vfs.files.count(p)) { vfs.remove(p); count(C_FILE_REMOVED); trace("file %s removed", p.c_str()); }
    else { static const size_t sz[] = {200, 0, 5000, 4096, 8191, 30000, 3}; static int ver; size_t n = sz[draw(S_F_VFS, 7)]; std::string d = blob(77000 + ++ver, n, true); bool had = vfs.files.count(p); vfs.put(p, std::vector<char>(d.begin(), d.end())); count(had ? C_FILE_REPLACED : C_FILE_REMOVED); trace("file %s %s (%zu bytes)", p.c_str(), had ? "replaced" : "created", n); }
    busy = false; };
}
static void sample(const char* more) {
  int nn = 0, na = 0, nh = 0; for (auto& c : clients) if (c->phase == 1) (c->kind == NORMAL ? nn : c->kind == ABORT ? na : nh)++;
  snprintf(R->sample, sizeof R->sample, "%d workers, %zu routes, custom-404 mode %d, %d well-behaved + %d aborting + %d hostile clients, scheduler %d (mem 1/%u gap %u stall 1/%u)%s", nthreads, table_.size(), cust404, nn, na, nh, sched.strategy, sched.hot_den, sched.gap, sched.stall_den, more);
}
static void setup_faults() {
  auto den = [](u32 lo, u32 hi) -> u32 { u32 k = draw(S_CFG, 4); return k == 0 ? 0 : k == 1 ? hi : k == 2 ? (lo + hi) / 2 : lo; };
  switch (prop) {
    case 1: fc.send_short = den(2, 12); fc.send_eintr = den(4, 30); fc.recv_short = den(4, 30); fc.recv_eintr = den(10, 60); break;
    case 2: fc.send_short = den(4, 40); fc.recv_short = den(10, 60); break;
    case 3: fc.recv_short = den(2, 8); fc.recv_eintr = den(4, 30); break;
    case 4: fc.recv_short = den(4, 20); fc.send_short = den(4, 20); break;
    case 5: fc.send_short = den(4, 30); fc.recv_eintr = den(6, 40); fc.send_eintr = den(6, 40); fc.accept_err = den(4, 20); fc.accept_emfile = den(4, 20); fc.mq_eintr = den(8, 60); fc.open_err = den(4, 20); fc.mmap_err = den(4, 20); fc.stat_err = den(6, 30); break;
    case 6: fc.send_short = den(4, 30); fc.open_err = den(3, 12); fc.stat_err = den(3, 12); fc.mmap_err = den(3, 12); fc.recv_eintr = den(10, 60); fc.recv_short = den(6, 30); break;
    case 7: fc.send_short = den(3, 16); fc.send_eintr = den(6, 40); fc.recv_short = den(6, 30); break;
    case 8: fc.accept_err = den(2, 12); fc.accept_eintr = den(2, 12); fc.accept_emfile = den(2, 12); fc.recv_eintr = den(3, 20); fc.send_eintr = den(3, 20); fc.mq_eintr = den(3, 20); fc.send_short = den(6, 30); fc.recv_short = den(6, 30); break;
    case 12: fc.recv_short = den(3, 16); fc.recv_eintr = den(8, 40); break;
    case 13: fc.send_short = den(4, 30); break;
    case 14: fc.open_err = den(3, 14); fc.stat_err = den(3, 14); fc.mmap_err = den(3, 14); fc.read_short = den(2, 6); fc.send_short = den(6, 30); break;
    case 16: break;
    default: fc.send_short = den(8, 40); fc.recv_short = den(8, 40); break;
  }
}

u32 world_epochs(int p) { return p == 9 ? 2 + 0 : 1; }

static void finish_ok() { R->nthreads = nthreads; R->nclients = clients.size(); finish_run(V_OK); }

static void start_and_wait() {
  start_server(); preempt_on = true; 
  run_idle("start-up");
  if (!serve_done) { bool lis = false; for (auto* l : K.listeners) if (l->listening) lis = true; if (!lis) violate(K_LIVE | K_START, "no-listen", "server did not come up: %s", fibers_state().c_str()); }
}

// ---- C10: failing start
static void run_start_failure() {
  boot(false); pick_sched(false); faults_on = true; u32 mode = draw(S_CFG, 5); static const u32 dn[] = {40, 12, 6, 3, 0}; fc.start_fail = dn[mode];
  sched.stall_den = draw(S_CFG, 3) == 1 ? 300 : 0;
  bool client_early = draw(S_CFG, 2); CP ec;
  if (client_early) { ec = probe_client(1, 3, 0); ec->kind = ABORT; ec->retries = 1000; ec->abort_kind = 5; ec->abort_delay = 5000000000LL; Client* cc = ec.get(); at(1000 + (i64)draw(S_CFG, 200) * 1000, [cc] { cc->go(); }); }
  start_server(); preempt_on = true; i64 t0 = now_ns; (void)t0; run(nullptr); faults_on = false;
  u64 fired = R->ctr[C_START_FAIL]; snprintf(R->sample, sizeof R->sample, "%d workers, %llu start-up calls failed, server %s", nthreads, (unsigned long long)fired, serve_done ? "returned" : "runs");
  R->nontrivial = fired > 0;
  bool soft = R->ctr[C_START_SOFT] > 0;      // setting an option of the socket failed: the server can do without
  if (fired || (soft && serve_done)) {
    if (!serve_done) violate(K_START, "failure-not-reported", "%llu required start-up call(s) failed but m38_http_serve did not return; threads: %s", (unsigned long long)fired, fibers_state().c_str());
    if (serve_rc == 0) violate(K_START, "failure-reported-as-success", "%llu required start-up call(s) failed but m38_http_serve returned 0", (unsigned long long)fired);
    for (auto* l : K.listeners) if (l->listening && !l->shut) violate(K_START | K_FD, "still-listening", "the listening socket is still open after the failed start");
    int n = K.nopen(); if (n != fds0) violate(K_START | K_FD, "descriptors-left", "%d descriptors open after the failed start, %d before: %s", n, fds0, K.describe_open().c_str());
    auto c = probe_client(2, 3, 0); c->kind = HOSTILE; Client* cc = c.get(); after(1000, [cc] { cc->go(); }); run(nullptr);
    if (cc->conn && cc->conn->accepted) violate(K_START, "accepted-after-failure", "a connection was accepted after the failed start");
    if (!cc->refused && !cc->reset) violate(K_START, "connect-after-failure", "a client could connect after the failed start and was neither refused nor reset");
    finish_ok();
  }
  if (serve_done) violate(K_START, "spurious-failure", "no start-up call failed but m38_http_serve returned %d", serve_rc);
  run_idle("start-up"); probes("after an undisturbed start"); finish_ok();
}

// ---- fairness
struct FairWait { Client* small; std::vector<Client*> larges; };
static std::vector<FairWait> fair; 
static size_t resp_total(Client* c) { return c->pbody.size() + 60; }
static void fair_on_produced(Client* c) {
  if (prop != 16 || c->large || c->phase != 1) return; FairWait f{c, {}}; size_t infl = 0; for (auto& o : clients) if (o->prods && !o->done() && o->conn && !o->conn->srv_closed) infl++;
  for (auto& o : clients) if (o->large && o->prods && o->conn && !o->conn->srv_closed && o->conn->total_tx > 0) { size_t tot = resp_total(o.get()); size_t rem = tot > o->conn->total_tx ? tot - o->conn->total_tx : 0; if (rem > 4096 * (200 + 20 * infl)) f.larges.push_back(o.get()); }
  if (f.larges.size()) { fair.push_back(f); count(C_OVERTAKE); }
}
static void fair_check() { // after every close
  for (auto& f : fair) { if (f.small->conn->srv_closed) continue; for (auto* l : f.larges) if (l->conn->srv_closed || l->conn->total_tx >= resp_total(l)) { violate(K_FAIR, "starved", "%s was ready when %s still had most of its %zu bytes to go, but the large response was completed first (the small one has sent %llu bytes)", cdesc(f.small).c_str(), cdesc(l).c_str(), resp_total(l), (unsigned long long)f.small->conn->total_tx); } }
}
static void run_fairness() {
  W.files = W.renders = false; boot(false); if (nthreads < 2) nthreads = 2, app->num_threads = 2; pick_sched(true); sched.gap = 0; sched.hot_den = 0;
  start_and_wait(); warmup(); take_baseline();
  int nl = 1 + draw(S_CFG, 4), ns = 3 + draw(S_CFG, 10); i64 t = now_ns; if (draw(S_CFG, 6) == 1) nl = 5 + draw(S_CFG, 12);
  size_t base = (nl > 4 ? 5u : 8u) << 19;
  for (int i = 0; i < nl; i++) { u32 s = S_W0 + i; if (!draw_gen(s, 2, 1)) continue; auto c = new_client(i, 1); c->st = s; gen_request(c.get(), s, draw(s, 2) ? 0 : 1, false); size_t sz = base + draw(s, base); if (draw(s, 3) == 1) c->range = "", c->has_range = false; c->pbody = blob(c->id + 5, sz, false); c->pl.body = c->pbody.data(); c->pl.len = sz; c->large = true; c->segs.push_back({c->wire.size(), 0}); c->lat = 1000; c->sndcap = 8192 << draw(s, 5); Client* cc = c.get(); at(t + 1000 + draw(s, 30000) * 100, [cc] { cc->go(); }); }
  for (int i = 0; i < ns; i++) { u32 s = S_W0 + 20 + i; if (!draw_gen(s, 2, 1)) continue; auto c = new_client(20 + i, 1); c->st = s; gen_request(c.get(), s, draw(s, 2) ? 0 : 1, false); c->segs.push_back({c->wire.size(), 0}); c->lat = 1000; size_t sz = 20 + draw_skew(s, 9000); c->pbody = blob(c->id + 5, sz, false); c->pl.body = c->pbody.data(); c->pl.len = sz; Client* cc = c.get(); at(t + 2000000 + (i64)draw(s, 6000) * 1000, [cc] { cc->go(); }); }
  sample(", fairness"); K.on_close = [] { fair_check(); };
  run_idle("workload"); fair_check(); check_clients(1, "workload"); R->nontrivial = !fair.empty(); finish_ok();
}

void world_run(int p, u32 ep, bool last) {
  prop = p; epoch = ep; id_base = (i64)ep * 20000;
  W = Want(); tpl_includes = true;
  if (p == 10) run_start_failure();
  if (p == 16) run_fairness();
  if (p == 5 || p == 8 || p == 14 || p == 6) tpl_includes = false;
  if (p == 14) W.renders = true;
  bool rich = true; if (p == 9) { W.renders = false; W.large_max = 60000; }
  if (p == 2) { W.large_den = 4; W.large_max = 200000; }
  if (p == 12) { W.large = false; }
  if ((p == 1 || p == 2 || p == 4 || p == 5 || p == 7 || p == 13) && draw(S_CFG, 16) == 1) { W.large_den = 16; W.large_max = 9000000; }      // a few of many megabytes
  if (p == 17) { W.large_den = 12; if (draw(S_CFG, 6) == 1) W.large_max = 1500000; }
  if (p == 11) { W.large = false; W.ranges = false; W.files = true; }
  if (p == 9) restore_queues();
  if (p == 17) { static const i64 tz[] = {0, 19800, -12600, 50400, -36000}; tz_s = tz[draw(S_CFG, 5)]; }
  twins = draw(S_CFG, 8) == 1; if (twins) { count(C_TWIN); heap_reuse = true; }
  boot(rich);
  if (p == 9 && ep == 0) { u32 k = draw(S_F_CRASH, 4); if (k) { static const char* nm[] = {"/mothsaqueue", "/mothshqueue"}; for (int i = 0; i < 2; i++) { if (!draw(S_F_CRASH, 2)) continue; auto m = std::make_shared<Mq>(); m->name = nm[i]; m->maxmsg = 10; static const size_t ms[] = {4, 8, 8192, 1}; m->msgsize = k == 1 ? (i ? 8 : 4) : ms[draw(S_F_CRASH, 4)]; m->mode = 0644; int n = draw(S_F_CRASH, 11); for (int j = 0; j < n; j++) { std::string d(std::min<size_t>(m->msgsize, 64), '\0'); u32 v = draw(S_F_CRASH, 12); memcpy(&d[0], &v, std::min<size_t>(4, d.size())); m->q.push_back({d, 0, m->seq++}); count(C_LEFTOVER_MSGS); } K.mqs[nm[i]] = m; } } }
  else if (p == 9) { for (auto& e : K.mqs) count(C_LEFTOVER_MSGS, e.second->q.size()); }
  pick_sched(false);
  int crash_mode = 0; u64 crash_pt = 0;
  if (p == 9 && !last) { crash_mode = 1 + draw(S_F_CRASH, 3); crash_pt = crash_mode == 1 ? draw_skew(S_F_CRASH, 3000) : draw(S_F_CRASH, 6000); }
  auto crash_now = [&](void) { trace("CRASH"); count(C_CRASH); persist_queues(); R->hash ^= 0x1234; R->simtime_ns += now_ns; _exit(77); };
  if (crash_mode == 1) { crash_after_points(crash_pt, crash_now); }
  start_and_wait();
  bool cold = draw(S_CFG, p == 11 ? 2 : 4) == 1;         // the first requests ever come all at once
  if ((p != 9 || last) && !cold) { faults_on = false; warmup(); }
  if (fds0 == 3 && draw(S_CFG, 6) == 1) { u32 m = 1 + draw(S_CFG, 7); for (int i = 0; i < 3; i++) if (m >> i & 1) K.fds[i].reset(); trace("standard descriptors closed (%u)", m); }
  take_baseline();
  setup_faults();
  u32 vden = p == 14 ? (static_cast<u32>(draw(S_CFG, 4)) * 4) : 0; setup_vfs_faults(vden);
  if (p == 5 || p == 8) { u32 k = draw(S_CFG, 4); if (k == 1) K.limit = base.fds + 1 + draw(S_CFG, 6); }
  int nmax; int pa = 0, ph = 0; bool seg = false, slow = true; 
  switch (p) {
    case 1: nmax = 14; pa = 15; ph = 3; break;
    case 2: nmax = 40; pa = 4; break;
    case 3: nmax = 8; seg = true; slow = false; break;
    case 4: nmax = 12; pa = 15; ph = 55; seg = true; break;
    case 5: nmax = 14; pa = 35; ph = 20; seg = true; break;
    case 6: nmax = 12; pa = 25; ph = 25; seg = true; break;
    case 7: nmax = 12; pa = 50; break;
    case 8: nmax = 12; pa = 10; seg = true; break;
    case 9: nmax = 14; pa = 5; break;
    case 11: nmax = 14; seg = false; slow = false; break;
    case 12: nmax = 10; seg = true; slow = false; ph = draw(S_CFG, 4) == 1 ? 12 : 0; break;
    case 13: nmax = 10; pa = 8; break;
    case 14: nmax = 10; pa = 12; break;
    case 17: nmax = 12; slow = false; break;
    default: nmax = 10;
  }
  if (p == 17) { static const u32 ch[] = {0, 200, 20, 5}; clock_hot = ch[draw(S_CFG, 4)]; }
  if (p == 17 && draw(S_CFG, 3)) { int n = 1 + draw(S_F_CLOCK, 5); for (int i = 0; i < n; i++) { static const i64 js[] = {3600000000000LL, -3600000000000LL, 1000000000LL, -86400000000000LL, 400000000LL, 86399000000000LL}; i64 d = js[draw(S_F_CLOCK, 6)]; after((i64)draw(S_F_CLOCK, 4000) * 1000 * (draw(S_F_CLOCK, 3) ? 1 : 500), [d] { wall_jump(d); }); } }
  u32 q = draw(S_CFG, 4); int n = q == 0 ? 1 + draw(S_CFG, 3) : q == 1 ? nmax : 1 + draw(S_CFG, nmax);
  bool many = (p == 2 || (p >= 4 && p <= 8)) && draw(S_CFG, p == 2 ? 10 : 24) == 1;      // a long history, mostly of clients which give up
  if (many) { n = 50 + draw(S_CFG, 130); if (draw(S_CFG, 4) == 1) n += 140; pa = 40 + draw(S_CFG, 50); count(C_LONG_HISTORY); }
  bool parallel = prop == 12 || prop == 13 || prop == 14;
  burst = draw(S_CFG, cold ? 2 : parallel ? 3 : 6) == 1; same_pool = burst && !table_.empty() && draw(S_CFG, 2) ? table_[draw(S_CFG, table_.size())].pool : -1; if (burst) count(C_BURST);
  if (burst && parallel && draw(S_CFG, 2)) { int f = prop == 12 ? 4 : 5; for (auto& t : table_) if (t.pool == f) { same_pool = f; n = std::max(n, 6 + (int)draw(S_CFG, 8)); } }      // forms, files
  static const i64 sp[] = {0, 500000, 20000000, 3000000000LL}; i64 spread = sp[draw(S_CFG, 4)];
  int wpa = draw(S_CFG, 4) == 3 && !many ? 0 : pa, wph = draw(S_CFG, 4) == 3 ? 0 : ph; int limit = K.limit;
  auto traffic = [&] { workload(n, wpa, wph, seg && !many, slow, spread); };
  auto drain = [&] { run_idle("workload"); faults_on = false; K.limit = fd_limit; };
  auto settle = [&] { for (auto f : fibers) f->stall_until = -1; run_idle("drain"); check_clients(1, "workload"); };
  memo(1); traffic(); memo(0);
  faults_on = true; sample(many ? ", long history" : "");
  if (crash_mode >= 2) { if (crash_mode == 2) crash_after_points(crash_pt, crash_now); else { i64 d = (i64)crash_pt * 2000; after(d, crash_now); } }
  drain(); if (crash_mode) crash_now(); settle();
  bool g = grown(K_LEAK | K_FD);
  if (K.nopen() < base.fds) violate(K_FD, "fd-lost", "%d descriptors open at idle, %d before the traffic: %s", K.nopen(), base.fds, K.describe_open().c_str());
  check_log();
  probes("after the workload"); if (g_mask & K_LOG) check_log();
  g = g || grown(K_LEAK | K_FD);
  if (g) {
    // Something is still held. A cache filled on first use is no leak, so every worker serves every route, and then the
    // same traffic comes again and again: what keeps growing is lost.
    trace("something is held at idle: repeating the traffic"); int grew = 0; Holdings h1 = holdings(), prev = h1;
    for (int pass = 1; pass <= 6; pass++) {
      id_base = (i64)ep * 20000 + 100000 * pass;
      if (pass == 1) { int id = 1000; for (int k = 0; k < 2; k++) for (auto& t : table_) { for (int i = 0; i < nthreads; i++) { auto c = probe_client(id++, 4, t.pool); c->pl.delay_us = 300000; Client* cc = c.get(); after(1000, [cc] { cc->go(); }); } run_idle("repetition"); check_clients(4, "repetition"); } }
      memo(2); traffic(); memo(0); K.limit = limit; faults_on = true;
      drain(); settle(); probes("after the repeated workload");
      Holdings h = holdings(); if (pass == 1) { prev = h1 = h; continue; }
      if (h > prev) grew++;
      prev = {std::max(h.fds, prev.fds), std::max(h.live, prev.live), std::max(h.regex, prev.regex), std::max(h.maps, prev.maps)};
    }
    if (grew >= 2) report_growth("after the workload", h1, grew);
  }
  if ((p == 4 || p == 2) && !g && nthreads > 1 && !twins && draw(S_CFG, 3) == 1) stuck_clients();
  R->nontrivial = nontrivial_run();
  finish_ok();
}
}  // namespace sim
using namespace sim;

// ------------------------------------------------------------------ application callbacks
extern "C" {
struct plan* h_enter(int slot, const m38_http_request* rq) {
  count(C_HANDLER_RUN); active_handlers++; max_active = std::max(max_active, active_handlers);
  size_t L = strnlen(rq->resource, sizeof rq->resource); std::string res(rq->resource, L), verb(rq->verb, strnlen(rq->verb, sizeof rq->verb));
  size_t t = res.rfind('~'); std::string tk; if (t != std::string::npos) { size_t e = t + 1; while (e < res.size() && isdigit((unsigned char)res[e])) e++; tk = res.substr(t + 1, e - t - 1); }
  auto it = by_token.find(tk); Client* c = it == by_token.end() ? nullptr : it->second;
  trace("handler slot %d for %s %s -> client %d", slot, verb.c_str(), res.substr(0, 100).c_str(), c ? c->id : -1); note((u64)slot << 32 | (c ? c->id : 9999999));
  if (!c) { if (!hostile_present) violate(K_VIEW | K_STALE | K_INTEG, "unknown-request", "handler (slot %d) called with %s \"%s\", which no client sent", slot, show(verb).c_str(), show(res, 120).c_str()); return nullptr; }
  if (c->kind == HOSTILE) {
    if (c->exact && (rq->body_len != c->body.size() || memcmp(rq->full_body, c->body.data(), c->body.size()))) violate(K_VIEW, "wrong-body-seen", "%s: sent %zu body bytes, handler sees %zu others", cdesc(c).c_str(), c->body.size(), rq->body_len);
    return nullptr; }
  std::string D = cdesc(c);
  if (verb != c->verb) violate(K_VIEW | K_ROUTE, "wrong-verb", "%s: handler sees verb \"%s\"", D.c_str(), show(verb).c_str());
  if (res != c->path) violate(K_VIEW, "wrong-path", "%s: handler sees path \"%s\"", D.c_str(), show(res, 200).c_str());
  if (slot == 24) { c->runs404++; if (c->fslot != 24) violate(K_ROUTE, "stray-404", "%s: 404 handler called for a request that route %d matches", D.c_str(), c->slot); }
  else { c->runs++; if (slot != c->slot) violate(K_ROUTE, "wrong-route", "%s: dispatched to route %d, first match is %d", D.c_str(), slot, c->slot); if (c->runs > 1) violate(K_LIFE, "handler-twice", "%s: handler ran %d times", D.c_str(), c->runs);
    for (int k = 0; k <= c->nm && c->nm; k++) if (rq->matches[k].rm_so != c->em[k].rm_so || rq->matches[k].rm_eo != c->em[k].rm_eo) { violate(K_ROUTE, "wrong-captures", "%s: capture %d is [%d,%d), expected [%d,%d)", D.c_str(), k, (int)rq->matches[k].rm_so, (int)rq->matches[k].rm_eo, (int)c->em[k].rm_so, (int)c->em[k].rm_eo); break; } }
  size_t bl = rq->body_len; std::string got = rq->full_body && bl ? std::string((const char*)rq->full_body, bl) : std::string();
  if (bl != c->body.size() || got != c->body) { size_t k = 0; while (k < got.size() && k < c->body.size() && got[k] == c->body[k]) k++; violate(K_VIEW, "wrong-body-seen", "%s: sent %zu body bytes, handler sees %zu (%s, first difference at %zu)", D.c_str(), c->body.size(), bl, rq->full_body ? "buffer set" : "no buffer", k); }
  else if (rq->full_body && rq->full_body[bl] != 0) violate(K_VIEW, "body-not-terminated", "%s: request body is not followed by a NUL byte", D.c_str());
  if (cur) c->f0 = cur->faults;
  return slot == 24 ? &c->pl404 : &c->pl;
}
void* h_anon_token(void) { static int n; return strdup(("anon" + std::to_string(n++)).c_str()); }
static Client* of(struct plan* p) { for (auto& c : clients) if (&c->pl == p || &c->pl404 == p) return c.get(); return nullptr; }
void h_header_value(struct plan* p, int i, const char* v) {
  Client* c = of(p); auto& e = c->qe[i]; count(C_MODEL_CHECKS);
  if ((v != nullptr) != e.first || (v && e.second != v)) violate(K_VIEW, "wrong-header-value", "%s: header '%s' was %s%s%s, handler gets %s%s%s", cdesc(c).c_str(), p->q[i], e.first ? "sent as '" : "not sent", e.first ? show(e.second).c_str() : "", e.first ? "'" : "", v ? "'" : "nothing", v ? show(v).c_str() : "", v ? "'" : "");
}
void h_cookie_value(struct plan* p, int i, const char* v) {
  Client* c = of(p); auto& e = c->ce[i]; count(C_MODEL_CHECKS);
  if ((v != nullptr) != e.first || (v && e.second != v)) violate(K_VIEW, "wrong-cookie", "%s: cookie '%s' in '%s' looked up as %s%s%s", cdesc(c).c_str(), p->ck[i], show(p->cookie, 200).c_str(), v ? "'" : "nothing", v ? show(v).c_str() : "", v ? "'" : "");
}
void h_form_value(struct plan* p, int i, const char* v, size_t n) {
  Client* c = of(p); auto& e = c->fe[i]; count(C_MODEL_CHECKS); std::string got = v && n ? std::string(v, n) : "";
  if (!e.first) { if (v) violate(K_VIEW, "wrong-form-value", "%s: form field '%s' was not sent, handler gets '%s' (%zu bytes)", cdesc(c).c_str(), show(p->fk[i]).c_str(), show(got).c_str(), n); return; }
  if ((!v && !e.second.empty()) || got != e.second) violate(K_VIEW, "wrong-form-value", "%s: form field '%s' was sent as '%s' (%zu bytes), handler gets %s%s%s (%zu bytes)", cdesc(c).c_str(), show(p->fk[i]).c_str(), show(e.second).c_str(), e.second.size(), v ? "'" : "nothing", show(got).c_str(), v ? "'" : "", n);
}
void h_no_form(struct plan* p, int) { Client* c = of(p); violate(K_VIEW, "no-form", "%s: form body was not parsed", cdesc(c).c_str()); }
greshunkel_ctext* h_build_context(struct plan* p) { Client* c = of(p); return build_ctx(tpls[c->tpl].tc.ctx); }
void h_delay(int us) { i64 d = now_ns + (i64)us * 1000; block_until("handler", [] { return false; }, d, -1); }
void h_touch(const void* p, size_t n) { volatile unsigned s = 0; for (size_t i = 0; i < n; i += 512) s += ((const unsigned char*)p)[i]; (void)s; }
void h_produced(struct plan* p, int slot, int status, m38_http_response* rs) {
  Client* c = p ? of(p) : nullptr; active_handlers--; 
  if (c) { if (cur && cur->faults != c->f0) c->filefault = true; c->t_prod = now_ns; }
  if (!(status == 404 && (rs->outsize == 0 || !rs->out))) {
    bool ec = slot == 24 ? (cust404 == 2 || cust404 == 4) : table_[slot].has_cleanup;
    recs.push_back(new Rec{c, slot, status, rs->out, rs->outsize, rs->extra_data, 0, 0, 0, ec, recs.size()}); if (c) { c->prods++; }
    if (c) fair_on_produced(c);
  }
}
void h_cleanup(int slot, int status, m38_http_response* rs, int phase) {
  if (phase) return; count(C_CLEANUP_RUN); Rec* best = nullptr;
  bool by_extra = slot == 24 || (app_slot_kind[slot] != AK_MMAP && app_slot_kind[slot] != AK_RENDER);
  for (auto r : recs) if (r->slot == slot && (by_extra && rs->extra_data ? r->extra == rs->extra_data : r->out == rs->out) && (!best || best->cleaned)) best = r;
  trace("cleanup slot %d status %d -> client %d", slot, status, best && best->c ? best->c->id : -1);
  if (!best && slot == 24 && cust404 == 3) return;      // no handler registered with it: nothing was produced
  if (!best) { violate(K_LIFE | K_LEAK, "stray-cleanup", "cleanup of route slot %d called (status %d) with a response that its handler never produced", slot, status); return; }
  if (best->cleaned++) violate(K_LIFE, "cleanup-twice", "cleanup of route slot %d ran twice for %s", slot, best->c ? cdesc(best->c).c_str() : "a hostile request");
  best->cstatus = status; if (best->out != rs->out || best->outsize != rs->outsize) violate(K_LIFE, "cleanup-wrong-response", "cleanup of route slot %d for %s got out=%p/%zu, handler produced %p/%zu", slot, best->c ? cdesc(best->c).c_str() : "a hostile request", (void*)rs->out, rs->outsize, best->out, best->outsize);
  if (status != best->status && !(status == 206 && best->status == 200)) violate(K_LIFE | K_LEAK, "cleanup-status", "cleanup of route slot %d for %s got status %d, response was produced with %d", slot, best->c ? cdesc(best->c).c_str() : "a hostile request", status, best->status);
  // Error bodies are shared: which of the responses that carry one and wait for their cleanup this is for cannot be told, so it is not held to a byte count.
  int cand = 0; for (auto r : recs) if (r != best && r->slot == slot && !r->cleaned && r->out == best->out && r->extra == best->extra) cand++;
  if (cand) best->tx_at_clean = ~0ull; else if (best->c && best->c->conn) best->tx_at_clean = best->c->conn->total_tx;
}
}
