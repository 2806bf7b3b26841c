// C18: containers against executable models under allocation failure.
#include "world.h"
#include <array>
#include <algorithm>
#include <cstring>
#include <cstdlib>

extern "C" void sim_free(void*);
namespace sim {
static u64 stamp;
static std::string bytes(u32 n, u32 tag) { std::string s(n, 0); u64 x = (u64)tag * 0x9E3779B97F4A7C15ull + 99; for (auto& c : s) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = (char)x; } return s; }
static std::string show(const std::string& s) { std::string o; for (size_t i = 0; i < s.size() && i < 24; i++) { char b[8]; snprintf(b, sizeof b, "%02x", (unsigned char)s[i]); o += b; } if (s.size() > 24) o += ".."; return o + "/" + std::to_string(s.size()); }
#define BAD(kind, ...) violate(K_CONT, kind, __VA_ARGS__)
struct Exact { char* p; explicit Exact(const std::string& s) { p = (char*)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); } ~Exact() { free(p); } };   // no byte beyond its end may be read
static inline void arm() { cur->faults0 = cur->faults; count(C_OPS); }
static inline bool hit() { return cur->faults != cur->faults0; }

static bool big(u32 st) { return draw(st, 12) == 1 && (fc.malloc_fail == 0 || fc.malloc_fail > 200); }      // many operations: only where a failure, after which everything is checked, is rare
static void vec_world(u32 st) {
  static const u32 is[] = {8, 1, 4, 24, 100, 16, 552, 3, 7}; static const u32 ic[] = {1, 2, 3, 8, 16, 0, 32};
  u32 isz = is[draw(st, 9)], n0 = ic[draw(st, 7)]; 
  for (int tries = 0; ; tries++) {
    arm(); vector* v = vector_new(isz, n0); bool f = hit();
    if (!v) { if (!f) BAD("new-fails", "vector_new(%u, %u) failed though no allocation failed", isz, n0); if (tries > 20) return; continue; }
    if (v->count != 0) BAD("new-nonempty", "vector_new gives %zu elements", v->count);
    std::vector<std::string> m; std::vector<u32> part;      // expected bytes of each element
    int nops = draw(st, 3) == 0 ? draw(st, 20) : draw(st, 300); if (big(st)) nops = 300 + draw(st, 2500);
    auto check = [&](size_t i, const char* after) {
      const char* p = (const char*)vector_get(v, i); count(C_MODEL_CHECKS);
      if (!p) { BAD("lost-element", "vector (items of %u bytes): element %zu of %zu is NULL after %s", isz, i, m.size(), after); return; }
      if (memcmp(p, m[i].data(), m[i].size())) BAD("wrong-element", "vector (items of %u bytes): element %zu of %zu is %s, stored %s (after %s)", isz, i, m.size(), show(std::string(p, m[i].size())).c_str(), show(m[i]).c_str(), after); };
    bool whole = true;       // vector_reverse moves whole items; bytes past a short item are unspecified
    for (int k = 0; k < nops; k++) {
      const char* name = "nothing"; bool all = false; int r = 1; arm();
      switch (draw(st, 8)) {
        case 0: continue;
        case 1: case 2: case 3: case 4: { name = "vector_append"; std::string val = bytes(isz, ++stamp); Exact e(val); r = vector_append(v, e.p, isz); if (r) m.push_back(val); break; }
        case 5: { name = "short vector_append"; u32 n = 1 + draw(st, isz); std::string val = bytes(n, ++stamp); Exact e(val); r = vector_append(v, e.p, n); if (n < isz) { whole = false; val += '\0'; } if (r) m.push_back(val); break; }
        case 6: if (isz != 8) { arm(); name = "oversized vector_append"; std::string val = bytes(isz + 1, ++stamp); Exact e(val); if (vector_append(v, e.p, isz + 1)) BAD("oversized-accepted", "vector_append accepted %u bytes into items of %u", isz + 1, isz); r = 1; arm(); }
          else { name = "vector_append_ptr"; void* p = (void*)(uintptr_t)(0x1000 + ++stamp); r = vector_append_ptr(v, p); if (r) m.push_back(std::string((char*)&p, 8)); } break;
        case 7: if (!whole || draw(st, 3) == 1) { static const char one = 1; u32 how = draw(st, 3); name = how == 0 ? "empty vector_append" : how == 1 ? "vector_append without an item" : "vector_append of no bytes"; r = vector_append(v, how == 2 ? &one : nullptr, how == 1 ? isz : 0); if (r) m.push_back(std::string(isz, 0)); break; }
          name = "vector_reverse"; r = vector_reverse(v); if (r) m = std::vector<std::string>(m.rbegin(), m.rend()); all = true; break;
      }
      if (!r && !hit()) BAD("spurious-failure", "%s failed on a vector of %zu items though no allocation failed", name, m.size());
      if (!r) all = true;
      if (v->count != m.size()) { BAD("wrong-count", "vector holds %zu elements after %s, %zu were stored", v->count, name, m.size()); break; }
      if (all) for (size_t i = 0; i < m.size(); i++) check(i, name); else if (m.size()) { check(m.size() - 1, name); check(stamp % m.size(), name); }
      { size_t b = m.size() + stamp % 40; const volatile char* p = (const char*)vector_get(v, b); if (p) for (u32 z = 0; z < isz; z++) (void)p[z]; }     // beyond the end: NULL or memory of the vector
      yield_now();
    }
    for (size_t i = 0; i < m.size(); i++) check(i, "all operations");
    vector_free(v); return;
  }
}
static void arr_world(u32 st) {
  static const u32 es[] = {8, 4, 1, 48, 100, 3}; static const u32 mx[] = {48, 1, 10, 47, 49, 96, 97, 144, 300, 1000, 4096, 66000};
  u32 esz = es[draw(st, 6)], max = mx[draw(st, 12)];
  for (int tries = 0; tries < 20; tries++) {
    arm(); sparse_array* a = sparse_array_init(esz, max); if (!a) { if (!hit()) BAD("new-fails", "sparse_array_init failed though no allocation failed"); continue; }
    std::map<u32, std::string> m;
    auto check = [&](u32 i, const char* w) { size_t n = 0x5a5a5a5a5a5a5a5aull; const char* p = (const char*)sparse_array_get(a, i, &n); if (!p) n = 0; count(C_MODEL_CHECKS); auto it = m.find(i);
      if (it == m.end() || it->second.empty()) { if (p && n) BAD("phantom-element", "sparse array: index %u was never set but holds %s (%s)", i, show(std::string(p, std::min<size_t>(n, esz))).c_str(), w); return; }
      if (!p || n != it->second.size() || memcmp(p, it->second.data(), n)) BAD("wrong-element", "sparse array (max %u, elements of %u): index %u holds %s, stored %s (after %s)", max, esz, i, p ? show(std::string(p, std::min<size_t>(n, esz))).c_str() : "nothing", show(it->second).c_str(), w); };
    int nops = draw(st, 3) == 0 ? draw(st, 20) : draw(st, 250); if (big(st)) nops = 300 + draw(st, 2000);
    for (int k = 0; k < nops; k++) {
      u32 op = draw(st, 6); if (!op) continue;
      u32 i = draw(st, 4) == 0 ? draw(st, max + 2) : draw(st, max); if (draw(st, 20) == 1) i = max + draw(st, 60);
      if (op <= 4) { u32 n = draw(st, 3) ? esz : 1 + draw(st, esz); if (draw(st, 15) == 1) n = esz + 1; std::string val = bytes(n, ++stamp); Exact e(val); arm(); int r = sparse_array_set(a, i, e.p, n);
        if (i > max || n > esz) { if (r) BAD("bad-set-accepted", "sparse_array_set(index %u of %u, %u bytes of %u) succeeded", i, max, n, esz); }
        else if (i == max) { if (r) m[i] = val; }
        else { if (r) m[i] = val; else if (!hit()) BAD("spurious-failure", "sparse_array_set(%u) failed though no allocation failed", i); 
          if (!r) { size_t q = 0; const char* p = (const char*)sparse_array_get(a, i, &q); if (p && q == n && !memcmp(p, val.data(), n)) m[i] = val; for (auto& x : m) check(x.first, "a failed set"); } }
        if (i <= max) check(i, "set"); }
      else check(i, "get");
      if (m.size()) { auto it = m.begin(); std::advance(it, stamp % m.size()); check(it->first, "operation on another index"); }
      yield_now();
    }
    for (u32 i = 0; i < max; i++) check(i, "all operations");
    sparse_array_free(a); return;
  }
}
static void dict_world(u32 st) {
  for (int tries = 0; tries < 20; tries++) {
    arm(); sparse_dict* d = sparse_dict_init(); if (!d) { if (!hit()) BAD("new-fails", "sparse_dict_init failed though no allocation failed"); continue; }
    std::map<std::string, std::string> m; std::vector<std::string> keys; u32 style = draw(st, 5);
    auto newkey = [&]() { u32 k = keys.size(); std::string s;
      switch (style) { case 0: s = "k" + std::to_string(k); break; case 1: s = std::string(1 + k, 'a'); if (s.size() > 700) s = std::to_string(k); break; case 2: s = std::to_string(k) + std::string(draw_skew(st, 600), 'q'); break;
        case 3: s = std::string(250 + draw(st, 12), 'c') + std::to_string(k); break; default: { s = bytes(1 + draw(st, 12), k + 17); for (auto& c : s) if (!c) c = 1; s += std::to_string(k); } }
      keys.push_back(s); return s; };
    auto check = [&](const std::string& k, const char* w) { size_t n = 0x5a5a5a5a5a5a5a5aull; Exact e(k); const char* p = (const char*)sparse_dict_get(d, e.p, k.size(), &n); count(C_MODEL_CHECKS); auto it = m.find(k);
      if (it == m.end()) { if (p) BAD("phantom-key", "dictionary of %zu: key %s was never stored but is found (%s)", m.size(), show(k).c_str(), w); return; }
      if (!p && it->second.empty()) return;
      if (!p) { BAD("lost-key", "dictionary of %zu: key %s is lost (after %s)", m.size(), show(k).c_str(), w); return; }
      if (n != it->second.size() || memcmp(p, it->second.data(), n)) BAD("wrong-value", "dictionary of %zu: key %s gives %zu bytes %s, stored %s (after %s)", m.size(), show(k).c_str(), n, n < 6000 ? show(std::string(p, std::min(n, it->second.size()))).c_str() : "", show(it->second).c_str(), w); };
    u32 nk = draw(st, 3); int nops = nk == 0 ? draw(st, 30) : nk == 1 ? draw(st, 120) : draw(st, 500); if (big(st)) nops = 500 + draw(st, draw(st, 4) ? 1200 : 3500);
    for (int k = 0; k < nops; k++) {
      u32 op = draw(st, 6); if (!op) continue; std::string key;
      if (op == 1 && keys.size()) key = keys[draw(st, keys.size())]; else if (op == 5) key = keys.size() && draw(st, 2) ? keys[draw(st, keys.size())] : "absent" + std::to_string(k); else key = newkey();
      if (op == 5) { check(key, "get"); continue; }
      u32 n = draw(st, 3) ? draw(st, 20) : draw_skew(st, 4000); std::string val = bytes(n, ++stamp);
      { Exact e(key), f(val); arm(); int r = sparse_dict_set(d, e.p, key.size(), f.p, n);
        if (r) m[key] = val; else {
          if (!hit()) BAD("spurious-failure", "sparse_dict_set failed on a dictionary of %zu though no allocation failed", m.size());
          size_t q = 0; const char* p = (const char*)sparse_dict_get(d, e.p, key.size(), &q); if (p && q == n && !memcmp(p, val.data(), n)) m[key] = val;
          check(key, "a failed set of it"); size_t nth = m.size() > 400 ? m.size() / 200 : 1, z = stamp; for (auto& x : m) if (z++ % nth == 0) check(x.first, "a failed set of another key"); } }
      check(key, "set"); if (keys.size()) check(keys[stamp % keys.size()], "set of another key");
      yield_now();
    }
    for (auto& x : keys) check(x, "all operations");
    sparse_dict_free(d); return;
  }
}
static void one(u32 st, int rounds) { for (int i = 0; i < rounds; i++) { switch (draw(st, 3)) { case 0: dict_world(st); break; case 1: vec_world(st); break; default: arr_world(st); } } }

void cont_run() {
  static const u32 md[] = {0, 300, 40, 12, 5}; fc.malloc_fail = md[draw(S_CFG, 5)]; faults_on = true;
  i64 live0 = alloc.live; int nf = 1 + draw(S_CFG, 2), rounds = 1 + draw(S_CFG, 3); int done = 0;
  sched = SchedCfg(); sched.strategy = 0; sched.p_den = 4; static const u32 gp[] = {0, 2000, 200}; sched.gap = gp[draw(S_CFG, 3)]; sched_reset(); preempt_on = true;
  for (int i = 0; i < nf; i++) { u32 st = i ? S_OPS2 : S_OPS; spawn(i ? "user1" : "user0", [st, rounds, &done] { one(st, rounds); done++; }); }
  run(nullptr); faults_on = false;
  if (done != nf) violate(K_LIVE, "stuck", "container operations did not finish: %s", fibers_state().c_str());
  if (alloc.live != live0) BAD("leak", "%lld allocations of freed containers are still live: %s", (long long)(alloc.live - live0), live_alloc_summary(0).c_str());
  snprintf(R->sample, sizeof R->sample, "%d users, %u operations on vectors, sparse arrays and dictionaries, allocation failure 1/%u (%u fired)", nf, R->ctr[C_OPS], fc.malloc_fail, R->ctr[C_MALLOC_FAIL]);
  R->nthreads = nf; R->nontrivial = R->ctr[C_OPS] > 10; finish_run(V_OK);
}

// ------------------------------------------------------------------ C15
void tmpl_run() {
  int nt = 1 + draw(S_CFG, 2); struct T { TCase tc; greshunkel_ctext* ctx; char* buf; size_t n; }; std::vector<T> ts;
  for (int i = 0; i < nt; i++) { T t; static const int szs[] = {4, 1, 10, 25}; t.tc = gen_tcase(S_TMPL, "/inc/" + std::string(1, (char)('a' + i)) + "/", true, szs[draw(S_CFG, 4)]); for (auto& e : t.tc.includes) vfs.put(e.first, std::vector<char>(e.second.begin(), e.second.end())); ts.push_back(t); }
  i64 live0 = alloc.live, rx0 = alloc.regex; int fd0 = K.nopen();
  // where the template lies: exact-size block followed by nothing readable, or NUL-terminated, or in the middle of other text
  u32 place = draw(S_CFG, 3);
  for (auto& t : ts) { t.n = t.tc.tmpl.size(); std::string full = t.tc.tmpl; if (place == 1) full += '\0'; if (place == 2) { full += "\nxXx @a xXx trailing BBL xXx ENDLESS xXx"; full += '\0'; } t.buf = (char*)malloc(full.size() ? full.size() : 1); memcpy(t.buf, full.data(), full.size()); t.ctx = build_ctx(t.tc.ctx); }
  i64 live1 = alloc.live;
  for (auto& t : ts) { trace("template [%s] expect [%s]", t.tc.tmpl.substr(0, 1000).c_str(), t.tc.out.substr(0, 1000).c_str()); for (auto& e : t.tc.includes) trace("include %s [%s]", e.first.c_str(), e.second.substr(0, 1000).c_str()); }
  int nf = 1 + draw(S_CFG, 4), reps = 1 + draw(S_CFG, 3), done = 0, active = 0, turn = 1; static const u32 rd[] = {0, 3, 1, 12}; fc.read_short = rd[draw(S_CFG, 4)]; faults_on = true;
  sched = SchedCfg(); sched.strategy = side_rng() % 3; static const u32 pd[] = {2, 4, 16}; sched.p_den = pd[side_rng() % 3]; sched.quantum = 1 + side_rng() % 4; static const u32 gp[] = {0, 20000, 2000, 200}; sched.gap = gp[draw(S_CFG, 4)]; static const u32 hd[] = {0, 1, 4}; sched.hot_den = hd[draw(S_CFG, 3)]; sched_reset(); preempt_on = true;
  fd_misuse = [](const char* w, int fd) { violate(K_TMPL | K_FD, "bad-descriptor", "%s(%d) on a descriptor that is not open", w, fd); };
  for (int i = 0; i < nf; i++) spawn(("render" + std::to_string(i)).c_str(), [&, i] { for (int my = 1;; my++) { block_until("turn", [&, my] { return turn >= my; });
    for (int k = 0; k < reps; k++) {
      T& t = ts[(i + k) % ts.size()]; if (active++) count(C_CONC_RENDER);
      size_t n = 0x7777777; char* out = gshkl_render(t.ctx, t.buf, t.n, &n); active--; count(C_MODEL_CHECKS);
      const std::string& e = t.tc.out; size_t d = 0;
      if (!out) { if (!e.empty()) violate(K_TMPL, "no-result", "render of a %zu-byte template returned nothing, expected %zu bytes", t.n, e.size()); else if (n != 0) violate(K_TMPL, "wrong-size", "render of an empty template reports size %zu", n); continue; }
      if (n == e.size()) while (d < n && out[d] == e[d]) d++; else while (d < e.size() && d < n && out[d] && out[d] == e[d]) d++;
      if (n != e.size() || d != n) { auto sh = [](const std::string& s) { std::string o; for (char c : s) if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[6]; snprintf(b, sizeof b, "\\x%02x", (unsigned char)c); o += b; } else o += c; return o; };
        std::string got(out, strnlen(out, std::min<size_t>(n, 1u << 20))); size_t f = d > 30 ? d - 30 : 0;
        violate(K_TMPL, "wrong-text", "render %d by thread %d: got %zu bytes, expected %zu, first difference at %zu: got \"..%s\" expected \"..%s\"; template: %s", k, i, n, e.size(), d, sh(got.size() > f ? got.substr(f, 100) : "").c_str(), sh(e.size() > f ? e.substr(f, 100) : "").c_str(), sh(t.tc.tmpl.substr(0, 900)).c_str()); }
      sim_free(out);
      yield_now();
    } done++; } });
  run(nullptr); faults_on = false;
  if (done != nf) violate(K_LIVE | K_TMPL, "stuck", "rendering did not finish: %s", fibers_state().c_str());
  auto held = [&] { return std::array<i64, 3>{alloc.live, alloc.regex, K.nopen()}; }; auto a = held(), z = a;
  if (a[0] > live1 || a[1] > rx0 || a[2] > fd0) {     // a cache filled on first use is no leak: the same renders again must not add to it
    for (int k = 0; k < 4; k++) { turn++; done = 0; faults_on = true; run(nullptr); faults_on = false; if (k == 0) a = held(); }
    z = held();
    if (z[0] > a[0]) violate(K_LEAK, "memory-leak", "%lld allocations live after all renders, %lld before, and each repetition adds more: %s", (long long)z[0], (long long)live1, live_alloc_summary(0).c_str());
    if (z[1] > a[1]) violate(K_LEAK, "regex-leak", "%lld compiled patterns left after all renders, and each repetition adds more", (long long)(z[1] - rx0));
    if (z[2] > a[2]) violate(K_LEAK, "fd-leak", "%d descriptors open after all renders, %d before, and each repetition adds more", (int)z[2], fd0);
  }
  if (z[2] < fd0) violate(K_LEAK, "fd-lost", "%d descriptors open after all renders, %d before", (int)z[2], fd0);
  for (auto& t : ts) { gshkl_free_context(t.ctx); free(t.buf); }
  i64 rest = alloc.live; if (rest - live0 > std::max<i64>(0, z[0] - live1)) for (auto& t : ts) gshkl_free_context(build_ctx(t.tc.ctx));
  if (alloc.live > rest) violate(K_LEAK, "context-leak", "%lld allocations live after freeing every context", (long long)(alloc.live - live0));
  int ni = 0; bool l = false, c = false, f = false; for (auto& t : ts) { ni += t.tc.includes.size(); l |= t.tc.loops; c |= t.tc.conds; f |= t.tc.filt; }
  snprintf(R->sample, sizeof R->sample, "%d templates (%zu bytes first; loops %d conditionals %d filters %d includes %d), %d threads x %d renders, buffer placement %u, read split 1/%u", nt, ts[0].n, l, c, f, ni, nf, reps, place, fc.read_short);
  R->nthreads = nf; R->nontrivial = ts[0].n > 20; finish_run(V_OK);
}
}  // namespace sim
