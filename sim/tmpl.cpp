// Template generator and reference renderer (independent of the code under test).
#include "tmpl.h"
#include <cstring>
#include <algorithm>
#include <cctype>
#include <cstdlib>

namespace sim {
static const char* LOOPW = "xXx LOOP "; static const char* BBL = "xXx BBL xXx"; static const char* ENDL = "xXx ENDLESS xXx";

static const TVal* find(const std::vector<const TCtx*>& scope, const std::string& n) {
  for (size_t i = scope.size(); i-- > 0;) for (auto& e : *scope[i]) if (e.first == n) return &e.second;
  return nullptr;
}
static bool isname(const std::string& s) { if (s.empty()) return false; for (char c : s) if (!isalnum((unsigned char)c) && c != '_') return false; return true; }
static std::string filt(const std::string& f, const std::string* a) {
  if (f == "up") { std::string r = *a; for (auto& c : r) c = toupper((unsigned char)c); return r; }
  if (f == "rev") { std::string r(a->rbegin(), a->rend()); return r; }
  if (f == "konst") return "<K>";
  if (f == "dup") return *a + "/" + *a;
  return "?";
}
// substitutes variables and filters in a piece of text
static std::string interp(std::string s, const std::vector<const TCtx*>& scope) {
  std::string o; size_t i = 0;
  while (i < s.size()) {               // variables, left to right
    if (s.compare(i, 5, "xXx @") == 0) {
      size_t e = s.find(" xXx", i + 5);
      if (e != std::string::npos) {
        std::string n = s.substr(i + 5, e - i - 5); size_t d = n.find('.');
        if (d == std::string::npos && isname(n)) { auto v = find(scope, n); o += v ? v->s : "!"; i = e + 4; continue; }
        if (d != std::string::npos && isname(n.substr(0, d)) && isname(n.substr(d + 1))) {
          auto v = find(scope, n.substr(0, d)); if (v) for (auto& q : v->sub) if (q.first == n.substr(d + 1)) { o += q.second.s; break; }
          i = e + 4; continue; }
      }
    }
    o += s[i++];
  }
  s.swap(o); o.clear(); i = 0;
  while (i < s.size()) {
    if (s.compare(i, 4, "XxX ") == 0) {
      size_t j = i + 4, k = j; while (k < s.size() && (isalnum((unsigned char)s[k]) || s[k] == '_')) k++;
      if (k > j && k < s.size()) {
        std::string f = s.substr(j, k - j);
        if (s.compare(k, 4, " XxX") == 0) { o += filt(f, nullptr); i = k + 4; continue; }
        size_t a = k; while (a < s.size() && isspace((unsigned char)s[a])) a++;
        size_t e = s.find(" XxX", i);
        if (e != std::string::npos && a > k) { std::string arg = e >= a ? s.substr(a, e - a) : ""; o += filt(f, &arg); i = e + 4; continue; }
      }
    }
    o += s[i++];
  }
  return o;
}
static u64 work;     // bytes the renderer has to look at, about
void ref_render(const std::string& t, const std::vector<const TCtx*>& scope, const std::map<std::string, std::string>& inc, std::string& full, size_t& outsize) {
  full.clear(); size_t pos = 0; work += 2000 + t.size() * (1 + std::count(t.begin(), t.end(), '\n')); bool last_plain_unterminated = false;
  while (pos < t.size()) {
    last_plain_unterminated = false;
    size_t w = pos; while (w < t.size() && isspace((unsigned char)t[w])) w++;
    if (t.compare(w, 9, LOOPW) == 0) {
      size_t e = t.find(" xXx", w + 9), b = t.find(BBL, w);
      if (e != std::string::npos && b != std::string::npos) {
        std::string head = t.substr(w + 9, e - w - 9); size_t sp = head.find(' '); std::string var = head.substr(0, sp), arr = head.substr(sp + 1);
        std::string body = t.substr(e + 4, b - e - 4); const TVal* v = find(scope, arr);
        if (v) for (auto& el : v->arr) { TCtx c; c.push_back({var, el}); auto sc = scope; sc.push_back(&c); std::string f; size_t n; ref_render(body, sc, inc, f, n); full.append(f, 0, n); }
        pos = b + strlen(BBL); continue;
      }
    }
    if (t.compare(w, 11, "xXx UNLESS ") == 0) {
      size_t p = w + 11; bool neg = t.compare(p, 4, "NOT ") == 0; if (neg) p += 4;
      size_t e = t.find(" xXx", p), b = t.find(ENDL, p);
      if (e != std::string::npos && b != std::string::npos && t[p] == '@') {
        std::string n = t.substr(p + 1, e - p - 1); std::string body = t.substr(e + 4, b - e - 4); const TVal* v = find(scope, n);
        bool truth = v && (v->t == TVal::STR ? v->s.compare(0, 5, "FALSE") != 0 : v->t == TVal::ARR ? !v->arr.empty() : true);
        size_t dot = n.find('.');
        if (dot != std::string::npos) {   // an item of a sub-context: pinned by the repository's tests as the other way round
          auto sv = find(scope, n.substr(0, dot)); const TVal* it = nullptr;
          if (sv && sv->t == TVal::SUB) for (auto& q : sv->sub) if (q.first == n.substr(dot + 1)) it = &q.second;
          bool fals = it && it->s.compare(0, 5, "FALSE") == 0; truth = neg ? fals : !(it && !fals);
        }
        if (neg && truth) { std::string f; size_t m; ref_render(body, scope, inc, f, m); full.append(f, 0, m); }
        if (!neg && !truth) full += interp(body, scope);
        pos = b + strlen(ENDL); continue;
      }
    }
    size_t nl = t.find_first_of("\n\r", pos); size_t end = nl == std::string::npos ? t.size() : nl + 1;
    std::string ln = t.substr(pos, end - pos);
    size_t lw = 0; while (lw < ln.size() && isspace((unsigned char)ln[lw])) lw++;
    if (ln.compare(lw, 11, "xXx SCREAM ") == 0) {
      size_t e = ln.find(" xXx", lw + 11); std::string f; size_t m = 0;
      auto it = inc.find(ln.substr(lw + 11, e - lw - 11)); if (it != inc.end()) ref_render(it->second, scope, inc, f, m);
      full.append(f, 0, m);
    } else { full += interp(ln, scope); last_plain_unterminated = nl == std::string::npos; }
    pos = end;
  }
  outsize = full.size();
  if (!last_plain_unterminated && !full.empty() && (full.back() == '\n' || full.back() == '\r')) outsize--;
}

// ---- generation
struct G {
  u32 st; std::string incdir; bool allow_inc; TCase* tc; int depth = 0; bool small = false;
  u32 d(u32 n) { return draw(st, n); }
  std::string word() { static const char* w[] = {"lorem", "a", "<p>", "</b>", "x", "X", "xX", "3.14", "@at", "$1\\2", "[.*]", "(", "\xc3\xa9", "Xxx", "BBLx", "&amp;", "%s%n", "--", "c\r", "\xff\x80", "\\n"}; return w[d(21)]; }
  std::string text() { std::string s; int n = d(5); for (int i = 0; i < n; i++) { if (i) s += ' '; s += word(); } return s; }
};
struct Names { std::vector<std::string> str, arr, arrsub, sub, loopstr, loopsub, cond; };

static std::string inl(G& g, const Names& n, bool filters) {
  std::string s; int k = 1 + g.d(4);
  for (int i = 0; i < k; i++) {
    switch (g.d(4)) {
      case 0: s += g.text(); break;
      case 1: { auto& l = n.str; if (!l.empty()) { s += "xXx @" + l[g.d(l.size())] + " xXx"; } break; }
      case 2: { if (!n.loopstr.empty() && g.d(2)) { s += "xXx @" + n.loopstr[g.d(n.loopstr.size())] + " xXx"; break; }
                if (!n.loopsub.empty()) { s += "xXx @" + n.loopsub[g.d(n.loopsub.size())] + (g.d(2) ? ".name xXx" : ".other xXx"); break; }
                if (!n.sub.empty()) s += "xXx @" + n.sub[g.d(n.sub.size())] + (g.d(2) ? ".name xXx" : ".other xXx"); break; }
      case 3: if (filters && g.d(2)) { static const char* f[] = {"up", "rev", "dup"}; std::string a = g.d(2) && !n.str.empty() ? "xXx @" + n.str[g.d(n.str.size())] + " xXx" : "arg" + std::to_string(g.d(100)); if (!n.loopstr.empty() && g.d(2)) a = "xXx @" + n.loopstr[g.d(n.loopstr.size())] + " xXx"; s += g.d(6) == 1 ? std::string("XxX konst XxX") : std::string("XxX ") + f[g.d(3)] + " " + a + " XxX"; g.tc->filt = true; } else s += g.text(); break;
    }
    s += g.d(3) ? " " : "-";
  }
  if (filters && g.d(6) == 1) { s += "XxX konst XxX"; g.tc->filt = true; }
  return s;
}
static std::string indent(G& g) { static const char* w[] = {"", "  ", "\t", "\t\t ", "\n", " \n\n  "}; return w[g.d(6)]; }
static std::string block(G& g, Names n, int items, bool loops_ok, bool conds_ok) {
  std::string s;
  for (int i = 0; i < items; i++) {
    u32 k = g.d(8);
    if (k <= 3) { s += inl(g, n, true); if (g.d(12) == 1) s += std::string(g.d(700), 'L'); s += "\n"; if (g.d(6) == 1) s += "\n"; }
    else if (k == 4 && loops_ok && (!n.arr.empty() || !n.arrsub.empty())) {
      g.tc->loops = true; bool sub = n.arr.empty() || (!n.arrsub.empty() && g.d(2)); Names m = n; static const char* vn[] = {"i", "it", "j", "row_"}; std::string a, v = vn[g.d(4)];
      auto drop = [&](std::vector<std::string>& l) { l.erase(std::remove(l.begin(), l.end(), v), l.end()); }; drop(m.loopstr); drop(m.loopsub); drop(m.cond);
      if (sub) { a = n.arrsub[g.d(n.arrsub.size())]; m.loopsub.push_back(v); } else { a = n.arr[g.d(n.arr.size())]; m.loopstr.push_back(v); bool full = true; for (auto& e : g.tc->ctx) if (e.first == a) for (auto& el : e.second.arr) full &= !el.s.empty(); if (full) { m.cond.push_back(v); m.cond.push_back(v); } }
      s += indent(g) + "xXx LOOP " + v + " " + a + " xXx"; if (g.d(12) == 1) { s += BBL; s += "\n"; continue; } if (g.d(3)) s += "\n"; s += block(g, m, 1 + g.d(3), false, conds_ok); if (g.d(3) == 1) s += g.text(); if (g.d(2)) s += "  "; s += BBL; if (g.d(4)) s += "\n"; else if (g.d(2)) s += " tail\n";
    } else if (k == 5 && conds_ok) {
      g.tc->conds = true; static const char* cn[] = {"truthy", "falsy", "dne", "full_arr", "empty_arr", "asub"}; std::string v = cn[g.d(6)]; if (!n.cond.empty() && g.d(3) == 1) v = n.cond[g.d(n.cond.size())]; if (g.d(3) == 1) { static const char* im[] = {".flag", ".name", ".none"}; v = (!n.loopsub.empty() && g.d(2) ? n.loopsub[g.d(n.loopsub.size())] : n.sub[g.d(n.sub.size())]) + im[g.d(6) ? 0 : 1 + g.d(2)]; }
      bool neg = g.d(2); s += indent(g) + (neg ? "xXx UNLESS NOT @" : "xXx UNLESS @") + v + " xXx"; if (g.d(12) == 1) { s += ENDL; s += "\n"; continue; } if (g.d(4)) s += "\n";
      if (neg) s += block(g, n, 1 + g.d(2), loops_ok, false); else { int q = 1 + g.d(3); for (int z = 0; z < q; z++) { std::string l; int k2 = 1 + g.d(3); for (int y = 0; y < k2; y++) { if (g.d(2) && !n.str.empty()) l += "xXx @" + n.str[g.d(n.str.size())] + " xXx "; else l += g.text(); } s += l + "\n"; } }
      s += ENDL; if (g.d(4)) s += "\n";
    } else if (k == 6 && g.allow_inc && g.depth < 4) {
      g.tc->incl = true; static const char* in[] = {"a", "b", "c", "d"}; int q = g.d(4); std::string name = g.incdir + in[q]; for (int z = 0; z < g.depth; z++) name += "_in"; for (auto& l : n.loopstr) name += "_s" + l; for (auto& l : n.loopsub) name += "_o" + l;
      if (!g.tc->includes.count(name)) { g.tc->includes[name] = ""; G h = g; h.depth++; std::string body; u32 sz = g.d(7);
        if (sz == 1) body = ""; else { body = block(h, n, 1 + g.d(4), true, true);   // a text of its own: what may not stand inside another loop may stand here
          if (sz == 2) body += std::string(1500 + g.d(1200), 'i') + "\n" + inl(g, n, false); else if (sz == 3) { while (body.size() < 2046) body += std::string(std::min<size_t>(2046 - body.size(), 60), 'j') + "\n"; body += std::string(g.d(4), 'k'); } else if (sz == 6 && !g.small && g.d(2)) { static const u32 big[] = {4096, 8192, 16384, 32768, 65536}; size_t to = g.d(3) ? big[g.d(5)] - 2 + g.d(4) : 3000 + draw_skew(g.st, 90000); u32 wl = 60 + g.d(900); while (body.size() + wl + 1 < to) body += std::string(wl, 'b') + "\n"; if (body.size() < to) body += std::string(to - body.size(), 'e'); } else if (sz == 4 && !body.empty() && body.back() == '\n') body.pop_back(); }
        g.tc->includes[name] = body; }
      s += indent(g) + "xXx SCREAM " + name + " xXx\n";
    } else s += g.text() + "\n";
  }
  return s;
}
static std::string val(G& g) {
  if (g.d(4) == 1) { static const long iv[] = {0, -1, 1, 9, 10, 99, 100, -100, 65535, 65536, 1000000007L, 2147483647L, -2147483647L - 1, -2147483647L}; u32 q = g.d(20); return std::to_string(q < 14 ? iv[q] : (long)(int)(g.d(65536) * 65536u + g.d(65536)) >> g.d(31)); }   // build_ctx hands whole numbers over as integers
  u32 k = g.d(8); if (k == 1) return std::string(g.d(3) ? g.d(513) : 512, 'v'); if (k == 2) { static const char* odd[] = {"a b\tc", "two\nlines", "cr\r\nlf", "\n", "100%", "\\1 & \\0", "<a href=\"x\">", "\xf0\x9f\x90\x9b", " "}; return odd[g.d(9)]; } std::string s = "v" + std::to_string(g.d(1000)); if (k == 4) { static const char* tf[] = {"FALSE", "TRUE", "FALSEHOOD", "FALS", "false", "FALSE "}; s = tf[g.d(6)]; } if (k == 3) s += g.word() == "xXx" ? "w" : "z"; return s; }

static TCase gen_once(u32 st, const std::string& incdir, bool inc, int size, bool small) {
  TCase t; G g{st, incdir, inc, &t}; g.small = small; Names n;
  auto S = [](std::string s) { TVal v; v.s = s; return v; };
  // names which are prefixes of one another, in any order of definition
  std::vector<std::string> pool = {"a", "ab", "abc", "long_name_with_31_characters_ab", "long_name_with_31_characters_abc", "N4", "x_1", "x_12", "i2"}; for (auto& k : pool) if (k.size() > 31) k.resize(31);
  int ns = 1 + g.d(6); for (int i = 0; i < ns; i++) { std::string k = pool[g.d(pool.size())]; bool dup = false; for (auto& e : n.str) dup |= e == k; if (dup) continue; t.ctx.push_back({k, S(val(g))}); n.str.push_back(k); if (k.find_first_of("0123456789") == std::string::npos && !t.ctx.back().second.s.empty()) n.cond.push_back(k); }
  if (std::find(n.str.begin(), n.str.end(), "a") == n.str.end()) { t.ctx.push_back({"a", S(val(g))}); n.str.push_back("a"); }
  if (g.d(4) == 1) t.ctx.push_back({"a", S("shadowed")});          // first definition wins
  if (g.d(5) == 1) { int pad = 1 + g.d(g.d(3) ? 60 : 400), at = g.d(t.ctx.size() + 1); TCtx p; for (int i = 0; i < pad; i++) p.push_back({"pad" + std::to_string(i), S("p" + std::to_string(i))}); t.ctx.insert(t.ctx.begin() + at, p.begin(), p.end()); n.str.push_back("pad" + std::to_string(g.d(pad))); n.str.push_back("pad" + std::to_string(pad - 1)); }   // a context of many values
  t.ctx.push_back({"truthy", S("TRUE")}); t.ctx.push_back({"falsy", S("FALSE")});
  auto mksub = [&] { TVal v; v.t = TVal::SUB; v.sub.push_back({"name", S(val(g))}); v.sub.push_back({"other", S(std::to_string(g.d(1000)))}); if (g.d(3) == 1) { v.sub.insert(v.sub.begin() + g.d(3), {g.d(2) ? "na" : "names", S("N" + std::to_string(g.d(100)))}); v.sub.insert(v.sub.begin() + g.d(4), {g.d(2) ? "fl" : "flags", S(g.d(2) ? "TRUE" : "FALSE")}); } static const char* fl[] = {"TRUE", "FALSE", "x", "FALSEHOOD", "false"}; v.sub.insert(v.sub.begin() + g.d(v.sub.size() + 1), {"flag", S(fl[g.d(5)])}); for (auto& q : v.sub) if (q.second.s.empty()) q.second.s = "n"; return v; };
  t.ctx.push_back({"asub", mksub()}); n.sub.push_back("asub");
  if (g.d(2)) for (int i = 1 + g.d(3); i > 0; i--) { static const char* sn[] = {"as", "asub_two", "s", "sub_with_a_name_of_many_letters", "zsub"}; std::string k = sn[g.d(5)]; k.resize(std::min<size_t>(k.size(), 31)); if (std::find(n.sub.begin(), n.sub.end(), k) != n.sub.end()) continue; t.ctx.insert(t.ctx.begin() + g.d(t.ctx.size() + 1), {k, mksub()}); n.sub.push_back(k); }      // contexts whose names begin alike
  { TVal v; v.t = TVal::ARR; int c = 1 + g.d(g.d(6) == 1 && !g.small ? g.d(4) == 1 ? 300 : 40 : 4); for (int i = 0; i < c; i++) v.arr.push_back(S(val(g))); t.ctx.push_back({"full_arr", v}); n.arr.push_back("full_arr"); }
  { TVal v; v.t = TVal::ARR; t.ctx.push_back({"empty_arr", v}); n.arr.push_back("empty_arr"); }
  { TVal v; v.t = TVal::ARR; int c = g.d(4); for (int i = 0; i < c; i++) v.arr.push_back(mksub()); t.ctx.push_back({"subs", v}); n.arrsub.push_back("subs"); }
  t.tmpl = block(g, n, size ? 1 + g.d(size) : 0, true, true);
  u32 k = g.d(8); if (k == 1 && !t.tmpl.empty() && t.tmpl.back() == '\n') t.tmpl.pop_back(); if (k == 2) t.tmpl = ""; if (k == 3) t.tmpl += "tail without newline xXx @a xXx";
  if (k == 4) { t.tmpl += "xXx LOOP i full_arr xXx[xXx @i xXx]xXx BBL xXx"; }
  if (k == 5) { t.tmpl += "xXx UNLESS NOT @truthy xXx yes xXx ENDLESS xXx"; }
  if (k >= 6) { size_t pages = 1 + g.d(3); int dl = k == 6 ? (int)g.d(2) : 2 + (int)g.d(60); if (g.d(2)) dl = -dl; size_t to = pages * 4096 - 1 + dl; if (t.tmpl.size() < to) t.tmpl += std::string(to - t.tmpl.size(), 'P') + "\n"; }   // the template is about a whole number of pages long
  if (g.d(10) == 1) { std::string o; for (char ch : t.tmpl) { if (ch == '\n') o += '\r'; o += ch; } t.tmpl.swap(o); }      // lines ending the other way
  work = 0; std::vector<const TCtx*> sc{&t.ctx}; ref_render(t.tmpl, sc, t.includes, t.full, t.outsize); t.out = t.full.substr(0, t.outsize);
  return t;
}
TCase gen_tcase(u32 st, const std::string& incdir, bool inc, int size) {
  for (int i = 0;; i++) { TCase t = gen_once(st, incdir, inc, i > 3 ? 1 : size, i > 0); if (work < 20000000 || i > 6) { trace("template: about %llu bytes of work", (unsigned long long)work); return t; } }      // big loops over big texts: again, smaller
}
extern "C" {
void* sim_malloc(size_t); char* sim_strdup(const char*);
static char* f_up(const char* a) { char* r = sim_strdup(a); for (char* p = r; *p; p++) *p = toupper((unsigned char)*p); return r; }
static char* f_rev(const char* a) { size_t n = strlen(a); char* r = (char*)sim_malloc(n + 1); for (size_t i = 0; i < n; i++) r[i] = a[n - 1 - i]; r[n] = 0; return r; }
static char* f_dup(const char* a) { size_t n = strlen(a); char* r = (char*)sim_malloc(2 * n + 2); memcpy(r, a, n); r[n] = '/'; memcpy(r + n + 1, a, n); r[2 * n + 1] = 0; return r; }
static char* f_konst(const char* a) { return (char*)(a ? "<ARG>" : "<K>"); }
}
// Half of the whole numbers go in as integers; half of the values at the limit are handed over longer than it (the rest is cut off).
static bool odd(const std::string& s) { unsigned n = 0; for (unsigned char c : s) n += c; return n & 1; }
static bool whole(const std::string& s, int& v) { if (s.empty() || s.size() > 11) return false; char* e; long l = strtol(s.c_str(), &e, 10); if (*e || l < -2147483647L - 1 || l > 2147483647L || std::to_string(l) != s) return false; v = (int)l; return true; }
static std::string over(const std::string& s) { return s.size() == MAX_GSHKL_STR_SIZE ? s + "cut off" + std::string(s.size(), 'c') : s; }
static void add_str(greshunkel_ctext* x, const std::string& k, const std::string& s) { int v; if (odd(s) && whole(s, v)) gshkl_add_int(x, k.c_str(), v); else gshkl_add_string(x, k.c_str(), over(s).c_str()); }
static void add_el(greshunkel_var* a, const std::string& s) { int v; if (odd(s) && whole(s, v)) gshkl_add_int_to_loop(a, v); else gshkl_add_string_to_loop(a, over(s).c_str()); }
greshunkel_ctext* build_ctx(const TCtx& c) {
  greshunkel_ctext* x = gshkl_init_context();
  gshkl_add_filter(x, "up", f_up, gshkl_filter_cleanup); gshkl_add_filter(x, "rev", f_rev, gshkl_filter_cleanup); gshkl_add_filter(x, "dup", f_dup, gshkl_filter_cleanup); gshkl_add_filter(x, "konst", f_konst, nullptr);
  auto mk = [](const TVal& v) { greshunkel_ctext* s = gshkl_init_context(); for (auto& q : v.sub) add_str(s, q.first, q.second.s); return s; };
  for (auto& e : c) {
    const TVal& v = e.second;
    if (v.t == TVal::STR) add_str(x, e.first, v.s);
    else if (v.t == TVal::SUB) gshkl_add_sub_context(x, e.first.c_str(), mk(v));
    else { greshunkel_var a = gshkl_add_array(x, e.first.c_str()); for (auto& el : v.arr) { if (el.t == TVal::SUB) gshkl_add_sub_context_to_loop(&a, mk(el)); else add_el(&a, el.s); } }
  }
  return x;
}
}  // namespace sim
