// C16: the regex compiler. Generated patterns (from syntax trees and from random text) are compiled and run over generated
// subjects fed in chunks through several match objects; every intermediate result is compared with a set-based reference
// matcher working on the syntax tree.
#include "../src/runner.h"
#include "../src/vfalloc.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <bitset>
#include <map>
#include <memory>
extern "C" {
#include "regexJIT.h"
void sljit_free_unused_memory_exec(void);
}
// ---- allocator: guarded blocks, counting, one refusal
static int g_outst = 0; static long g_fail_at = -1; static uint64_t g_allocs = 0; static std::string g_bad; static std::map<uintptr_t, size_t> *g_maps = nullptr; static bool g_fail_map = false;
extern "C" void *vf_malloc(size_t n) {
  g_allocs++; if (g_fail_at >= 0 && g_fail_at-- == 0) return nullptr;
  uint8_t *p = (uint8_t *)malloc(n + 48); if (!p) return nullptr; memcpy(p, &n, 8); memset(p + 8, 0xc3, 24); memset(p + 32, 0xb7, n); memset(p + 32 + n, 0xc3, 16); g_outst++; return p + 32;
}
extern "C" void vf_free(void *q) {
  if (!q) return; uint8_t *p = (uint8_t *)q - 32; size_t n; memcpy(&n, p, 8); bool ok = n < (1u << 28); for (int i = 8; ok && i < 32; i++) ok = p[i] == 0xc3; for (int i = 0; ok && i < 16; i++) ok = p[32 + n + i] == 0xc3;
  if (!ok) { if (g_bad.empty()) g_bad = "a block was written out of bounds (or freed twice)"; return; } memset(p, 0xd5, n + 48); g_outst--; free(p);
}
extern "C" void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
  if (g_maps && (prot & PROT_EXEC)) { if (g_fail_map) { errno = ENOMEM; return MAP_FAILED; } }
  void *p = (void *)syscall(SYS_mmap, a, n, prot, flags, fd, off); if (g_maps && (prot & PROT_EXEC) && p != MAP_FAILED) (*g_maps)[(uintptr_t)p] = n; return p;
}
extern "C" int munmap(void *a, size_t n) { if (g_maps) g_maps->erase((uintptr_t)a); return (int)syscall(SYS_munmap, a, n); }
namespace {
enum { F_BEGIN = REGEX_MATCH_BEGIN, F_END = REGEX_MATCH_END, F_NL = REGEX_NEWLINE, F_NG = REGEX_MATCH_NON_GREEDY };
typedef std::bitset<256> Set;
struct Node { int k = 0; Set s; int lo = 0, hi = 0; std::vector<Node> v; };   // k: 0 empty 1 char set 2 seq 3 alt 4 repeat {lo,hi} (hi<0: no bound) 5 id(lo)
typedef std::map<int, int> Pos;   // position -> highest id
void put(Pos &m, int p, int id) { auto i = m.find(p); if (i == m.end()) m[p] = id; else if (i->second < id) i->second = id; }
void join(Pos &a, const Pos &b) { for (auto &q : b) put(a, q.first, q.second); }
Pos run(const Node &n, const Pos &in, const std::string &s) {
  switch (n.k) {
    case 1: { Pos o; for (auto &q : in) if (q.first < (int)s.size() && n.s[(uint8_t)s[q.first]]) put(o, q.first + 1, q.second); return o; }
    case 2: { Pos o = in; for (auto &c : n.v) { o = run(c, o, s); if (o.empty()) break; } return o; }
    case 3: { Pos o; for (auto &c : n.v) join(o, run(c, in, s)); return o; }
    case 4: { Pos o = in; for (int i = 0; i < n.lo && !o.empty(); i++) o = run(n.v[0], o, s);
      if (n.hi < 0) { Pos cur = o; while (1) { Pos nx = run(n.v[0], cur, s), all = o; join(all, nx); if (all == o) break; o = all; cur = all; } }
      else { Pos cur = o; for (int i = n.lo; i < n.hi; i++) { cur = run(n.v[0], cur, s); if (cur.empty()) break; join(o, cur); } }
      return o; }
    case 5: { Pos o; for (auto &q : in) put(o, q.first, std::max(q.second, n.lo)); return o; }
    default: return in;
  }
}
bool nl(char c) { return c == '\n' || c == '\r'; }
struct Res { int b, e, id; bool operator==(const Res &o) const { return b == o.b && (b < 0 || (e == o.e && id == o.id)); } };
struct Ref { std::string s; int fl; std::vector<Pos> m;
  Ref(const Node &n, const std::string &s_, int fl_) : s(s_), fl(fl_) { int nb = (fl & F_BEGIN) && !(fl & F_NL) ? 1 : (int)s.size() + 1; for (int b = 0; b < nb; b++) { Pos p; if (!(fl & F_BEGIN) || b == 0 || nl(s[b - 1])) { Pos in; in[b] = 0; p = run(n, in, s); } m.push_back(p); } }
  Res at(int L) const { for (int b = 0; b < (int)m.size() && b <= L; b++) { Res r{-1, 0, 0}; for (auto &q : m[b]) { int e = q.first; if (e > L) break; bool ok = !(fl & F_END) || e == L || ((fl & F_NL) && nl(s[e])); if (!ok) continue; r = {b, e, q.second}; if (fl & F_NG) break; } if (r.b >= 0) return r; } return {-1, 0, 0}; } };
// ---- independent reader of the pattern language
enum { P_OK, P_BAD, P_UNSPEC };
struct Reader { std::string t; size_t i = 0; int fl; int status = P_OK; bool overlong = false; struct Lev { std::vector<std::vector<Node>> alts; bool begin = true; };
  Reader(const std::string &t_, int fl_) : t(t_), fl(fl_) {}
  static Node fold(std::vector<Node> v) { Node n; n.k = 2; n.v = std::move(v); return n; }
  static Node close(Lev &l) { if (l.alts.size() == 1) return fold(std::move(l.alts[0])); Node n; n.k = 3; for (auto &a : l.alts) n.v.push_back(fold(std::move(a))); return n; }
  static void iterate(Lev &l, int lo, int hi) { auto &v = l.alts.back(); size_t j = v.size(); while (j > 0 && v[j - 1].k == 5) j--; j--; std::vector<Node> sub(v.begin() + j, v.end()); v.resize(j); Node r; if (lo == 0 && hi == 0) { v.push_back(r); return; } r.k = 4; r.lo = lo; r.hi = hi; r.v.push_back(fold(std::move(sub))); v.push_back(r); }
  bool num(size_t &j, int &v) { if (j >= t.size() || t[j] < '0' || t[j] > '9') return false; long x = 0; size_t st = j; while (j < t.size() && t[j] >= '0' && t[j] <= '9') { if (x < 1000000000000) x = x * 10 + (t[j] - '0'); j++; } if (j - st > 9) overlong = true; v = x > 999999999 ? 999999999 : (int)x; return true; }
  Node read() { Node none; std::vector<Lev> st(1); st[0].alts.resize(1); if (t.size() && t[0] == '^') { fl |= F_BEGIN; i++; } bool brace = false;   // brace: the last thing at the beginning of a sequence was a literal {
    for (; i < t.size(); i++) { Lev &l = st.back(); char ch = t[i]; auto term = [&](const Set &s) { Node n; n.k = 1; n.s = s; l.alts.back().push_back(n); l.begin = false; };
      auto one = [&](char c) { Set s; s[(uint8_t)c] = 1; term(s); };
      switch (ch) {
        case '\\': if (++i == t.size()) { status = P_BAD; return none; } one(t[i]); break;
        case '.': { Set s; s.set(); if (fl & F_NL) { s['\n'] = 0; s['\r'] = 0; } term(s); break; }
        case '(': { Lev n; n.alts.resize(1); st.push_back(n); brace = false; break; }
        case ')': { if (st.size() == 1) { status = P_BAD; return none; } Node n = close(l); st.pop_back(); st.back().alts.back().push_back(n); st.back().begin = false; break; }
        case '|': l.alts.emplace_back(); l.begin = true; brace = false; break;
        case '*': case '+': case '?': if (l.begin) { status = brace ? P_UNSPEC : P_BAD; return none; } iterate(l, ch == '+' ? 1 : 0, ch == '?' ? 1 : -1); break;
        case '{': { size_t j = i + 1; int a = 0, b = -1; int kind = 0;   // kind 1: iterator 2: id
            if (j < t.size() && t[j] == ',') { j++; if (j < t.size() && t[j] == '}') kind = 1; else if (num(j, b) && j < t.size() && t[j] == '}') kind = 1; }
            else if (num(j, a) && j < t.size()) { if (t[j] == '}') { kind = 1; b = a; } else if (t[j] == '!' && j + 1 < t.size() && t[j + 1] == '}') { kind = 2; j++; } else if (t[j] == ',') { j++; if (j < t.size() && t[j] == '}') kind = 1; else if (num(j, b) && j < t.size() && t[j] == '}' && b >= a) kind = 1; } }
            if (overlong) { status = P_UNSPEC; return none; }
            if (kind == 1 && l.begin && brace) { status = P_UNSPEC; return none; } if (kind == 1 && l.begin) kind = 0;
            if (kind == 2) { Node n; n.k = 5; n.lo = a; l.alts.back().push_back(n); i = j; break; } if (kind == 1) { iterate(l, a, b); i = j; break; }
            bool bg = l.begin; one('{'); if (bg) { l.begin = true; brace = true; } break; }
        case '[': { size_t j = i + 1; bool inv = false; Set s; if (j < t.size() && t[j] == '^') { inv = true; j++; } if (j < t.size() && t[j] == ']') { s[']'] = 1; j++; } bool closed = false;
            while (j < t.size()) { if (t[j] == ']') { closed = true; break; } auto item = [&](uint8_t &o) { if (t[j] == '\\') { if (++j >= t.size()) return false; } o = (uint8_t)t[j++]; return true; }; uint8_t a, b; if (!item(a)) break; if (j + 2 < t.size() && t[j] == '-' && t[j + 1] != ']') { j++; if (!item(b)) break; if (a > b) std::swap(a, b); for (int q = a; q <= b; q++) s[q] = 1; } else s[a] = 1; }
            if (!closed) { status = P_BAD; return none; } if (inv) s.flip(); term(s); i = j; break; }
        default: if (ch == '$' && i + 1 == t.size()) { fl |= F_END; break; } one(ch);
      } }
    if (st.size() != 1) { status = P_BAD; return none; } return close(st[0]); } };
long states(const Node &n) { long s = 1; for (auto &c : n.v) s += states(c); if (n.k == 4) s = 2 + s * std::max(1, n.hi < 0 ? n.lo : n.hi); return std::min(s, 1000000000l); }
// ---- generator of trees, with the text
struct Gen { Choices &c; int fl; bool high; int maxrep; int budget; std::string alpha;
  char ch() { return alpha[c.below(alpha.size())]; }
  static std::string lit(char x, bool extra) { if (strchr("\\.()|*+?{[", x) && x) return std::string("\\") + x; if (x == '$' || x == '^' || extra) return std::string("\\") + x; return std::string(1, x); }
  std::string inset(char x) { if (x == ']' || x == '\\' || x == '^' || x == '-' || c.pct(6)) return std::string("\\") + x; return std::string(1, x); }
  Node atom(std::string &t, int d) { Node n; int w = c.weighted({12, 4, 2, d > 0 ? 8 : 0, 1});
    switch (w) {
      case 0: { char x = ch(); n.k = 1; n.s[(uint8_t)x] = 1; t += lit(x, c.pct(4)); return n; }
      case 1: { n.k = 1; std::string u = "["; bool inv = c.pct(30); if (inv) u += "^"; if (c.pct(6)) { u += "]"; n.s[']'] = 1; } int m = 1 + (int)c.below(c.pct(10) ? 12 : 3); for (int i = 0; i < m; i++) { uint8_t a = (uint8_t)ch(); if (c.pct(40)) { uint8_t b = c.pct(30) ? (uint8_t)c.below(256) : (uint8_t)ch(); u += inset((char)a) + "-" + inset((char)b); if (a > b) std::swap(a, b); for (int q = a; q <= b; q++) n.s[q] = 1; } else { u += inset((char)a); n.s[a] = 1; } } if (c.pct(4)) { u += "-"; n.s['-'] = 1; } t += u + "]"; if (inv) n.s.flip(); return n; }
      case 2: n.k = 1; n.s.set(); if (fl & F_NL) { n.s['\n'] = 0; n.s['\r'] = 0; } t += "."; return n;
      case 4: t += "()"; return n;
      default: { t += "("; n = alt(t, d - 1); t += ")"; return n; } } }
  Node item(std::string &t, int d) { budget--; Node n = atom(t, d); int its = c.pct(55) ? 0 : c.pct(85) ? 1 : 2;
    for (int q = 0; q < its; q++) { Node r; r.k = 4; auto name = [&](int v) { std::string s = strf("%d", v); if (c.pct(10)) s = "0" + s; return s; };
      if (c.pct(15)) { int id = (int)c.below(6); if (c.pct(4)) id = (int)c.below(100000000); t += "{" + name(id) + "!}"; Node s; s.k = 2; s.v.push_back(n); Node i; i.k = 5; i.lo = id; s.v.push_back(i); n = s; if (c.coin()) break; }
      switch (c.weighted({5, 5, 5, 2, 2, 2, 3, 1})) {
        case 0: r.lo = 0; r.hi = -1; t += c.pct(10) ? "{,}" : c.pct(10) ? "{0,}" : "*"; break; case 1: r.lo = 1; r.hi = -1; t += c.pct(10) ? "{1,}" : "+"; break; case 2: r.lo = 0; r.hi = 1; t += c.pct(10) ? "{,1}" : c.pct(10) ? "{0,1}" : "?"; break;
        case 3: r.lo = r.hi = 1 + (int)c.below(maxrep); t += "{" + name(r.lo) + "}"; break;
        case 4: r.lo = (int)c.below(maxrep); r.hi = -1; t += "{" + name(r.lo) + ",}"; break;
        case 5: r.lo = 0; r.hi = 1 + (int)c.below(maxrep); t += "{," + name(r.hi) + "}"; break;
        case 6: r.lo = (int)c.below(maxrep); r.hi = r.lo + (int)c.below(maxrep); if (r.hi == 0) r.hi = 1; t += "{" + name(r.lo) + "," + name(r.hi) + "}"; break;
        default: t += c.pct(50) ? "{0}" : c.coin() ? "{,0}" : "{0,0}"; n = Node(); continue; }
      r.v.push_back(n); n = r; }
    return n; }
  Node seq(std::string &t, int d) { Node n; n.k = 2; if (c.pct(8)) { int id = (int)c.below(6); t += strf("{%d!}", id); Node i; i.k = 5; i.lo = id; n.v.push_back(i); } int m = c.pct(5) ? 0 : 1 + (int)c.below(4); for (int i = 0; i < m && budget > 0; i++) { n.v.push_back(item(t, d)); if (c.pct(10)) { int id = (int)c.below(6); t += strf("{%d!}", id); Node q; q.k = 5; q.lo = id; n.v.push_back(q); } } return n; }
  Node alt(std::string &t, int d) { Node n; n.k = 3; int m = c.weighted({6, 3, 1}) + 1; for (int i = 0; i < m; i++) { if (i) t += "|"; n.v.push_back(seq(t, d)); } return n; } };
void sample(Choices &c, const Node &n, std::string &o) { if (o.size() > 40) return;
  switch (n.k) { case 1: { size_t k = n.s.count(); if (!k) return; size_t w = c.below(std::min<size_t>(k, 8)); if (c.pct(15)) w = c.below(k); for (int i = 97; i < 97 + 256; i++) if (n.s[i & 255] && w-- == 0) { o += (char)i; return; } return; }
    case 2: for (auto &q : n.v) sample(c, q, o); return; case 3: sample(c, n.v[c.below(n.v.size())], o); return;
    case 4: { int k = n.lo + (int)c.below(n.hi < 0 ? 3 : n.hi - n.lo + 1); for (int i = 0; i < k && i < 20; i++) sample(c, n.v[0], o); return; } } }
std::string quote(const std::string &s) { std::string o = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') o += '\\'; if (ch < 32 || ch > 126) o += strf("\\x%02x", ch); else o += (char)ch; } return o + "\""; }
std::string flags(int f) { std::string s; if (f & F_BEGIN) s += " BEGIN"; if (f & F_END) s += " END"; if (f & F_NL) s += " NEWLINE"; if (f & F_NG) s += " NON_GREEDY"; return s.empty() ? " none" : s; }
// bytes that end where memory ends
struct Guard { char *base; Guard() { base = (char *)mmap(nullptr, 65536 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base + 65536, 4096, PROT_NONE); } const char *put(const std::string &s) { char *p = base + 65536 - s.size(); memcpy(p, s.data(), s.size()); return p; } };
Guard &gpat() { static Guard g; return g; } Guard &gsub() { static Guard g; return g; }
void clean_start() { if (!g_maps) g_maps = new std::map<uintptr_t, size_t>; gpat(); gsub(); sljit_free_unused_memory_exec(); g_outst = 0; g_bad.clear(); g_fail_at = -1; g_fail_map = false; }
void clean_end() { sljit_free_unused_memory_exec(); if (!g_bad.empty()) FAIL("%s", g_bad.c_str()); if (g_outst) FAIL("%d allocations were not released", g_outst); if (!g_maps->empty()) FAIL("executable memory was not released"); }
struct One { regex_match *m; std::string s; std::unique_ptr<Ref> r; int at = 0; bool debug = false; bool fin = false; int runs = 0; };
std::string subject(Ctx &x, const Node &n, const std::string &alpha) { Choices &c = x.c; std::string s; auto noise = [&](int k) { for (int i = 0; i < k; i++) s += c.pct(3) ? (char)c.below(256) : alpha[c.below(alpha.size())]; };
  int w = c.weighted({2, 6, 2, 1}); if (w == 0) noise((int)c.below(14)); else if (w < 3) { int parts = w == 1 ? 1 : 2 + (int)c.below(2); for (int i = 0; i < parts; i++) { if (c.coin()) noise((int)c.below(5)); sample(c, n, s); if (s.size() > 40) break; } if (c.coin()) noise((int)c.below(5)); if (s.size() && c.pct(25)) { size_t i = c.below(s.size()); if (c.coin()) s[i] = alpha[c.below(alpha.size())]; else s.erase(i, 1); } } if (s.size() > 48) s.resize(48); return s; }
int g_error_code(Ctx &x, const std::string &pat, int fl, regex_machine **out) { int err = 77; bool noerr = x.c.pct(3); *out = regex_compile(gpat().put(pat), (int)pat.size(), fl, noerr ? nullptr : &err); if (noerr) err = *out ? 0 : -1; return err; }
void drive(Ctx &x, const Node &n, const std::string &pat, int callfl, int fl, const std::string &alpha) {
  Choices &c = x.c; regex_machine *mc = nullptr; int err = g_error_code(x, pat, callfl | (c.pct(1) ? REGEX_MATCH_VERBOSE : 0), &mc);
  if (!mc || err) FAIL("pattern %s (flags%s) was not compiled: error %d", quote(pat).c_str(), flags(callfl).c_str(), err); if (!g_bad.empty()) FAIL("%s", g_bad.c_str());
  int nm = c.pct(70) ? 1 : 2; std::vector<One> v(nm); std::string log; bool any = false; uint64_t steps = 0; int full = 1 + (int)c.below(3);
  auto check = [&](One &o, const char *when) { int e = -7, id = -7; int b = regex_get_result(o.m, &e, &id); int f = regex_is_match_finished(o.m); Res got{b, e, id}, want = o.r->at(o.at); steps++; if (want.b >= 0) any = true;
      if (!(got == want)) FAIL("pattern %s (flags%s), subject %s%s: result %d..%d id %d, expected %d..%d id %d; history: %s", quote(pat).c_str(), flags(callfl).c_str(), quote(o.s.substr(0, o.at)).c_str(), when, b, e, id, want.b, want.e, want.id, log.c_str());
      if (o.fin && !f) FAIL("pattern %s: the match is no longer finished after more input", quote(pat).c_str());
      if (f) { if (!o.fin) x.count("finished"); o.fin = true; for (int L = o.at; L <= (int)o.s.size(); L++) if (!(o.r->at(L) == got)) FAIL("pattern %s (flags%s), subject %s: reported as finished after %d characters, but the best match of the first %d is different", quote(pat).c_str(), flags(callfl).c_str(), quote(o.s).c_str(), o.at, L); } };
  auto start = [&](One &o) { o.s = subject(x, n, alpha); o.r = std::make_unique<Ref>(n, o.s, fl); o.at = 0; o.fin = false; o.debug = c.pct(25); o.runs++; x.dump("subject " + quote(o.s) + "\n"); };
  for (auto &o : v) { o.m = regex_begin_match(mc); if (!o.m) FAIL("regex_begin_match failed"); start(o); check(o, " (nothing supplied yet)"); }
  int guard = 0; while (guard++ < 60) { One &o = v[nm == 1 ? 0 : c.below(nm)]; int left = (int)o.s.size() - o.at;
    if (left == 0 || c.pct(4)) { if (o.runs >= full) { bool rest = false; for (auto &q : v) if (q.runs < full || q.at < (int)q.s.size()) rest = true; if (!rest || nm == 1) break; continue; } log += " reset"; x.dump("reset\n"); regex_reset_match(o.m); start(o); check(o, " (just reset)"); continue; }
    int k = c.pct(8) ? 0 : c.pct(35) ? left : 1 + (int)c.below(std::min(left, 6)); const char *p = gsub().put(o.s.substr(o.at, k)); x.dump(strf("continue %d\n", k)); log += strf(" %s%d", nm > 1 ? strf("#%d:", (int)(&o - &v[0])).c_str() : "", k);
    if (o.debug) regex_continue_match_debug(o.m, p, k); else { uint64_t junk = c.pct(20) ? (c.bits(31) << 32) : 0; ((void (*)(regex_match *, const char *, uint64_t))regex_continue_match)(o.m, p, junk | (uint64_t)(uint32_t)k); }   // only the low half of an int argument is defined
    o.at += k; check(o, ""); if (!g_bad.empty()) FAIL("%s", g_bad.c_str()); }
  for (auto &o : v) regex_free_match(o.m); regex_free_machine(mc); x.evals = steps;
  x.count(any ? "matched" : "never matched"); if (any) x.nontrivial = true; x.hash = mix64(std::hash<std::string>()(pat) + fl * 77 + steps);
  if (x.shm->nsamples < 8 && any) x.sample = ("pattern " + quote(pat) + " flags" + flags(callfl) + " subject " + quote(v[0].s) + strf(" -> %d..%d id %d", v[0].r->at(v[0].s.size()).b, v[0].r->at(v[0].s.size()).e, v[0].r->at(v[0].s.size()).id));
}
int pick_flags(Choices &c) { int f = 0; if (c.pct(20)) f |= F_BEGIN; if (c.pct(25)) f |= F_END; if (c.pct(30)) f |= F_NL; if (c.pct(25)) f |= F_NG; return f; }
std::string pick_alpha(Choices &c, int fl) { std::string a = "ab"; if (c.coin()) a += "c"; if ((fl & F_NL) || c.pct(10)) a += "\n"; if (c.pct(15)) a += "\r"; if (c.pct(15)) { a += (char)(128 + c.below(128)); a += (char)c.below(256); } if (c.pct(15)) a += "-]^$"; if (c.pct(8)) a += std::string("\0{}", 3); return a; }
void trees(Ctx &x) {
  Choices &c = x.c; clean_start(); int callfl = pick_flags(c), fl = callfl; std::string alpha = pick_alpha(c, fl), t; if (c.pct(15)) { t = "^"; fl |= F_BEGIN; } bool big = c.pct(6); Gen g{c, fl, false, big ? 12 : 3, big ? 40 : 12, alpha}; Node n = g.alt(t, big ? 4 : 3); if (c.pct(15)) { t += "$"; fl |= F_END; }
  if (states(n) > (big ? 1500 : 400)) throw Discard{"pattern too large"}; x.dump("pattern " + quote(t) + " flags" + flags(callfl) + "\n");
  Reader rd(t, callfl); rd.read(); REQUIRE(rd.status == P_OK && rd.fl == fl, "the generated pattern is not in the syntax (harness)"); if (big) x.count("large pattern");
  drive(x, n, t, callfl, fl, alpha); clean_end();
}
void text(Ctx &x) {
  Choices &c = x.c; clean_start(); int callfl = pick_flags(c); std::string alpha = pick_alpha(c, callfl), t; int len = (int)c.below(14); static const char *bits[] = {"a", "b", "(", ")", "|", "*", "+", "?", "{", "}", "[", "]", "^", "$", ".", "\\", "-", ",", "!", "0", "1", "2", "{2}", "{1,", "{2!}", "[^", "a-c", "()", "{,", "{0}"};
  for (int i = 0; i < len; i++) { if (c.pct(3)) t += (char)c.below(256); else t += bits[c.below(30)]; }
  x.dump("pattern " + quote(t) + " flags" + flags(callfl) + "\n"); Reader rd(t, callfl); Node n = rd.read(); if (rd.overlong || (rd.status == P_OK && states(n) > 600)) throw Discard{"too large"};
  if (rd.status == P_OK) { x.count("accepted text"); drive(x, n, t, callfl, rd.fl, alpha); clean_end(); return; }
  // a prefix may already contain a large repetition before the error
  { long prod = 1; for (size_t i = 0; i < t.size(); i++) if (t[i] >= '0' && t[i] <= '9') { long v = 0; while (i < t.size() && t[i] >= '0' && t[i] <= '9' && v < 100000) v = v * 10 + (t[i++] - '0'); prod = std::min(prod * std::max(1l, v), 1000000l); } if (prod > 5000) throw Discard{"too large"}; }
  regex_machine *mc; int err = g_error_code(x, t, callfl, &mc); if (rd.status == P_UNSPEC) { if (mc) regex_free_machine(mc); clean_end(); return; }
  if (mc) FAIL("pattern %s (flags%s) is not in the syntax but was compiled", quote(t).c_str(), flags(callfl).c_str()); if (err != REGEX_INVALID_REGEX && err != -1) FAIL("pattern %s: error %d instead of 2", quote(t).c_str(), err);
  x.count("refused text"); x.nontrivial = true; x.hash = std::hash<std::string>()(t); clean_end();
}
void refuse(Ctx &x) {   // memory runs out somewhere
  Choices &c = x.c; clean_start(); int callfl = pick_flags(c), fl = callfl; std::string alpha = pick_alpha(c, fl), t; Gen g{c, fl, false, 8, 25, alpha}; Node n = g.alt(t, 3); long st = states(n); if (st > 1500) throw Discard{"pattern too large"};
  long k = (long)c.below(c.coin() ? 8 : 60); bool fmap = c.pct(10); x.dump("pattern " + quote(t) + flags(callfl) + strf(" refusal at allocation %ld%s\n", k, fmap ? ", no executable memory" : "")); g_fail_at = fmap ? -1 : k; g_fail_map = fmap; regex_machine *mc; int err = g_error_code(x, t, callfl, &mc); bool hit = fmap || g_fail_at < 0; g_fail_at = -1; g_fail_map = false; x.count(hit ? "refused during compilation" : "refused later"); if (hit) { x.nontrivial = true; x.hash = mix64(std::hash<std::string>()(t) + k); }
  if (hit && mc) FAIL("pattern %s compiled although an allocation was refused", quote(t).c_str()); if (hit && err != REGEX_MEMORY_ERROR && err != -1) FAIL("error %d instead of 1 when memory is refused", err); if (!hit && !mc) FAIL("pattern %s: error %d", quote(t).c_str(), err);
  if (mc) { g_fail_at = 0; regex_match *m = regex_begin_match(mc); g_fail_at = -1; if (m) FAIL("regex_begin_match succeeded without memory"); m = regex_begin_match(mc); if (!m) FAIL("regex_begin_match failed"); std::string s = subject(x, n, alpha); Ref r(n, s, fl); regex_continue_match(m, gsub().put(s), (int)s.size()); int e, id; Res got{regex_get_result(m, &e, &id), 0, 0}; got.e = e; got.id = id; if (!(got == r.at((int)s.size()))) FAIL("pattern %s subject %s: wrong result", quote(t).c_str(), quote(s).c_str()); regex_free_match(m); regex_free_machine(mc); }
  clean_end(); if (!hit) return;
  drive(x, n, t, callfl, fl, alpha); clean_end();   // and it works afterwards
}
}
int main(int argc, char **argv) {
  CheckDef d{"C16", "at least one of the prefixes supplied to a match has a match according to the reference matcher, or the pattern must be refused, or an allocation was refused during compilation"};
  d.fams = {{"trees", trees, 1000000, 30000000, 400}, {"text", text, 500000, 16000000, 400}, {"refuse", refuse, 100000, 3000000, 200}};
  d.cpu_limit_s = 20;
  d.assumptions = {"x86-64 code only", "8-bit characters (as configured in the header)", "repetition counts up to 24, patterns up to about 1500 states", "repetition counts and ids of 10 digits or more, and iterators after a literal { at the beginning of a sequence, are not judged"};
  return check_main(d, argc, argv);
}
