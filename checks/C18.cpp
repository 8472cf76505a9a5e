// C18: the WASI bindings and loading the system library, with a recording stand-in for uvwasi.
#include "syslibworld.h"
#include "fakeuvwasi/uvwasi.h"
#include <uv.h>
#include <set>
#include <map>
extern "C" uint32_t (*vf_wasi_hook)(const char *name, int n, const uint64_t *a); extern "C" int wasiexec_main(int, char **);
namespace {
// The WASI preview1 interface. w 32-bit, h 16-bit, b 8-bit, q 64-bit value; o<n> place for a result of n bytes; p,n path and length; B,n output buffer; R,n / W,n scatter and gather lists; S subscriptions and E events for the count n
struct Spec { const char *n, *a; };
const std::vector<Spec> SP = {{"args_get", "!pp"}, {"args_sizes_get", "!pp"}, {"clock_res_get", "wo8"}, {"clock_time_get", "wqo8"}, {"environ_get", "!pp"}, {"environ_sizes_get", "!pp"}, {"fd_advise", "wqqb"}, {"fd_allocate", "wqq"}, {"fd_close", "w"}, {"fd_datasync", "w"},
  {"fd_fdstat_get", "wo24"}, {"fd_fdstat_set_flags", "wh"}, {"fd_fdstat_set_rights", "wqq"}, {"fd_filestat_get", "wo64"}, {"fd_filestat_set_size", "wq"}, {"fd_filestat_set_times", "wqqh"}, {"fd_pread", "wRnqo4"}, {"fd_prestat_get", "wo8"}, {"fd_prestat_dir_name", "wBn"}, {"fd_pwrite", "wWnqo4"},
  {"fd_read", "wRno4"}, {"fd_readdir", "wBnqo4"}, {"fd_renumber", "ww"}, {"fd_seek", "wqbo8"}, {"fd_sync", "w"}, {"fd_tell", "wo8"}, {"fd_write", "wWno4"}, {"path_create_directory", "wpn"}, {"path_filestat_get", "wwpno64"}, {"path_filestat_set_times", "wwpnqqh"}, {"path_link", "wwpnwpn"},
  {"path_open", "wwpnhqqho4"}, {"path_readlink", "wpnBno4"}, {"path_remove_directory", "wpn"}, {"path_rename", "wpnwpn"}, {"path_symlink", "pnwpn"}, {"path_unlink_file", "wpn"}, {"poll_oneoff", "SEno4"}, {"proc_exit", "w"}, {"proc_raise", "b"}, {"random_get", "Bn"}, {"sched_yield", ""},
  {"sock_accept", "who4"}, {"sock_recv", "wRnho4o2"}, {"sock_send", "wWnho4"}, {"sock_shutdown", "wb"}};
std::vector<Bind> WB; const Bind &B(const std::string &n) { for (auto &b : WB) if (n == b.n) return b; abort(); }
struct Par { char k; int sz; };
std::vector<Par> pars(const char *s) { std::vector<Par> v; for (; *s; s++) { if (*s == '!') continue; Par p{*s, 0}; if (*s == 'o') { p.sz = atoi(s + 1); while (isdigit(s[1])) s++; } v.push_back(p); } return v; }
void specs() { if (!WB.empty()) return; for (auto &s : SP) { Bind b; b.mod = "wasi_snapshot_preview1"; b.n = s.n; for (auto &p : pars(s.a)) b.p.push_back(p.k == 'q' ? I64 : I32); if (strcmp(s.n, "proc_exit")) b.r = {I32}; WB.push_back(b); } }
typedef std::vector<uint8_t> Bytes;
// ---- the stand-in's side ----
struct Write { uint64_t addr; Bytes b; };
struct Expect { std::string name; std::vector<uint64_t> a; std::vector<char> k; std::vector<std::vector<std::pair<uint64_t, uint32_t>>> iov; std::vector<Bytes> in; uint32_t err; std::vector<Write> wr; };
struct World; World *cur;
struct Env { std::vector<std::pair<std::string, std::string>> v; int out = 0, calls = 0; } env;
struct World : SysWorld {
  Builder b; struct pwart_wasm_memory hm; struct pwart_wasm_memory *M = nullptr; bool big = false, ownmem = true; std::vector<std::pair<uint64_t, uint64_t>> win; std::vector<Bytes> shadow; uvwasi_t *U = nullptr; bool inited = false; int inits = 0, destroys = 0; uint32_t initerr = 0; std::vector<std::string> args; std::vector<char *> argv; std::string pending; Expect *ex = nullptr; int hits = 0, nops = 0; uint64_t dist = 11; std::set<std::string> names; std::vector<std::string> seq;
  World(Ctx &x) : SysWorld(x), b(x.c) { memset(&hm, 0, sizeof hm); cur = this; vf_wasi_hook = hook; specs(); env = Env(); }
  ~World() { cur = nullptr; vf_wasi_hook = nullptr; }
  void wrong(const std::string &s) { if (pending.empty()) pending = s; }
  static uint32_t hook(const char *n, int na, const uint64_t *a) { InPw off(0); return cur ? cur->called(n, na, a) : 52; }
  uint32_t called(const std::string &n, int na, const uint64_t *a) {
    if (n == "options_init") { memset((void *)a[0], 0, sizeof(uvwasi_options_t)); uvwasi_options_t *o = (uvwasi_options_t *)a[0]; o->out = 1; o->err = 2; o->fd_table_size = 3; return 0; }
    if (n == "init") { inits++; uvwasi_options_t *o = (uvwasi_options_t *)a[1]; U = (uvwasi_t *)a[0]; if (inited) wrong("uvwasi_init on an instance that is still initialized"); if (o->in != 0 || o->out != 1 || o->err != 2) wrong("the standard descriptors are not 0, 1 and 2"); if (o->argc != args.size()) wrong(strf("uvwasi_init got %u arguments, %zu were set", o->argc, args.size())); else for (size_t i = 0; i < args.size(); i++) if (args[i] != o->argv[i]) wrong("uvwasi_init got other arguments than were set");
      if (o->preopenc != 1 || !o->preopens || std::string(o->preopens[0].mapped_path) != "/" || std::string(o->preopens[0].real_path) != ".") wrong("the current directory is not the root of the sandbox"); if (o->envp) wrong("environment given"); if (o->allocator) wrong("allocator given"); if (initerr) return initerr;
      memset(U, 0, sizeof *U); size_t sz = 0; for (auto &s : args) sz += s.size() + 1; U->argc = o->argc; U->argv_buf_size = sz; if (U->argc) { U->argv = (char **)calloc(U->argc, sizeof(char *)); U->argv_buf = (char *)malloc(sz); size_t q = 0; for (size_t i = 0; i < args.size(); i++) { memcpy(U->argv_buf + q, args[i].c_str(), args[i].size() + 1); U->argv[i] = U->argv_buf + q; q += args[i].size() + 1; } } inited = true; return 0; }
    if (a[0] != (uint64_t)U) wrong(n + " on something that is not the initialized instance"); if (!inited) { wrong(n + " after the instance was destroyed"); return 8; }
    if (n == "destroy") { destroys++; inited = false; free(U->argv); free(U->argv_buf); memset(U, 0x5a, sizeof *U); return 0; }
    if (n == "args_sizes_get") { *(uint32_t *)a[1] = U->argc; *(uint32_t *)a[2] = U->argv_buf_size; return 0; }
    hits++; seq.push_back(n); if (!ex) { if (!strict) return 0; wrong("unexpected call of uvwasi_" + n); return 52; } Expect &e = *ex; if (n != e.name) { wrong("uvwasi_" + n + " was called"); return 52; } if (na != (int)e.a.size() + 1) { wrong("argument count"); return 52; } uint64_t base = (uint64_t)M->bytes;
    for (size_t i = 0; i < e.a.size(); i++) { uint64_t v = a[i + 1], w = e.a[i];
      if (e.k[i] == 'R' || e.k[i] == 'W') { uvwasi_iovec_t *q = (uvwasi_iovec_t *)v; for (size_t j = 0; j < e.iov[i].size(); j++) if (q[j].buf != (void *)(base + e.iov[i][j].first) || q[j].buf_len != e.iov[i][j].second) { wrong(strf("entry %zu of the list is (memory + 0x%llx, %u), expected (memory + 0x%llx, %u)", j, (unsigned long long)((uint64_t)q[j].buf - base), q[j].buf_len, (unsigned long long)e.iov[i][j].first, e.iov[i][j].second)); return 52; } continue; }
      if (strchr("opBSE", e.k[i])) w += base; if (v != w) { wrong(strf("argument %zu is 0x%llx, expected 0x%llx%s", i, (unsigned long long)(strchr("opBSE", e.k[i]) ? v - base : v), (unsigned long long)e.a[i], strchr("opBSE", e.k[i]) ? " (from the start of memory)" : "")); return 52; } }
    for (auto &w : e.wr) memcpy((void *)(base + w.addr), w.b.data(), w.b.size()); return e.err;
  }
  bool strict = true;
  // ---- memory ----
  uint64_t spot(uint64_t len) { for (int t = 0; t < 50; t++) { auto w = win[c.below(win.size())]; uint64_t n = w.second - w.first; if (n < len) continue; uint64_t room = n - len - (w.second > 0xffffffff && !len); return w.first + (c.pct(15) ? room : c.pct(10) ? 0 : c.below(room + 1)); } throw Discard{"no room"}; }
  uint8_t *sh(uint64_t a) { for (size_t i = 0; i < win.size(); i++) if (a >= win[i].first && a < win[i].second) return shadow[i].data() + (a - win[i].first); abort(); }
  void put(uint64_t a, const void *p, size_t n) { if (!n) return; memcpy(sh(a), p, n); memcpy(M->bytes + a, p, n); }
  void mput(uint64_t a, const void *p, size_t n) { if (n) memcpy(sh(a), p, n); }
  void attach() {
    win.clear(); shadow.clear(); if (big) win = {{0, 32768}, {0x7fff8000, 0x80008000}, {0xffff8000, 0x100000000ull}}; else win = {{0, 65536ull * M->pages}}; for (auto &w : win) { Bytes q(w.second - w.first); for (auto &v : q) v = 0; uint64_t s = c.bits(64); for (size_t i = 0; i + 8 <= q.size(); i += 64) { s = mix64(s); memcpy(&q[i], &s, 8); } shadow.push_back(q); memcpy(M->bytes + w.first, q.data(), q.size()); }
  }
  void whole(const std::string &what) { if (!pending.empty()) bad(what + ": " + pending); for (size_t i = 0; i < win.size(); i++) if (memcmp(M->bytes + win[i].first, shadow[i].data(), shadow[i].size())) { size_t k = 0; while (M->bytes[win[i].first + k] == shadow[i][k]) k++; bad(strf("%s: memory at 0x%llx holds %02x, expected %02x", what.c_str(), (unsigned long long)(win[i].first + k), M->bytes[win[i].first + k], shadow[i][k])); } noisecheck(); }
  Bytes rnd(size_t n) { Bytes v(n); uint64_t s = c.bits(64); for (size_t i = 0; i < n; i++) { s = mix64(s); v[i] = (uint8_t)s; } return v; }
  std::string word(int mx) { std::string s; int n = c.pct(10) ? 0 : (int)c.below(mx); for (int i = 0; i < n; i++) s += (char)c.range(1, c.coin() ? 126 : 255); return s; }
  void setargs() { args.clear(); argv.clear(); int n = c.pct(10) ? 0 : (int)c.below(8); for (int i = 0; i < n; i++) args.push_back(word(c.pct(5) ? 2000 : 20)); for (auto &s : args) argv.push_back((char *)s.c_str()); pwart_wasi_module_set_wasiargs(argv.size(), argv.data()); }
  void init(bool ok) { if (ok) initerr = 0; else initerr = c.pick({28, 48, 8, 76}); int i0 = inits, d0 = destroys; bool was = inited; char *e; { InPw in; e = pwart_wasi_module_init(); } say(strf("  init with %zu arguments%s", args.size(), ok ? "" : " fails")); if ((e == nullptr) != ok) bad(strf("pwart_wasi_module_init returned %s", e ? e : "no error")); if (inits != i0 + 1) bad("uvwasi_init was not called once"); if (destroys != d0 + (was ? 1 : 0)) bad("the previous instance was not destroyed once"); if (!pending.empty()) bad(pending); if (inited != ok) bad("state"); }
  // ---- one call of one binding ----
  void plain(const Spec &s) {
    Expect e; e.name = s.n; std::vector<uint64_t> w; auto ps = pars(s.a); std::string t; uint32_t cnt = 0; std::map<int, uint32_t> room; std::map<uint64_t, uint32_t> rooms; auto far = [&](uint64_t at, uint32_t len) { if (!c.pct(10)) return len; uint64_t end = big ? 0xffffffffull : 65536ull * M->pages; return (uint32_t)(len + c.below(end - at - len + 1)); }; e.err = c.pct(40) ? (uint32_t)c.range(1, 76) : 0; std::vector<std::pair<uint64_t, Bytes>> pre;
    for (size_t i = 0; i < ps.size(); i++) { char k = ps[i].k; uint64_t v = 0; e.iov.push_back({});
      auto val = [&](int bits) { uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1; return (c.pct(30) ? c.pick<uint64_t>({0, 1, ~0ull, 1ull << (bits - 1), (1ull << (bits - 1)) - 1, 3}) : c.bits(64)) & m; };
      switch (k) {
        case 'w': v = val(32); break; case 'h': v = val(16); break; case 'b': v = val(8); break; case 'q': v = val(64); break; case 'o': v = spot(ps[i].sz); break; case 'n': v = cnt; break;
        case 'p': { cnt = (uint32_t)(c.pct(5) ? c.below(4000) : c.below(64)); v = spot(cnt); pre.push_back({v, rnd(cnt)}); cnt = far(v, cnt); break; } case 'B': cnt = (uint32_t)(c.pct(10) ? c.below(9000) : c.below(200)); v = spot(cnt); room[i] = cnt; cnt = far(v, cnt); break;
        case 'S': cnt = (uint32_t)c.below(10); v = spot(48 * cnt); pre.push_back({v, rnd(48 * cnt)}); break; case 'E': v = spot(32 * cnt); break;
        case 'R': case 'W': { cnt = (uint32_t)(c.pct(6) ? c.range(100, 1024) : c.below(12)); v = spot(8 * cnt); Bytes q; for (uint32_t j = 0; j < cnt; j++) { uint32_t len = (uint32_t)(c.pct(15) ? 0 : c.pct(5) ? c.below(3000) : c.below(40)); uint64_t at = spot(len); uint32_t x32 = (uint32_t)at; q.insert(q.end(), (uint8_t *)&x32, (uint8_t *)&x32 + 4); q.insert(q.end(), (uint8_t *)&len, (uint8_t *)&len + 4); rooms[at] = std::max(rooms[at], len); len = far(at, len); memcpy(&q[q.size() - 4], &len, 4); e.iov[i].push_back({at, len}); } pre.push_back({v, q}); break; } }
      w.push_back(v); e.a.push_back(v); e.k.push_back(k); t += strf("%s%llx", i ? "," : "", (unsigned long long)v); if (k == 'q' || k == 'w') dist = mix64(dist ^ v); }
    for (auto &p : pre) put(p.first, p.second.data(), p.second.size());
    // lists placed over each other: what the binding will find in memory
    for (size_t i = 0; i < ps.size(); i++) if (ps[i].k == 'R' || ps[i].k == 'W') for (size_t j = 0; j < e.iov[i].size(); j++) { uint32_t q[2]; memcpy(q, sh(e.a[i]) + 8 * j, 8); e.iov[i][j] = {q[0], q[1]}; }
    for (size_t i = 0; i < ps.size(); i++) { char k = ps[i].k; auto add = [&](uint64_t a, size_t n) { Bytes r = rnd(n); e.wr.push_back({a, r}); };
      if (e.err && c.coin()) continue; if (k == 'o') add(e.a[i], ps[i].sz); else if (k == 'B') add(e.a[i], c.below(room[i] + 1)); else if (k == 'E') add(e.a[i], 32 * c.below(e.a[i + 1] + 1)); else if (k == 'R') for (auto &v : e.iov[i]) if (c.pct(80)) { auto q = rooms.find(v.first); if (q != rooms.end()) add(v.first, std::min(v.second, q->second)); } }
    say(strf("  %s(%s) returns %u", s.n, t.c_str(), e.err)); x.count(s.n); ex = &e; hits = 0; nops++; auto r = this->w(B(s.n), w); ex = nullptr; for (auto &q : e.wr) mput(q.addr, q.b.data(), q.b.size());
    whole(s.n); if (hits != 1) bad(strf("%s called uvwasi %d times", s.n, hits)); if (!r.empty() && r[0] != e.err) bad(strf("%s returned %llu, uvwasi returned %u", s.n, (unsigned long long)r[0], e.err)); names.insert(s.n); dist = mix64(dist ^ e.err);
  }
  void special(const Spec &s) {
    std::string n = s.n; nops++; x.count(n); names.insert(n); uint64_t p, q; env.calls = 0;
    if (n == "environ_get" || n == "environ_sizes_get") { env.v.clear(); int k = (int)c.below(c.pct(10) ? 60 : 8); for (int i = 0; i < k; i++) env.v.push_back({word(12), word(c.pct(5) ? 500 : 30)}); }
    std::vector<std::string> v; if (n[0] == 'a') v = args; else for (auto &z : env.v) v.push_back(z.first + "=" + z.second); size_t tot = 0; for (auto &z : v) tot += z.size() + 1;
    if (n == "args_sizes_get" || n == "environ_sizes_get") { int tries = 0; p = spot(4); do { q = spot(4); if (++tries > 60) throw Discard{"no room"}; } while (q + 4 > p && p + 4 > q); uint32_t a = v.size(), b_ = tot; mput(p, &a, 4); mput(q, &b_, 4); }
    else { int tries = 0; do { p = spot(4 * v.size()); q = spot(tot); if (++tries > 60) throw Discard{"no room"}; } while (q + tot > p && p + 4 * v.size() > q); uint64_t at = q; for (size_t i = 0; i < v.size(); i++) { uint32_t a = (uint32_t)at; mput(p + 4 * i, &a, 4); mput(at, v[i].c_str(), v[i].size() + 1); at += v[i].size() + 1; } }
    say(strf("  %s(%llx,%llx) for %zu strings", s.n, (unsigned long long)p, (unsigned long long)q, v.size())); auto r = w(B(n), {p, q}); whole(n); if (r[0]) bad(n + " failed"); if (env.out) bad(n + ": the environment taken from libuv was not given back"); dist = mix64(dist ^ tot);
  }
  void go() {
    big = c.pct(12); ownmem = !big && c.pct(80); setargs(); env = Env(); { InPw in; Track::start(); } init(true);
    { InPw in; ns = pwart_namespace_new(); } if (big || !ownmem) { hm.fixed = 1; hm.initial = hm.pages = big ? 65536 : 2; hm.maximum = hm.pages; size_t sz = big ? 0x100000000ull : 131072; hm.bytes = (uint8_t *)mmap(0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (hm.bytes == MAP_FAILED) throw Discard{"no address space"}; M = &hm; }
    char *e; { InPw in; e = pwart_syslib_load(ns); } if (e) bad(strf("pwart_syslib_load: %s", e));
    std::vector<const Bind *> bs; for (auto &q : WB) bs.push_back(&q); b.imports(bs, false, (uint32_t)c.range(1, 2)); for (auto &q : WB) b.wrap(q.n); b.begin({I32}, {I32}); b.e(0x20, 0); b.e(0x40, b.mOwn); b.end("grow"); st = define("m", b.m); if (ownmem && !big) M = mem(); pwart_wasi_module_set_wasimemory(M); attach();
    int n = (int)c.range(4, x.thorough ? 60 : 24);
    for (int i = 0; i < n; i++) {
      if (c.pct(4) && ownmem && !big) { callf(fn("grow"), {I32}, {I32}, {1}); say(strf("  grow to %d pages", M->pages)); Bytes z(65536ull * M->pages); memcpy(z.data(), shadow[0].data(), shadow[0].size()); shadow[0] = z; win = {{0, 65536ull * M->pages}}; whole("grow"); continue; }
      if (c.pct(4)) { setargs(); init(true); continue; }
      const Spec &s = c.pick(SP); if (s.a[0] == '!') special(s); else plain(s);
    }
    { InPw in; e = pwart_syslib_unload(ns); } if (e) bad("pwart_syslib_unload"); if (inited) bad("unloading did not destroy the uvwasi instance"); if (!pending.empty()) bad(pending); st = nullptr; { InPw in; pwart_namespace_delete(ns); } if (hm.bytes) munmap(hm.bytes, big ? 0x100000000ull : 131072); std::string l = Track::stop(); if (!l.empty()) bad("memory is still allocated after everything was deleted: " + l);
    x.nontrivial = names.size() >= 3; x.hash = mix64(dist ^ nops); x.evals = nops; if (x.shm->nsamples < 2 && log.size() < 2800) x.sample = log; if (big) x.count("addresses above 2 GB");
  }
  // ---- loading and unloading ----
  struct NS { pwart_namespace p; bool loaded = false, wasi = false; };
  void hist() {
    { InPw in; Track::start(); } std::vector<NS> v; int n = (int)c.range(4, 24); int kinds = 0; setargs(); strict = false; bool owner = false; char **el = pwart_syslib_get_enabled_list(); std::set<std::string> en; for (; *el; el++) en.insert(*el); if (!en.count("libuv") || !en.count("libffi")) bad("the list of enabled modules is incomplete");
    for (int i = 0; i < n; i++) { nops++; char *e = nullptr; std::vector<int> ld, un; for (size_t k = 0; k < v.size(); k++) (v[k].loaded ? ld : un).push_back(k); bool anyw = false; for (auto &z : v) if (z.loaded && z.wasi) anyw = true;
      switch (c.weighted({v.size() < 4 ? 3 : 0, un.empty() ? 0 : 4, ld.empty() ? 0 : 3, v.empty() ? 0 : 2, 2, anyw ? 0 : 1, v.empty() ? 0 : 2})) {
        case 0: { say("  new namespace"); NS z; { InPw in; z.p = pwart_namespace_new(); } v.push_back(z); break; }
        case 1: { int k = c.pick(un); if (anyw && inited) break; say(strf("  load %d%s", k, inited ? " with wasi" : "")); { InPw in; e = pwart_syslib_load(v[k].p); } if (e) bad("load"); v[k].loaded = true; v[k].wasi = inited; kinds |= 1; x.count("load"); break; }
        case 2: { int k = c.pick(ld); say(strf("  unload %d", k)); int d0 = destroys; bool was = inited; { InPw in; e = pwart_syslib_unload(v[k].p); } if (e) bad("unload"); if (v[k].wasi && (destroys != d0 + (was ? 1 : 0) || inited)) bad("unloading wasi did not destroy the instance once"); if (!v[k].wasi && destroys != d0) bad("an instance was destroyed by unloading a namespace without wasi"); v[k].loaded = v[k].wasi = false; kinds |= 2; x.count("unload"); break; }
        case 3: { int k = (int)c.below(v.size()); if (v[k].loaded) break; say(strf("  delete %d", k)); { InPw in; pwart_namespace_delete(v[k].p); } v.erase(v.begin() + k); x.count("delete"); break; }
        case 4: { if (c.pct(30)) setargs(); init(c.pct(75)); kinds |= 4; x.count("init"); break; }
        case 5: { if (inited) break; int k = un.empty() ? -1 : c.pick(un); if (k < 0) break; say("  unload something never loaded"); { InPw in; e = pwart_syslib_unload(v[k].p); } if (e) bad("unload"); x.count("unload without load"); break; }
        default: { int k = (int)c.below(v.size()); say(strf("  look at %d", k)); x.count("lookup"); auto has = [&](const char *m, const char *f) { pwart_symbol_resolve_request r; memset(&r, 0, sizeof r); r.import_module = (char *)m; r.import_field = (char *)f; r.kind = PWART_KIND_FUNCTION; pwart_namespace_resolver(v[k].p)->resolve(pwart_namespace_resolver(v[k].p), &r); return r.result != nullptr; };
          if (has("libuv", "uv_version") != v[k].loaded || has("libffi", "ffix_call") != v[k].loaded) bad("libuv and libffi are not found exactly while loaded"); if (has("wasi_snapshot_preview1", "fd_write") != (v[k].loaded && v[k].wasi)) bad("wasi is not found exactly while loaded"); if (has("libuv", "no_such") || has("libffi", "ffix")) bad("a name that does not exist was found");
          if (v[k].loaded && c.coin()) { Module m; FuncType t; t.r = {I32}; m.addtype(t); Import im; im.mod = "libuv"; im.name = "uv_version"; im.kind = K_FUNC; m.imports.push_back(im); Func f; f.type = 0; f.code = {Instr(0x10, 0), Instr(0x0b)}; m.funcs.push_back(f); m.exports.push_back({"v", K_FUNC, 1}); auto by = encode(m); char *er = nullptr; pwart_module_state s; { InPw in; s = (pwart_module_state)pwart_namespace_define_wasm_module(v[k].p, (char *)"mm", (char *)by.data(), (int)by.size(), &er); } if (!s || er) bad("module"); pwart_call_wasm_function(pwart_get_export_function(s, (char *)"v"), stk); if (*(uint32_t *)stk != uv_version()) bad("uv_version"); } } }
      if (!pending.empty()) bad(pending); }
    for (auto &z : v) { if (z.loaded) { InPw in; pwart_syslib_unload(z.p); } InPw in; pwart_namespace_delete(z.p); } if (inited) { struct pwart_host_module *h; { InPw in; h = pwart_wasi_module_new(); pwart_wasi_module_delete(h); } if (inited) bad("pwart_wasi_module_delete did not destroy the instance"); }
    std::string l = Track::stop(); if (!l.empty()) bad("memory is still allocated after everything was deleted: " + l); (void)owner; x.nontrivial = kinds == 7; x.hash = mix64(std::hash<std::string>()(log)); x.evals = nops; if (x.shm->nsamples < 1) x.sample = log;
  }
  // ---- the command line program ----
  void exec() {
    std::string dir = getenv("VERIF_TMP") ? getenv("VERIF_TMP") : "/tmp", path = strf("%s/c18.%d.wasm", dir.c_str(), getpid()); strict = false; int kind = (int)c.weighted({6, 1, 1, 1, 1}); bool hasmem = c.pct(80), hasstart = c.pct(40), has_start = c.pct(80); Bytes by; std::vector<std::string> want; x.count(strf("program kind %d", kind));
    Module m; FuncType t0, t1; t1.p = {I32}; t1.r = {I32}; FuncType t2; t2.p = {I32}; m.types = {t0, t1, t2}; const char *fs[] = {"fd_close", "fd_sync", "proc_raise", "fd_datasync"}; for (auto q : fs) { Import i; i.mod = "wasi_snapshot_preview1"; i.name = q; i.kind = K_FUNC; i.type = 1; m.imports.push_back(i); }
    auto body = [&](bool run) { Func f; f.type = 0; int k = (int)c.below(4); for (int i = 0; i < k; i++) { int q = (int)c.below(4); f.code.push_back(Instr(0x41, 0, c.below(100))); f.code.push_back(Instr(0x10, q)); f.code.push_back(Instr(0x1a)); if (run) want.push_back(fs[q]); } f.code.push_back(Instr(0x0b)); m.funcs.push_back(f); };
    if (hasmem) { MemType mt; m.mems.push_back(mt); m.exports.push_back({"memory", K_MEM, 0}); } body(hasstart); body(has_start); if (hasstart) m.start = 4; if (has_start) m.exports.push_back({"_start", K_FUNC, 5}); by = encode(m);
    if (kind == 2) { if (c.coin()) by[c.below(8)] ^= 1 << c.below(8); else { m.imports[c.below(4)].name += "_"; by = encode(m); } } if (kind == 3) by.resize(c.below(8)); unlink(path.c_str()); if (kind != 1 && kind != 4) { FILE *f = fopen(path.c_str(), "wb"); fwrite(by.data(), 1, by.size(), f); fclose(f); }
    int na = (int)c.below(4); std::vector<std::string> s = {"pwart_wasiexec"}; if (kind != 4) s.push_back(path); if (kind != 4) for (int i = 0; i < na; i++) s.push_back(word(20)); std::vector<char *> a; for (auto &z : s) a.push_back((char *)z.c_str()); a.push_back(nullptr); args.assign(s.begin() + 1, s.end()); initerr = 0;
    if (inited) abort(); seq.clear(); say(strf("  program kind %d (memory %d, start function %d, _start %d), %zu arguments", kind, hasmem, hasstart, has_start, s.size())); int r; { InPw in; r = wasiexec_main((int)s.size(), a.data()); } fflush(stdout); unlink(path.c_str()); if (!pending.empty()) bad(pending);
    if (r != (kind == 0 ? 0 : 1)) bad(strf("the program returned %d", r)); if (kind == 0 && seq != want) { std::string o; for (auto &q : seq) o += q + " "; o += "; expected "; for (auto &q : want) o += q + " "; bad("calls made: " + o); } if (kind && !seq.empty()) bad("a program that cannot run made calls");
    struct pwart_host_module *h = pwart_wasi_module_new(); pwart_wasi_module_delete(h); nops = 1 + seq.size(); x.nontrivial = true; x.hash = c.bits(62); x.evals = nops;
  }
};
void wasi(Ctx &x) { World w(x); w.go(); }
void load(Ctx &x) { World w(x); w.hist(); }
void exec(Ctx &x) { World w(x); w.exec(); }
}
extern "C" int uv_os_environ(uv_env_item_t **p, int *n) { InPw off(0); env.calls++; env.out++; *n = (int)env.v.size(); *p = (uv_env_item_t *)malloc(sizeof(uv_env_item_t) * (env.v.size() + 1)); for (size_t i = 0; i < env.v.size(); i++) { (*p)[i].name = (char *)env.v[i].first.c_str(); (*p)[i].value = (char *)env.v[i].second.c_str(); } return 0; }
extern "C" void uv_os_free_environ(uv_env_item_t *p, int n) { InPw off(0); if (n != (int)env.v.size() && cur) cur->wrong("the environment was given back with another length"); env.out--; free(p); }
int main(int argc, char **argv) {
  CheckDef d{"C18", "wasi: calls of at least three binding functions were made and checked; load: the history loads, unloads and initializes; exec: every program. Identity covers the values passed"};
  d.fams = {{"wasi", wasi, 40000, 1500000, 50}, {"load", load, 30000, 500000, 50}, {"exec", exec, 4000, 100000, 20}};
  d.assumptions = {"uvwasi itself is replaced by a stand-in with its documented prototypes that records calls (the library is not available here)", "pointers and lengths given to WASI functions lie inside the memory"};
  d.child_init = [] { int n; pwart_get_builtin_symbols(&n); }; return check_main(d, argc, argv);
}
