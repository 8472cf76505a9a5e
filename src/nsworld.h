// A world of namespaces, host modules and wasm modules, with a reference model beside it. Used by C09 and C10.
#pragma once
#include "runner.h"
#include "wasm.h"
#include "track.h"
extern "C" {
#include <pwart.h>
}
namespace {
struct Obj { int kind; int val = 0; bool alive = true; bool fixed = false; uint32_t pages = 1; Obj *slot[2] = {0, 0}; /* table entries: functions */ void *ptr = nullptr; std::string what; bool isref = false; void *ref = nullptr; };
struct NS;
struct Mod {
  int type = 0;            // 1 custom host, 2 host list of symbols, 3 host list of functions, 4 wasm, 5 built in meta
  std::string label; NS *ns = nullptr; std::map<std::pair<std::string, int>, Obj *> ex;
  std::vector<Obj *> item[4]; std::vector<Obj *> own; std::vector<int> owned_at[4];
  pwart_module_state st = nullptr; bool live = true; int64_t startobj = -1;
};
struct HostObj;
struct NS { pwart_namespace p = nullptr; std::map<std::string, Mod *> mods; std::set<std::string> ever; int no; };
struct World;
static World *W_;
struct HostObj {
  struct pwart_host_module base; World *w; Mod *m; int att = 0, det = 0, xatt = 0, xdet = 0; bool cb_a, cb_d; int beh_a = 0, beh_d = 0; pwart_namespace expect_ns = nullptr; std::string defname; int where = 0;
};
static void hid(int k, void *sp) { InPw out(0); pwart_rstack_put_i32(&sp, 500000 + k); }
template <int N> static void hfn(void *sp) { hid(N, sp); }
static pwart_host_function_c HF[] = {hfn<0>, hfn<1>, hfn<2>, hfn<3>, hfn<4>, hfn<5>, hfn<6>, hfn<7>, hfn<8>, hfn<9>, hfn<10>, hfn<11>, hfn<12>, hfn<13>, hfn<14>, hfn<15>};

struct World {
  Ctx &x; Choices &c; std::vector<std::unique_ptr<Obj>> objs; std::vector<std::unique_ptr<Mod>> all; std::vector<std::unique_ptr<NS>> nss; std::vector<std::unique_ptr<HostObj>> hosts;
  std::vector<struct pwart_host_module *> listhosts; std::vector<char **> garbage; std::vector<Mod *> loose;
  std::vector<std::unique_ptr<struct pwart_wasm_memory>> hmem; std::vector<std::unique_ptr<struct pwart_wasm_table>> htab; std::vector<std::unique_ptr<uint64_t>> hglob;
  std::map<struct pwart_host_module *, Mod *> lmod;      // list hosts by module model
  int nextid = 1; std::string log, pending; void *stk; int depth = 0; std::vector<void *> blocks;
  uint64_t nredef = 0, nfail = 0, nshare = 0, nrem = 0, ncb = 0, ndel = 0;
  World(Ctx &x) : x(x), c(x.c) { W_ = this; InPw in; stk = pwart_allocate_stack(1 << 16); }
  ~World() {}
  void say(const std::string &s) { log += s; log += "\n"; x.dump(s + "\n"); }
  void bad(const std::string &s) { if (pending.empty()) pending = s; }
  Obj *obj(int kind, const std::string &w) { objs.emplace_back(new Obj); objs.back()->kind = kind; objs.back()->what = w; return objs.back().get(); }
  const char *kn(int k) { static const char *n[] = {"func", "table", "mem", "global"}; return n[k]; }
  std::string name() { int k = (int)c.below(12); switch (k) { case 0: case 1: case 2: return "a"; case 3: case 4: return "b"; case 5: return "ab"; case 6: return ""; case 7: return "a.b"; case 8: return std::string(60 + c.below(3), 'n'); case 9: return "pwart_builtin"; case 10: return c.pct(30) ? "pwart_namespace_meta" : "A"; default: return "m" + std::to_string(c.below(x.thorough ? 60 : 25)); } }
  std::string field() { static const char *f[] = {"f", "g", "m", "t", "x", "", "ff", "this", "version", "f0"}; return f[c.below(10)]; }
  NS &ns() { std::vector<NS *> v; for (auto &n : nss) if (n->p) v.push_back(n.get()); return *c.pick(v); }
  bool anyns() { for (auto &n : nss) if (n->p) return true; return false; }
  // what an import resolves to; nullptr: nothing. 'skip' is set when it would be a dead object or is not defined by the documentation
  Obj *resolve(NS &n, const std::string &mod, const std::string &f, int kind, bool &skip, bool builtin) {
    skip = false; Obj *r = nullptr; auto it = n.mods.find(mod);
    if (it != n.mods.end()) { Mod *m = it->second; auto e = m->ex.find({f, kind}); if (e != m->ex.end()) r = e->second; else if (m->type == 2 || m->type == 5) for (int k = 0; k < 4; k++) if (m->ex.count({f, k})) skip = true; }
    if (r && !r->alive) skip = true;
    if (!r && builtin && mod == "pwart_builtin" && f == "version" && kind == K_FUNC) { static Obj v; v.kind = K_FUNC; v.val = 1; return &v; }
    return r;
  }
  // ---- host modules ----
  Obj *hostobj(int kind) {
    Obj *o = obj(kind, strf("host %s #%zu", kn(kind), objs.size()));
    switch (kind) {
      case K_FUNC: { int k = (int)c.below(16); o->val = 500000 + k; o->ptr = pwart_wrap_host_function_c(HF[k]); break; }
      case K_MEM: { hmem.emplace_back(new struct pwart_wasm_memory); auto *m = hmem.back().get(); memset(m, 0, sizeof *m); o->fixed = m->fixed = c.coin(); m->initial = m->pages = 1; m->maximum = o->fixed ? 1 : 6; m->bytes = (uint8_t *)calloc(1, 65536); o->val = nextid++; memcpy(m->bytes, &o->val, 4); o->ptr = m; break; }
      case K_TABLE: { htab.emplace_back(new struct pwart_wasm_table); auto *t = htab.back().get(); memset(t, 0, sizeof *t); t->elem_type = FUNCREF; t->initial = t->maximum = t->size = 2; t->entries = (void **)calloc(2, sizeof(void *)); o->slot[0] = hostobj(K_FUNC); t->entries[0] = o->slot[0]->ptr; o->ptr = t; break; }
      default: { hglob.emplace_back(new uint64_t(0)); o->val = nextid++; memcpy(hglob.back().get(), &o->val, 4); o->ptr = hglob.back().get(); } }
    return o;
  }
  void fill_host(Mod *m, bool mixed, bool funconly) { int n = (int)c.range(0, 6); for (int i = 0; i < n; i++) { std::string f = field(); int k = funconly ? 0 : (int)c.below(4); bool dup = false; for (int q = 0; q < 4; q++) if (m->ex.count({f, q})) dup = true; if (dup && (!mixed || m->ex.count({f, k}))) continue; m->ex[{f, k}] = hostobj(k); } }
  static void h_resolve(struct pwart_host_module *t, struct pwart_symbol_resolve_request *q) {
    InPw out(0); HostObj *h = (HostObj *)t; World *w = h->w; auto e = h->m->ex.find({q->import_field, (int)q->kind}); if (q->result) w->bad("host resolver called with a result already set"); if (e != h->m->ex.end()) q->result = e->second->ptr; }
  static void h_att(struct pwart_host_module *t) { InPw out(0); HostObj *h = (HostObj *)t; h->w->attached(h); }
  static void h_det(struct pwart_host_module *t) { InPw out(0); HostObj *h = (HostObj *)t; h->w->detached(h); }
  NS *byp(pwart_namespace p) { for (auto &n : nss) if (n->p == p) return n.get(); return nullptr; }
  std::string cur_name; NS *cur_ns = nullptr; HostObj *cur_det_obj = nullptr; bool deleting = false;
  void attached(HostObj *h) {
    h->att++; ncb++;
    if (!cur_ns || h->base.namespace2 != cur_ns->p) { bad(strf("on_attached of %s: namespace2 is not the namespace it was added to", h->m->label.c_str())); return; }
    auto *f = pwart_namespace_find_module(cur_ns->p, cur_name.c_str());
    if (!f || f->type != PWART_MODULE_TYPE_HOST_MODULE || f->val.host != &h->base) bad(strf("on_attached of %s runs before it can be found under '%s'", h->m->label.c_str(), cur_name.c_str()));
    if (h->beh_a && depth < 2) { depth++; NS *n = cur_ns; std::string keep = cur_name; n->mods[cur_name] = h->m; if (h->beh_a == 1) { std::string nm = "cb" + std::to_string(nextid++); define_list(*n, nm); } else { std::string nm = name(); if (nm != keep) remove(*n, nm); } cur_ns = n; cur_name = keep; depth--; }
  }
  void detached(HostObj *h) {
    h->det++; ncb++; if (h->base.namespace2 != h->expect_ns) bad(strf("on_detached of %s: namespace2 changed", h->m->label.c_str()));
    NS *n = cur_ns; if (!n) { bad("on_detached outside a removal"); return; }
    if (h->base.namespace2 == n->p) { auto *f = pwart_namespace_find_module(n->p, h->defname.c_str()); if (f && f->type == PWART_MODULE_TYPE_HOST_MODULE && f->val.host == &h->base && h->where == 1) bad(strf("on_detached of %s runs while it is still found in the namespace", h->m->label.c_str()));
      if (h->beh_d && depth < 2) { depth++; std::string keep = cur_name; if (h->beh_d == 1) { std::string nm = "cb" + std::to_string(nextid++); define_list(*n, nm); } else if (h->beh_d == 2) { std::string e; char *r; { InPw in; r = pwart_namespace_remove_module(n->p, h->defname.c_str()); } if (r) bad("removing a module again from on_detached reports an error"); } else { for (auto &k : n->ever) pwart_namespace_find_module(n->p, k.c_str()); }
        cur_ns = n; cur_name = keep; depth--; } }
  }
  void gone(NS &n, Mod *m) {     // the model of a module leaving
    if (m->type == 4) { for (auto *o : m->own) o->alive = false; m->live = false; }
    for (auto &h : hosts) if (h->m == m) { if (h->cb_d) h->xdet++; h->where--; }
  }
  void check_hosts(const char *after) {
    if (!pending.empty()) FAIL("%s (after %s)\n%s", pending.c_str(), after, log.c_str());
    for (auto &h : hosts) { if (h->att != h->xatt || h->det != h->xdet) FAIL("host module %s: %d attach and %d detach notifications, expected %d and %d, after %s\n%s", h->m->label.c_str(), h->att, h->det, h->xatt, h->xdet, after, log.c_str()); if (h->expect_ns && h->base.namespace2 != h->expect_ns) FAIL("host module %s: namespace2 is wrong after %s\n%s", h->m->label.c_str(), after, log.c_str()); }
  }
  void leave(NS &n, const std::string &nm) { auto it = n.mods.find(nm); if (it == n.mods.end()) return; Mod *m = it->second; n.mods.erase(it); gone(n, m); }
  void define_list(NS &n, const std::string &nm) {     // a module from a list
    bool fo = c.coin(); Mod *m; struct pwart_host_module *p; 
    all.emplace_back(new Mod); m = all.back().get(); m->type = fo ? 3 : 2; m->label = strf("list%zu", all.size()); fill_host(m, false, fo);
    size_t k = m->ex.size(); const char **names = (const char **)calloc(k + 1, sizeof *names); void **syms = (void **)calloc(k + 1, sizeof *syms); size_t i = 0; blocks.push_back(names); blocks.push_back(syms);
    for (auto &e : m->ex) { names[i] = strdup(e.first.first.c_str()); blocks.push_back((void *)names[i]); syms[i] = e.second->ptr; if (fo) for (int q = 0; q < 16; q++) if (e.second->val == 500000 + q) syms[i] = (void *)HF[q]; i++; }
    { InPw in; p = fo ? pwart_namespace_new_host_module(names, (pwart_host_function_c *)syms, (int)k) : pwart_namespace_new_host_module2(names, syms, (int)k); }
    listhosts.push_back(p); lmod[p] = m; say(strf("ns%d: define host list '%s' = %s (%zu %s)", n.no, nm.c_str(), m->label.c_str(), k, fo ? "functions" : "symbols"));
    place(n, nm, p, m, c.coin());
  }
  void place(NS &n, const std::string &nm, struct pwart_host_module *p, Mod *m, bool viadef) {
    bool was = n.mods.count(nm); if (was) nredef++; std::string kn = cur_name; NS *kns = cur_ns; cur_ns = &n; cur_name = nm;
    // model: the old one leaves, then the new one is there
    HostObj *h = nullptr; for (auto &q : hosts) if (&q->base == p) h = q.get();
    leave(n, nm); n.ever.insert(nm);
    pwart_namespace oldexp = h ? h->expect_ns : nullptr; (void)oldexp;
    struct Set { } s; (void)s;
    n.mods[nm] = m; m->ns = &n;
    if (h) { if (h->cb_a) h->xatt++; h->where++; h->defname = nm; }
    char buf[256]; snprintf(buf, sizeof buf, "%s", nm.c_str());
    if (h) h->expect_ns = nullptr;
    if (h) { // a detach of this very object happens before namespace2 is rewritten
      h->expect_ns = h->base.namespace2; if (!h->expect_ns) h->expect_ns = n.p; }
    if (viadef) { struct pwart_named_module q; q.name = buf; q.type = PWART_MODULE_TYPE_HOST_MODULE; q.val.host = p; char *e; { InPw in; e = pwart_namespace_define_module(n.p, &q); } if (e) bad(strf("pwart_namespace_define_module: %s", e)); memset(&q, 0x77, sizeof q); }
    else { InPw in; pwart_namespace_define_host_module(n.p, buf, p); }
    memset(buf, 'Z', sizeof buf);
    if (h) h->expect_ns = n.p;
    if (p->namespace2 != n.p) bad("namespace2 of a host module just defined is not its namespace");
    cur_ns = kns; cur_name = kn;
  }
  void define_custom(NS &n, const std::string &nm) {
    HostObj *h = nullptr; std::vector<HostObj *> v; for (auto &q : hosts) v.push_back(q.get());
    if (!v.empty() && c.pct(30)) { h = c.pick(v); auto it = n.mods.find(nm); bool same = it != n.mods.end() && it->second == h->m; if (h->where && !same) h = nullptr; }
    if (!h) { all.emplace_back(new Mod); Mod *m = all.back().get(); m->type = 1; m->label = strf("host%zu", all.size()); fill_host(m, true, false);
      hosts.emplace_back(new HostObj); h = hosts.back().get(); memset(&h->base, 0, sizeof h->base); h->w = this; h->m = m; h->base.resolve = h_resolve; h->cb_a = c.pct(80); h->cb_d = c.pct(80); if (h->cb_a) h->base.on_attached = h_att; if (h->cb_d) h->base.on_detached = h_det; h->beh_a = c.pct(15) ? (int)c.range(1, 2) : 0; h->beh_d = c.pct(25) ? (int)c.range(1, 3) : 0; }
    say(strf("ns%d: define host '%s' = %s%s%s", n.no, nm.c_str(), h->m->label.c_str(), h->beh_a ? " (attach acts)" : "", h->beh_d ? " (detach acts)" : ""));
    place(n, nm, &h->base, h->m, c.coin());
  }
  void remove(NS &n, const std::string &nm) {
    std::string kn = cur_name; NS *kns = cur_ns; cur_ns = &n; cur_name = nm; say(strf("ns%d: remove '%s'%s", n.no, nm.c_str(), n.mods.count(nm) ? "" : " (not there)")); if (n.mods.count(nm)) nrem++;
    leave(n, nm); char *e; { InPw in; e = pwart_namespace_remove_module(n.p, nm.c_str()); } if (e) bad(strf("pwart_namespace_remove_module: %s", e)); cur_ns = kns; cur_name = kn;
  }
  // ---- wasm modules ----
  // every index-space entry has accessors, exported under reserved names
  struct Built { std::vector<uint8_t> bytes; std::vector<Obj *> item[4]; std::vector<Obj *> own; std::vector<std::pair<std::pair<std::string, int>, Obj *>> ex; bool ok = true; bool skip = false; bool sizefail = false; };
  Built build(NS &n) {
    Built b; Module m; FuncType tv, ti, tp, tr; ti.r = {I32}; tp.p = {I32}; tr.r = {EXTERNREF}; uint32_t TI = m.addtype(ti), TP = m.addtype(tp), TR = m.addtype(tr);
    int ni = (int)c.below(c.pct(70) ? 6 : 2); bool failing = false;
    for (int i = 0; i < ni; i++) {
      Import im; im.kind = (int)c.below(4);
      // mostly something that is there
      std::vector<std::pair<std::string, std::pair<std::string, int>>> cand; for (auto &q : n.mods) for (auto &e : q.second->ex) if (e.second->alive) cand.push_back({q.first, e.first});
      if (!cand.empty() && c.pct(90)) { auto q = c.pick(cand); im.mod = q.first; im.name = q.second.first; im.kind = q.second.second; int mut = (int)c.below(20); if (mut == 0) im.kind = (int)c.below(4); else if (mut == 1) im.name = field(); else if (mut == 2) im.mod = name(); }
      else { im.mod = c.coin() || n.ever.empty() ? name() : *std::next(n.ever.begin(), c.below(n.ever.size())); im.name = field(); if (c.pct(60)) { im.mod = "pwart_builtin"; im.name = "version"; im.kind = c.pct(90) ? 0 : 2; } else if (c.coin()) { im.mod = "pwart_namespace_meta"; im.name = "this"; im.kind = K_GLOBAL; } }
      bool sk; Obj *o = resolve(n, im.mod, im.name, im.kind, sk, true); if (sk) continue;
      im.type = TI; im.m.min = 1; im.m.has_max = o && o->fixed; im.m.max = 1; im.t.t = FUNCREF; im.t.min = 2; im.g.t = o && o->isref ? EXTERNREF : I32; im.g.mut = true;
      if (o && o->kind == K_MEM) { im.m.min = 1 + (uint32_t)c.below(o->pages); im.m.max = std::max<uint32_t>(im.m.min, 6); if (c.pct(4)) { im.m.min = o->pages + 1; im.m.has_max = false; b.sizefail = true; failing = true; } }
      if (!o) failing = true; b.item[im.kind].push_back(o ? o : obj(im.kind, "missing"));
      m.imports.push_back(im);
    }
    m.index(); auto own = [&](int k, const char *w) { Obj *o = obj(k, w); b.item[k].push_back(o); b.own.push_back(o); return o; };
    int nm = (int)c.below(2) + (m.nim == 0), nt = (int)c.below(2), ng = (int)c.below(3), nfid = (int)c.range(1, 3);
    for (int i = 0; i < nfid; i++) { Obj *o = own(K_FUNC, "wasm func"); o->val = nextid++; Func f; f.type = TI; f.code = {Instr(0x41, 0, (uint32_t)o->val), Instr(0x0b)}; m.funcs.push_back(f); }
    for (int i = 0; i < nm; i++) { Obj *o = own(K_MEM, "wasm mem"); o->val = nextid++; MemType t; t.min = 1; o->fixed = t.has_max = c.coin(); t.max = t.min + (uint32_t)c.below(4); m.mems.push_back(t); Data d; d.mem = m.nim + i; d.off = {Instr(0x41, 0, 0), Instr(0x0b)}; d.bytes.resize(4); memcpy(d.bytes.data(), &o->val, 4); m.datas.push_back(d); o->pages = 1; }
    for (int i = 0; i < nt; i++) { Obj *o = own(K_TABLE, "wasm table"); TableType t; t.min = 2; t.has_max = c.coin(); t.max = 2; m.tables.push_back(t); Elem e; e.table = m.nit + i; uint32_t fi = (uint32_t)c.below(m.nif + nfid); e.off = {Instr(0x41, 0, 0), Instr(0x0b)}; e.f = {(int64_t)fi}; m.elems.push_back(e); o->slot[0] = b.item[K_FUNC][fi]; }
    for (int i = 0; i < ng; i++) { Obj *o = own(K_GLOBAL, "wasm global"); o->val = nextid++; Global g; g.t.t = I32; g.t.mut = true; g.init = {Instr(0x41, 0, (uint32_t)o->val), Instr(0x0b)}; m.globals.push_back(g); }
    m.index();
    auto addf = [&](const std::string &nmx, uint32_t ty, Code cd) { cd.push_back(Instr(0x0b)); Func f; f.type = ty; f.code = cd; m.funcs.push_back(f); m.exports.push_back({nmx, K_FUNC, m.nif + (uint32_t)m.funcs.size() - 1}); };
    for (uint32_t i = 0; i < m.mtype.size(); i++) { std::string s = std::to_string(i); addf("@lm" + s, TI, {Instr(0x41, 0, 0), Instr(0x28, i)}); addf("@sm" + s, TP, {Instr(0x41, 0, 0), Instr(0x20, 0), Instr(0x36, i)}); addf("@zm" + s, TI, {Instr(0x3f, i)}); addf("@gm" + s, TI, {Instr(0x41, 0, 1), Instr(0x40, i)}); }
    for (uint32_t i = 0; i < m.gtype.size(); i++) { std::string s = std::to_string(i); if (m.gtype[i].t == I32) { addf("@lg" + s, TI, {Instr(0x23, i)}); addf("@sg" + s, TP, {Instr(0x20, 0), Instr(0x24, i)}); } else addf("@rg" + s, TR, {Instr(0x23, i)}); }
    for (uint32_t i = 0; i < m.ttype.size(); i++) { std::string s = std::to_string(i); addf("@ct" + s, TI, {Instr(0x41, 0, 0), Instr(0x11, TI, 0, i)}); addf("@dt" + s, TI, {Instr(0x41, 0, 1), Instr(0x11, TI, 0, i)});
      for (uint32_t q = 0; q < m.nif + nfid; q++) addf("@st" + s + "_" + std::to_string(q), TP, {Instr(0x20, 0), Instr(0xd2, q), Instr(0x26, i)}); }
    for (uint32_t q = 0; q < m.nif + nfid; q++) addf("@cf" + std::to_string(q), TI, {Instr(0x10, q)});
    // exports under pool names: own or re-exported
    int ne = (int)c.range(0, 6); for (int i = 0; i < ne; i++) { int k = (int)c.below(4); if (b.item[k].empty()) continue; std::string f = field(); bool dup = false; for (auto &e : b.ex) if (e.first == std::make_pair(f, k)) dup = true; if (dup) continue; uint32_t ix = (uint32_t)c.below(b.item[k].size()); if (c.coin()) ix = (uint32_t)b.item[k].size() - 1; b.ex.push_back({{f, k}, b.item[k][ix]}); }
    if (!failing) for (auto &e : b.ex) { uint32_t ix = 0; for (size_t q = 0; q < b.item[e.first.second].size(); q++) if (b.item[e.first.second][q] == e.second) ix = (uint32_t)q; m.exports.push_back({e.first.first, e.first.second, ix}); }
    if (c.pct(20)) std::reverse(m.exports.begin(), m.exports.end());
    b.ok = !failing; b.bytes = encode(m); return b;
  }
  void define_wasm(NS &n, const std::string &nm) {
    Built b = build(n); int route = (int)c.below(4);   // 0,1 define_wasm_module; 2 compile and define_module; 3 compile, keep loose
    say(strf("ns%d: wasm '%s' route %d, %zu items imported or own, expected %s", n.no, nm.c_str(), route, b.item[0].size() + b.item[1].size() + b.item[2].size() + b.item[3].size(), b.ok ? "ok" : "fail"));
    // replacing a module this one imports from would leave it hanging on freed objects: such items become dead in the model
    std::vector<uint8_t> bytes = b.bytes; char *err = nullptr; pwart_module_state st = nullptr; std::string nmc = nm; 
    Mod *old = n.mods.count(nm) ? n.mods[nm] : nullptr; std::string kn2 = cur_name; NS *kns = cur_ns;
    if (route <= 1) { cur_ns = &n; cur_name = nm; if (b.ok) { if (old) nredef++; leave_expect(n, nm); } bool noerr = !route && !b.ok && c.coin(); InPw in; st = pwart_namespace_define_wasm_module(n.p, nmc.c_str(), (char *)bytes.data(), (int)bytes.size(), noerr ? nullptr : &err); }
    else { InPw in; pwart_module_compiler mc = pwart_new_module_compiler(); pwart_set_symbol_resolver(mc, pwart_namespace_resolver(n.p)); err = pwart_compile(mc, (char *)bytes.data(), (int)bytes.size()); if (!err) st = pwart_get_module_state(mc); pwart_free_module_compiler(mc); }
    memset(bytes.data(), 0xee, bytes.size()); memset(&nmc[0], 'q', nmc.size());
    cur_ns = kns; cur_name = kn2;
    if (!b.ok) { nfail++; REQUIRE(!st && (route <= 1 || err), "a module with an import that cannot be resolved was accepted\n%s", log.c_str()); check_hosts("a refused wasm module"); return; }
    REQUIRE(st, "a module whose imports can all be resolved was refused: %s\n%s", err ? err : "(no message)", log.c_str()); REQUIRE(!err, "loading succeeded but an error message was set: %s\n%s", err, log.c_str());
    all.emplace_back(new Mod); Mod *m = all.back().get(); m->type = 4; m->label = strf("wasm%zu", all.size()); m->st = st; m->own = b.own; for (int k = 0; k < 4; k++) m->item[k] = b.item[k]; for (auto &e : b.ex) m->ex[e.first] = e.second;
    for (auto *o : b.own) (void)o;
    // addresses of exported things: same object, same address
    for (auto &e : m->ex) { void *p = exported(m, e.first.first, e.first.second); REQUIRE(p, "export '%s' (%s) of %s is not found\n%s", e.first.first.c_str(), kn(e.first.second), m->label.c_str(), log.c_str()); bool was_alive = e.second->alive; if (e.second->ptr && was_alive) { REQUIRE(e.second->ptr == p, "re-exported %s '%s' is not the object that was imported\n%s", kn(e.first.second), e.first.first.c_str(), log.c_str()); nshare++; } else e.second->ptr = p; }
    if (route <= 1) { n.mods[nm] = m; m->ns = &n; n.ever.insert(nm); }
    else if (route == 2) { adopt(n, nm, m); }
    else { m->ns = nullptr; loose.push_back(m); }
  }
  void leave_expect(NS &n, const std::string &nm) { leave(n, nm); }
  void adopt(NS &n, const std::string &nm, Mod *m) {
    say(strf("ns%d: define_module '%s' = %s", n.no, nm.c_str(), m->label.c_str())); if (n.mods.count(nm)) nredef++;
    std::string kn2 = cur_name; NS *kns = cur_ns; cur_ns = &n; cur_name = nm; leave(n, nm); char buf[256]; snprintf(buf, sizeof buf, "%s", nm.c_str()); struct pwart_named_module q; q.name = buf; q.type = PWART_MODULE_TYPE_WASM_MODULE; q.val.wasm = m->st; char *e; { InPw in; e = pwart_namespace_define_module(n.p, &q); } memset(buf, 'Z', sizeof buf); cur_ns = kns; cur_name = kn2;
    REQUIRE(!e, "pwart_namespace_define_module: %s", e); n.mods[nm] = m; m->ns = &n; n.ever.insert(nm);
    for (int k : {K_MEM, K_TABLE}) if (!m->item[k].empty() && !m->item[k][0]->alive) return;      // the inspection looks at them
    struct pwart_inspect_result1 ir; pwart_inspect_module_state(m->st, &ir); REQUIRE(ir.symbol_resolver == pwart_namespace_resolver(n.p), "the resolver of an adopted module is not that of its namespace\n%s", log.c_str());
  }
  void *exported(Mod *m, const std::string &f, int k) { switch (k) { case K_FUNC: return pwart_get_export_function(m->st, f.c_str()); case K_TABLE: return pwart_get_export_table(m->st, f.c_str()); case K_MEM: return pwart_get_export_memory(m->st, f.c_str()); default: return pwart_get_export_global(m->st, f.c_str()); } }
  bool has(Mod *m, const std::string &a) { return pwart_get_export_function(m->st, a.c_str()) != nullptr; }
  int callv(Mod *m, const std::string &a, int arg = 0) { void *f = pwart_get_export_function(m->st, a.c_str()); REQUIRE(f, "accessor %s of %s is missing\n%s", a.c_str(), m->label.c_str(), log.c_str()); void *sp = stk; pwart_rstack_put_i32(&sp, arg); { InPw in; pwart_call_wasm_function(f, stk); } sp = stk; return pwart_rstack_get_i32(&sp); }
  void *callr(Mod *m, const std::string &a) { void *f = pwart_get_export_function(m->st, a.c_str()); REQUIRE(f, "accessor %s missing", a.c_str()); void *sp = stk; pwart_rstack_put_i64(&sp, 0); { InPw in; pwart_call_wasm_function(f, stk); } sp = stk; return pwart_rstack_get_ref(&sp); }
  std::vector<Mod *> live() { std::vector<Mod *> v; for (auto &m : all) if (m->type == 4 && m->live) v.push_back(m.get()); return v; }
  void observe(Mod *m) {
    auto eq = [&](const char *what, size_t i, int got, int want) { REQUIRE(got == want, "%s %zu of %s: %d, expected %d\n%s", what, i, m->label.c_str(), got, want, log.c_str()); };
    for (size_t i = 0; i < m->item[K_MEM].size(); i++) { Obj *o = m->item[K_MEM][i]; if (!o->alive) continue; eq("memory word of memory", i, callv(m, "@lm" + std::to_string(i)), o->val); eq("size of memory", i, callv(m, "@zm" + std::to_string(i)), (int)o->pages); }
    for (size_t i = 0; i < m->item[K_GLOBAL].size(); i++) { Obj *o = m->item[K_GLOBAL][i]; if (!o->alive) continue; if (o->isref) { REQUIRE(callr(m, "@rg" + std::to_string(i)) == o->ref, "pwart_namespace_meta.this read by %s is not its namespace\n%s", m->label.c_str(), log.c_str()); } else eq("global", i, callv(m, "@lg" + std::to_string(i)), o->val); }
    for (size_t i = 0; i < m->item[K_FUNC].size(); i++) { Obj *o = m->item[K_FUNC][i]; if (!o->alive) continue; eq("function", i, callv(m, "@cf" + std::to_string(i)), o->val); }
    for (size_t i = 0; i < m->item[K_TABLE].size(); i++) { Obj *o = m->item[K_TABLE][i]; if (!o->alive) continue; for (int s = 0; s < 2; s++) if (o->slot[s] && o->slot[s]->alive) eq("table entry of table", i, callv(m, (s ? "@dt" : "@ct") + std::to_string(i)), o->slot[s]->val); }
  }
  void mutate(Mod *m) {
    int k = (int)c.below(4); std::vector<size_t> v; int kind = k == 0 || k == 3 ? K_MEM : k == 1 ? K_GLOBAL : K_TABLE;
    for (size_t i = 0; i < m->item[kind].size(); i++) if (m->item[kind][i]->alive && !m->item[kind][i]->isref) v.push_back(i); if (v.empty()) return; size_t i = c.pick(v); Obj *o = m->item[kind][i]; std::string s = std::to_string(i);
    if (k == 0) { o->val = nextid++; callv(m, "@sm" + s, o->val); say(strf("%s stores %d in memory %zu", m->label.c_str(), o->val, i)); }
    else if (k == 3) { int r = callv(m, "@gm" + s); REQUIRE(r == -1 || r == (int)o->pages, "memory.grow returned %d for a memory of %u pages\n%s", r, o->pages, log.c_str()); if (r >= 0) o->pages++; say(strf("%s grows memory %zu: %d", m->label.c_str(), i, r)); }
    else if (k == 1) { o->val = nextid++; callv(m, "@sg" + s, o->val); say(strf("%s sets global %zu to %d", m->label.c_str(), i, o->val)); }
    else { std::vector<size_t> fs; for (size_t q = 0; q < m->item[K_FUNC].size(); q++) if (m->item[K_FUNC][q]->alive && has(m, "@st" + s + "_" + std::to_string(q))) fs.push_back(q); if (fs.empty()) return; size_t q = c.pick(fs); int sl = (int)c.below(2); o->slot[sl] = m->item[K_FUNC][q]; callv(m, "@st" + s + "_" + std::to_string(q), sl); say(strf("%s sets table %zu[%d] to function %zu", m->label.c_str(), i, sl, q)); }
  }
  void hostwrite() { // the host changes its own objects
    std::vector<Obj *> v; for (auto &o : objs) if (o->what.compare(0, 4, "host") == 0 && o->kind >= K_MEM) v.push_back(o.get()); if (v.empty()) return; Obj *o = c.pick(v); o->val = nextid++; if (o->kind == K_MEM) memcpy(((struct pwart_wasm_memory *)o->ptr)->bytes, &o->val, 4); else memcpy(o->ptr, &o->val, 4); say(strf("host writes %d to %s", o->val, o->what.c_str())); }
  void lookup(NS &n) {
    std::string f = field(), nm = name(); int k = (int)c.below(4); std::vector<std::pair<std::string, std::pair<std::string, int>>> cand; for (auto &q : n.mods) for (auto &e : q.second->ex) cand.push_back({q.first, e.first});
    if (!cand.empty() && c.pct(70)) { auto q = c.pick(cand); nm = q.first; f = q.second.first; k = c.pct(80) ? q.second.second : k; } bool sk; Obj *o = resolve(n, nm, f, k, sk, false);
    if (o && !o->alive) sk = false; else if (sk) return;
    struct pwart_symbol_resolve_request q; q.import_module = nm.c_str(); q.import_field = f.c_str(); q.kind = (uint32_t)k; q.result = nullptr; auto *r = pwart_namespace_resolver(n.p); r->resolve(r, &q);
    if (!o) REQUIRE(!q.result, "ns%d: '%s'.'%s' (%s) resolves to %p, nothing expected\n%s", n.no, nm.c_str(), f.c_str(), kn(k), q.result, log.c_str());
    else { REQUIRE(q.result, "ns%d: '%s'.'%s' (%s) does not resolve\n%s", n.no, nm.c_str(), f.c_str(), kn(k), log.c_str()); if (o->ptr && o->alive) REQUIRE(q.result == o->ptr, "ns%d: '%s'.'%s' (%s) resolves to %p instead of %p\n%s", n.no, nm.c_str(), f.c_str(), kn(k), q.result, o->ptr, log.c_str()); if (o->isref && o->alive) REQUIRE(*(void **)q.result == o->ref, "pwart_namespace_meta.this is not the namespace"); }
  }
  void find(NS &n, const std::string &nm) {
    auto *f = pwart_namespace_find_module(n.p, nm.c_str()); auto it = n.mods.find(nm);
    if (it == n.mods.end()) { REQUIRE(!f || f->type == 0, "ns%d: '%s' is found (type %d) but no live module has that name\n%s", n.no, nm.c_str(), f->type, log.c_str()); return; }
    Mod *m = it->second; REQUIRE(f, "ns%d: '%s' is not found\n%s", n.no, nm.c_str(), log.c_str()); REQUIRE(f->name && nm == f->name, "ns%d: the module found for '%s' is named '%s'\n%s", n.no, nm.c_str(), f->name, log.c_str());
    if (m->type == 4) REQUIRE(f->type == PWART_MODULE_TYPE_WASM_MODULE && f->val.wasm == m->st, "ns%d: '%s' is not the wasm module last defined (%s)\n%s", n.no, nm.c_str(), m->label.c_str(), log.c_str());
    else { REQUIRE(f->type == PWART_MODULE_TYPE_HOST_MODULE, "ns%d: '%s' is not a host module\n%s", n.no, nm.c_str(), log.c_str()); Mod *w = nullptr; for (auto &h : hosts) if (&h->base == f->val.host) w = h->m; if (lmod.count(f->val.host)) w = lmod[f->val.host]; if (m->type != 5) REQUIRE(w == m, "ns%d: '%s' is not the host module last defined (%s)\n%s", n.no, nm.c_str(), m->label.c_str(), log.c_str()); }
  }
  void new_ns() { nss.emplace_back(new NS); NS &n = *nss.back(); n.no = (int)nss.size(); { InPw in; n.p = pwart_namespace_new(); } REQUIRE(n.p, "pwart_namespace_new returned NULL"); all.emplace_back(new Mod); Mod *m = all.back().get(); m->type = 5; m->label = "meta"; Obj *o = obj(K_GLOBAL, "ns this"); o->isref = true; o->ref = n.p; m->ex[{"this", K_GLOBAL}] = o; m->own.push_back(o); n.mods["pwart_namespace_meta"] = m; n.ever.insert("pwart_namespace_meta"); say(strf("ns%d: new", n.no)); }
  void del_ns(NS &n) {
    say(strf("ns%d: delete", n.no)); ndel++; cur_ns = &n; cur_name = ""; deleting = true; std::vector<std::string> k; 
    while (!n.mods.empty()) { auto it = n.mods.begin(); Mod *m = it->second; n.mods.erase(it); gone(n, m); }
    for (auto &m : all) if (m->type == 5) for (auto *o : m->own) if (o->ref == n.p) o->alive = false;
    for (auto &h : hosts) if (h->where) (void)0;
    pwart_namespace p = n.p; char *e; { InPw in; e = pwart_namespace_delete(p); } cur_ns = nullptr; deleting = false; n.p = nullptr; REQUIRE(!e, "pwart_namespace_delete: %s", e);
    for (auto &h : hosts) if (h->expect_ns == p) h->expect_ns = nullptr;
    // modules defined by callbacks during the deletion are gone too
    for (auto &q : n.mods) gone(n, q.second);
    n.mods.clear(); }
  void finish() {
    std::vector<Mod *> l; for (auto *m : loose) if (m->live && !m->ns) l.push_back(m); for (auto *m : l) { pwart_free_module_state(m->st); for (auto *o : m->own) o->alive = false; m->live = false; }
    for (auto &n : nss) if (n->p) { del_ns(*n); check_hosts("deleting a namespace"); }
    for (auto *p : listhosts) pwart_namespace_delete_host_module(p); for (auto *b : blocks) free(b); for (auto &m : hmem) free(m->bytes); for (auto &t : htab) free(t->entries); pwart_free_stack(stk);
  }
};
}  // namespace

static void histories(Ctx &x) {
  Choices &c = x.c; World w(x); struct pwart_global_compile_config gc; gc.stack_flags = 1; gc.misc_flags = 2; pwart_set_global_compile_config(&gc);
  w.new_ns(); if (c.coin()) w.new_ns(); int n = (int)c.range(3, x.thorough ? 120 : 45);
  for (int i = 0; i < n; i++) {
    if (!w.anyns()) w.new_ns();
    NS &ns = w.ns(); int op = c.weighted({3, 12, 8, 30, 8, 6, 6, 14, 6, 2, 4}); const char *after = "?";
    switch (op) {
      case 0: if (w.nss.size() < 6) w.new_ns(); break;
      case 1: w.define_custom(ns, w.name()); after = "defining a host module"; break;
      case 2: w.define_list(ns, w.name()); after = "defining a host module list"; break;
      case 3: w.define_wasm(ns, w.name()); after = "loading a wasm module"; break;
      case 4: { std::string nm = w.name(); if (c.pct(70) && !ns.mods.empty()) nm = std::next(ns.mods.begin(), c.below(ns.mods.size()))->first; if (nm == "pwart_namespace_meta" && c.pct(80)) break; w.remove(ns, nm); after = "removing a module"; break; }
      case 5: w.find(ns, c.coin() ? w.name() : ns.ever.empty() ? "" : *std::next(ns.ever.begin(), c.below(ns.ever.size()))); break;
      case 6: w.lookup(ns); break;
      case 7: { auto v = w.live(); if (v.empty()) break; w.mutate(c.pick(v)); auto *m = c.pick(v); w.observe(m); break; }
      case 8: w.hostwrite(); break;
      case 9: if (c.pct(60)) { w.del_ns(ns); after = "deleting a namespace"; } break;
      case 10: { std::vector<Mod *> v; for (auto *m : w.loose) if (m->live && !m->ns) v.push_back(m); if (v.empty()) break; Mod *m = c.pick(v); if (c.pct(70)) w.adopt(ns, w.name(), m); else { pwart_free_module_state(m->st); for (auto *o : m->own) o->alive = false; m->live = false; w.say(m->label + " (loose) is freed"); } after = "adopting or freeing a loose module"; break; }
    }
    w.check_hosts(after);
  }
  for (auto &n : w.nss) if (n->p) { for (auto &k : n->ever) w.find(*n, k); for (int q = 0; q < 6; q++) w.lookup(*n); }
  for (auto *m : w.live()) w.observe(m);
  w.finish();
  x.count("redefinitions", w.nredef); x.count("refused imports", w.nfail); x.count("objects shared by re-export", w.nshare); x.count("removals", w.nrem); x.count("callbacks", w.ncb); x.count("namespaces deleted", w.ndel);
  x.nontrivial = w.nredef + w.nrem > 0 && w.all.size() > 4; uint64_t h = 1469598103934665603ull; for (char ch : w.log) h = (h ^ (unsigned char)ch) * 1099511628211ull; x.hash = h; if (x.shm->nsamples < 3) x.sample = w.log.substr(0, 2500);
}
