// C07: a loaded module is exactly the module its bytes encode.
#include "progcheck.h"
#include <sys/mman.h>

// Bytes in read-only pages that end where an unreadable page begins; unmapped right after loading.
struct Fenced {
  char *base = nullptr, *p = nullptr; size_t len = 0, maplen = 0;
  Fenced(const std::vector<uint8_t> &b, bool at_end) {
    size_t pg = 4096; len = b.size(); size_t n = (len + pg - 1) / pg * pg; if (!n) n = pg; maplen = n + 2 * pg;
    base = (char *)mmap(0, maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) throw std::runtime_error("mmap");
    mprotect(base + pg, n, PROT_READ | PROT_WRITE); p = at_end ? base + pg + n - len : base + pg; memcpy(p, b.data(), len); mprotect(base + pg, n, PROT_READ);
  }
  ~Fenced() { if (base) munmap(base, maplen); }
};
static std::string rname(Choices &c, size_t maxlen) {
  int k = (int)c.below(6); std::string s; size_t n = k == 0 ? 0 : k == 1 ? maxlen - c.below(3) : k == 2 ? c.below(maxlen + 1) : 1 + c.below(8); if (n > maxlen) n = maxlen;
  int style = (int)c.below(3);
  for (size_t i = 0; i < n; i++) s += style == 0 ? (char)('a' + c.below(3)) : style == 1 ? (char)c.range(1, 255) : "fmg0_.$/"[c.below(8)];
  return s;
}
struct HostObj { FuncInst *f = nullptr; GlobalInst *g = nullptr; MemInst *m = nullptr; TableInst *t = nullptr; void *p = nullptr; };
struct Req { std::string mod, field; uint32_t kind; };
struct Resolver { struct pwart_symbol_resolver base; struct pwart_host_module hm; std::vector<Import> *imps; std::vector<HostObj> *objs; std::vector<Req> log; };
static void answer(Resolver *r, struct pwart_symbol_resolve_request *q) {
  r->log.push_back({q->import_module, q->import_field, q->kind}); q->result = nullptr;
  for (size_t i = 0; i < r->imps->size(); i++) { auto &m = (*r->imps)[i]; if (m.mod == q->import_module && m.name == q->import_field && (uint32_t)m.kind == q->kind) { q->result = (*r->objs)[i].p; return; } }
}
static void res1(struct pwart_symbol_resolver *t, struct pwart_symbol_resolve_request *q) { answer((Resolver *)t, q); }
static void res2(struct pwart_host_module *t, struct pwart_symbol_resolve_request *q) { answer((Resolver *)((char *)t - offsetof(Resolver, hm)), q); }
static int hostno; static void host_id_fn(int k, void *sp) { pwart_rstack_put_i32(&sp, 7000000 + k); }
template <int N> static void hostid(void *sp) { host_id_fn(N, sp); }
static pwart_host_function_c HOSTF[8] = {hostid<0>, hostid<1>, hostid<2>, hostid<3>, hostid<4>, hostid<5>, hostid<6>, hostid<7>};

static void inst(Ctx &x) {
  Choices &c = x.c; auto mp = std::make_shared<Module>(); Module &m = *mp; Interp I;
  bool big = c.pct(8); struct pwart_global_compile_config gc; gc.stack_flags = (char)c.pct(75); gc.misc_flags = (char)(c.pct(80) ? 2 : 0) | (char)c.coin(); pwart_set_global_compile_config(&gc);
  // types: every function has a leading i32 result that identifies it
  int nt = (int)c.range(1, big ? 150 : 6); for (int i = 0; i < nt; i++) { FuncType t; int np = (int)c.below(5); for (int k = 0; k < np; k++) t.p.push_back(c.pick({I32, I64, F32, F64, FUNCREF, EXTERNREF})); t.r.push_back(I32); int nr = (int)c.below(3); for (int k = 0; k < nr; k++) t.r.push_back(c.pick({I32, I64, F64, EXTERNREF})); m.types.push_back(t); }
  // imports
  int route = (int)c.below(4); bool can_import = route != 3; std::vector<HostObj> objs; std::vector<Val> hvals;
  std::vector<GlobalInst *> hgl; std::string hostmod = rname(c, 240); if (hostmod == "pwart_builtin" || hostmod == "pwart_namespace_meta") hostmod = "x";
  if (can_import) { int ni = c.pct(30) ? 0 : (int)c.below(big ? 40 : 8); std::set<std::string> seen;
    for (int i = 0; i < ni; i++) {
      Import im; im.kind = (int)c.below(4); im.mod = route ? hostmod : rname(c, 250); if (im.mod == "pwart_builtin") im.mod = "y"; im.name = rname(c, 497 - im.mod.size() < 250 && c.coin() ? 497 - im.mod.size() : 200); if (im.mod.size() + im.name.size() > 497) im.name.resize(497 - im.mod.size());
      if (!seen.insert(im.mod + '\0' + im.name + (route == 2 ? "" : std::to_string(im.kind))).second) continue;
      HostObj o; switch (im.kind) {
        case K_FUNC: { im.type = (uint32_t)c.below(nt); if (m.types[im.type].r.size() != 1) m.types[im.type].r.resize(1); o.f = I.newfunc(); int h = (int)c.below(8); o.f->host = h; o.p = pwart_wrap_host_function_c(HOSTF[h]); break; }
        case K_GLOBAL: { im.g.t = c.pick({I32, I64, F32, F64, FUNCREF, EXTERNREF}); im.g.mut = c.pct(30); o.g = I.newglobal(im.g.t); o.g->b = isref(im.g.t) ? (im.g.t == EXTERNREF ? 0x5550 + c.below(9) * 16 : c.coin() ? 0 : (uint64_t)(uintptr_t)HOSTF[c.below(8)]) : interesting(c, im.g.t); if (vtsize(im.g.t) == 4) o.g->b = (uint32_t)o.g->b;
          if ((im.g.t == I32 || im.g.t == I64) && c.coin()) o.g->b = c.below(70000); o.p = calloc(1, 16); memcpy(o.p, &o.g->b, vtsize(im.g.t)); break; }
        case K_MEM: { im.m.min = (uint32_t)c.below(3); im.m.has_max = c.coin(); im.m.max = im.m.min + (uint32_t)c.below(3); im.m.is64 = c.pct(15); MemType real = im.m; real.min += (uint32_t)c.below(2); if (real.max < real.min) real.max = real.min; o.m = I.newmem(real); auto *q = (struct pwart_wasm_memory *)calloc(1, sizeof(struct pwart_wasm_memory)); q->initial = q->pages = real.min; q->maximum = real.has_max ? real.max : 32768; q->fixed = c.coin(); q->bytes = (uint8_t *)calloc(1, ((size_t)real.min << 16) + 16); o.p = q; break; }
        default: { im.t.t = c.pct(70) ? FUNCREF : EXTERNREF; im.t.min = (uint32_t)c.below(6); im.t.has_max = c.coin(); im.t.max = im.t.min + (uint32_t)c.below(5); TableType real = im.t; real.min += (uint32_t)c.below(5); o.t = I.newtable(real); auto *q = (struct pwart_wasm_table *)calloc(1, sizeof(struct pwart_wasm_table)); q->elem_type = real.t; q->initial = q->size = real.min; q->maximum = real.min; q->entries = (void **)calloc(real.min + 1, 8); for (uint32_t k = 0; k < real.min; k++) if (im.t.t == EXTERNREF && c.coin()) { o.t->e[k] = 0x7700 + k; q->entries[k] = (void *)o.t->e[k]; } o.p = q; }
      }
      m.imports.push_back(im); objs.push_back(o);
    } }
  m.index();
  for (size_t i = 0; i < m.imports.size(); i++) if (m.imports[i].kind == K_FUNC) objs[i].f->type = m.types[m.imports[i].type];
  // tables, memories
  for (int i = (int)c.below(big ? 6 : 3); i > 0; i--) { TableType t; t.t = c.pct(70) ? FUNCREF : EXTERNREF; t.min = c.pct(10) ? (uint32_t)c.range(200, 3000) : (uint32_t)c.below(12); t.has_max = c.coin(); t.max = t.min + (uint32_t)c.below(20); m.tables.push_back(t); }
  for (int i = (int)c.below(big ? 6 : 3); i > 0; i--) { MemType t; t.min = c.pct(5) ? (uint32_t)c.range(5, 40) : (uint32_t)c.below(3); t.has_max = c.coin(); t.max = t.min + (uint32_t)c.below(c.pct(5) ? 200 : 6); t.is64 = c.pct(20); m.mems.push_back(t); }
  int nf = (int)c.below(big ? 300 : 7); for (int i = 0; i < nf; i++) { Func f; f.type = (uint32_t)c.below(nt); m.funcs.push_back(f); }
  m.index(); uint32_t idfuncs = m.ftype.size(); 
  // globals with constant expressions
  auto cexpr = [&](VT t, int depth, auto &self) -> Code {
    std::vector<uint32_t> gs; for (uint32_t k = 0; k < m.gtype.size(); k++) if (m.gtype[k].t == t && !m.gtype[k].mut) gs.push_back(k);
    if (!gs.empty() && c.pct(40)) return {Instr(0x23, c.pick(gs))};
    if (depth && (t == I32 || t == I64) && c.pct(60)) { Code a = self(t, depth - 1, self), b = self(t, c.coin() ? depth - 1 : 0, self); a.insert(a.end(), b.begin(), b.end()); a.push_back(Instr((int)c.range(0, 2) + (t == I32 ? 0x6a : 0x7c))); return a; }
    switch (t) { case I32: return {Instr(0x41, 0, interesting(c, I32))}; case I64: return {Instr(0x42, 0, interesting(c, I64))}; case F32: return {Instr(0x43, 0, (uint32_t)interesting(c, F32))}; case F64: return {Instr(0x44, 0, interesting(c, F64))};
      case FUNCREF: if (idfuncs && c.pct(70)) return {Instr(0xd2, (uint32_t)c.below(idfuncs))}; default: return {Instr(0xd0, 0, t)}; } };
  int ng = (int)c.below(big ? 60 : 8); bool deep = false;
  for (int i = 0; i < ng; i++) { Global g; g.t.t = c.pick({I32, I64, F32, F64, FUNCREF, EXTERNREF}); g.t.mut = c.coin(); int d = c.pct(25) ? (int)c.range(1, 5) : 0; g.init = cexpr(g.t.t, d, cexpr);
    if ((g.t.t == I32 || g.t.t == I64) && c.pct(3)) { int n = (int)c.range(10, 120); deep = true; g.init.clear(); for (int k = 0; k < n; k++) g.init.push_back(Instr(g.t.t == I32 ? 0x41 : 0x42, 0, interesting(c, g.t.t))); for (int k = 1; k < n; k++) g.init.push_back(Instr((int)c.range(0, 2) + (g.t.t == I32 ? 0x6a : 0x7c))); }
    g.init.push_back(Instr(0x0b)); m.globals.push_back(g); m.index(); }
  // offsets: an expression for the value v
  auto offs = [&](uint64_t v, bool is64) -> Code { Code r; VT t = is64 ? I64 : I32; int cb = is64 ? 0x42 : 0x41, ab = is64 ? 0x7c : 0x6a;
    std::vector<std::pair<uint32_t, uint64_t>> gs; // immutable globals of the type with known value: computed through the interpreter later, imported ones only
    uint32_t gi = 0; for (size_t k = 0; k < m.imports.size(); k++) if (m.imports[k].kind == K_GLOBAL) { if (m.imports[k].g.t == t && !m.imports[k].g.mut) gs.push_back({gi, objs[k].g->b}); gi++; }
    if (!gs.empty() && c.pct(50)) { auto g = c.pick(gs); if (g.second == v && c.coin()) r = {Instr(0x23, g.first)}; else { uint64_t d = v - g.second; r = {Instr(0x23, g.first), Instr(cb, 0, d), Instr(ab)}; } }
    else if (c.pct(25)) { uint64_t k = interesting(c, t); if (c.coin()) r = {Instr(cb, 0, v + k), Instr(cb, 0, k), Instr(ab + 1)}; else r = {Instr(cb, 0, v), Instr(cb, 0, 1), Instr(ab + 2)}; }
    else r = {Instr(cb, 0, v)};
    r.push_back(Instr(0x0b)); return r; };
  // sizes of the real tables and memories
  std::vector<uint64_t> tsz, msz; { for (size_t k = 0; k < m.imports.size(); k++) { if (objs[k].t) tsz.push_back(objs[k].t->e.size()); if (objs[k].m) msz.push_back(objs[k].m->bytes.size()); } for (auto &t : m.tables) tsz.push_back(t.min); for (auto &t : m.mems) msz.push_back((uint64_t)t.min << 16); }
  for (int i = (int)c.below(big ? 12 : 5); i > 0; i--) {
    Elem s; int md = (int)c.below(6); s.mode = md == 0 ? 1 : md == 1 ? 3 : 0; if (s.mode == 0 && tsz.empty()) continue;
    uint64_t n; if (s.mode == 0) { s.table = (uint32_t)c.below(tsz.size()); s.t = m.ttype[s.table].t; uint64_t z = tsz[s.table]; uint64_t at = c.below(z + 1); n = c.coin() ? c.below(z - at + 1) : z - at; s.off = offs(at, false); } else { s.t = c.pct(70) ? FUNCREF : EXTERNREF; n = c.below(10); }
    s.exprs = c.coin(); s.flags = c.coin() ? (s.exprs ? 6 : 2) : -1;
    std::vector<uint32_t> rg; for (uint32_t k = 0; k < m.gtype.size(); k++) if (m.gtype[k].t == s.t && !m.gtype[k].mut) rg.push_back(k);
    for (uint64_t k = 0; k < n; k++) { int q = (int)c.below(10); if (s.exprs && q == 0) s.f.push_back(-1); else if (s.exprs && q <= 2 && !rg.empty()) s.f.push_back(-2 - (int64_t)c.pick(rg)); else if (s.t == FUNCREF && idfuncs) s.f.push_back((int64_t)c.below(idfuncs)); else s.f.push_back(-1); }
    m.elems.push_back(s);
  }
  for (int i = (int)c.below(big ? 12 : 5); i > 0 && !msz.empty(); i--) { Data s; s.mem = (uint32_t)c.below(msz.size()); s.flags = c.coin() ? 2 : -1; uint64_t z = msz[s.mem]; uint64_t n = c.pct(10) ? std::min<uint64_t>(z, c.below(70000)) : std::min<uint64_t>(z, c.below(40)); uint64_t at = c.pct(30) ? z - n : c.below(z - n + 1); s.off = offs(at, m.mtype[s.mem].is64); for (uint64_t k = 0; k < n; k++) s.bytes.push_back((uint8_t)(k < 64 ? c.below(256) : k * 7)); m.datas.push_back(s); }
  m.datacount = c.pct(30);
  // bodies: identify themselves; then accessors for everything, exported or not
  auto rest = [&](Code &co, const FuncType &t, const FuncType &own) { for (size_t k = 1; k < t.r.size(); k++) { int from = -1; for (size_t j = 0; j < own.p.size(); j++) if (own.p[j] == t.r[k]) from = (int)j; if (from >= 0) co.push_back(Instr(0x20, from)); else switch (t.r[k]) { case I32: co.push_back(Instr(0x41, 0, 1)); break; case I64: co.push_back(Instr(0x42, 0, 2)); break; case F64: co.push_back(Instr(0x44, 0, 0)); break; default: co.push_back(Instr(0xd0, 0, t.r[k])); } } };
  for (int i = 0; i < nf; i++) { Func &f = m.funcs[i]; FuncType t = m.types[f.type]; int nl = (int)c.below(5); for (int k = 0; k < nl; k++) f.locals.push_back(c.pick({I32, I32, I64, F32, F64, EXTERNREF})); f.code.push_back(Instr(0x41, 0, m.nif + i)); rest(f.code, t, t); f.code.push_back(Instr(0x0b)); }
  struct Acc { int kind; uint32_t idx; uint32_t fn; }; std::vector<Acc> acc;
  auto addf = [&](FuncType t, Code co, int kind, uint32_t idx) { co.push_back(Instr(0x0b)); Func f; f.type = m.addtype(t); f.code = co; m.funcs.push_back(f); m.index(); acc.push_back({kind, idx, (uint32_t)m.ftype.size() - 1}); };
  { uint32_t ngl = m.gtype.size(), ntb = m.ttype.size(), nme = m.mtype.size();
    for (uint32_t k = 0; k < ngl && k < 12; k++) addf({{}, {m.gtype[k].t}}, {Instr(0x23, k)}, K_GLOBAL, k);
    for (uint32_t k = 0; k < ntb; k++) addf({{I32}, {m.ttype[k].t}}, {Instr(0x20, 0), Instr(0x25, k)}, K_TABLE, k);
    for (uint32_t k = 0; k < nme; k++) addf({{I32}, {I32}}, m.mtype[k].is64 ? Code{Instr(0x20, 0), Instr(0xad), Instr(0x2d, k, 0, 0)} : Code{Instr(0x20, 0), Instr(0x2d, k, 0, 0)}, K_MEM, k);
    if (idfuncs) for (int q = 0; q < 3; q++) { uint32_t k = (uint32_t)c.below(idfuncs); FuncType t = m.types[m.ftype[k]]; Code co; for (auto p : t.p) switch (p) { case I32: co.push_back(Instr(0x41)); break; case I64: co.push_back(Instr(0x42)); break; case F32: co.push_back(Instr(0x43)); break; case F64: co.push_back(Instr(0x44)); break; default: co.push_back(Instr(0xd0, 0, p)); } co.push_back(Instr(0x10, k)); for (size_t j = 1; j < t.r.size(); j++) co.push_back(Instr(0x1a)); addf({{}, {I32}}, co, K_FUNC, k); } }
  // start
  std::vector<uint32_t> sf; { if (c.pct(35)) { FuncType v; uint32_t ty = m.addtype(v); Func f; f.type = ty; f.code = {Instr(0x0b)}; int n = (int)c.range(1, 3); for (int k = 0; k < n; k++) { m.funcs.push_back(f); m.index(); sf.push_back(m.ftype.size() - 1); } m.start = c.pick(sf); } }
  m.index();
  // exports: unique names
  std::set<std::string> used; std::map<uint32_t, std::string> fname; auto uniq = [&](std::string n) { while (used.count(n)) { n = n.size() >= 255 ? n.substr(0, 250) : n; n += (char)('a' + c.below(26)); } used.insert(n); return n; };
  for (auto &a : acc) { std::string n = uniq(strf("acc%u", a.fn)); m.exports.push_back({n, K_FUNC, a.fn}); }
  int ne = (int)c.below(big ? 300 : 14); for (int i = 0; i < ne; i++) { int k = (int)c.below(4); uint32_t n = k == K_FUNC ? m.ftype.size() : k == K_TABLE ? m.ttype.size() : k == K_MEM ? m.mtype.size() : m.gtype.size(); if (!n) continue; std::string nm; if (!m.exports.empty() && c.pct(30)) { nm = c.pick(m.exports).name; if (nm.size() < 254) nm += (char)c.range(1, 255); } else nm = rname(c, 255); m.exports.push_back({uniq(nm), k, (uint32_t)c.below(n)}); }
  for (size_t i = m.exports.size(); i > 1; i--) std::swap(m.exports[i - 1], m.exports[c.below(i)]);
  // bytes
  Encoder e; Choices &st = x.c; if (c.pct(75)) { e.style = &st; e.pad_pct = c.pick({0, 5, 30, 100}); e.custom_pct = c.pick({0, 0, 20, 50}); }
  auto bytes = e.module(m); x.dump(show(m)); x.dump(strf("route %d stack %d misc %d\nbytes %s\n", route, gc.stack_flags, gc.misc_flags, hexs(bytes, 20000).c_str()));
  // model
  std::vector<Interp::Ext> ext; for (auto &o : objs) { Interp::Ext q; q.f = o.f; q.g = o.g; q.m = o.m; q.t = o.t; ext.push_back(q); }
  for (auto &o : objs) if (o.t && o.t->t == FUNCREF) for (auto &w : o.t->e) w = 0;
  ModInst *mi = I.instantiate(mp, ext);
  // load
  Resolver R; R.base.resolve = res1; memset(&R.hm, 0, sizeof R.hm); R.hm.resolve = res2; R.imps = &m.imports; R.objs = &objs;
  pwart_module_state s = nullptr; pwart_namespace ns = nullptr; char *err = nullptr; std::vector<const char *> hn; std::vector<void *> hs; struct pwart_host_module *h2 = nullptr; std::string own = rname(c, 300); if (own == hostmod || own == "pwart_namespace_meta") own += "q";
  { Fenced fb(bytes, c.coin());
    if (route == 0) { pwart_module_compiler mc = pwart_new_module_compiler(); err = pwart_set_symbol_resolver(mc, &R.base); REQUIRE(!err, "set_symbol_resolver: %s", err); err = pwart_compile(mc, fb.p, (int)fb.len); REQUIRE(!err, "module refused: %s", err); s = pwart_get_module_state(mc); err = pwart_free_module_compiler(mc); REQUIRE(!err, "free_module_compiler: %s", err); }
    else if (route == 3) { s = (pwart_module_state)pwart_load_module(fb.p, (int)fb.len, &err); REQUIRE(s, "module refused: %s", err ? err : "?"); }
    else { ns = pwart_namespace_new(); if (route == 1) pwart_namespace_define_host_module(ns, hostmod.c_str(), &R.hm); else { for (size_t k = 0; k < m.imports.size(); k++) { hn.push_back(m.imports[k].name.c_str()); hs.push_back(objs[k].p); } h2 = pwart_namespace_new_host_module2(hn.data(), hs.data(), (int)hn.size()); pwart_namespace_define_host_module(ns, hostmod.c_str(), h2); }
      s = (pwart_module_state)pwart_namespace_define_wasm_module(ns, own.c_str(), fb.p, (int)fb.len, &err); REQUIRE(s, "module refused: %s", err ? err : "?"); } }
  if (route <= 1) { REQUIRE(R.log.size() == m.imports.size(), "%zu symbols were asked for, the module has %zu imports", R.log.size(), m.imports.size());
    for (size_t k = 0; k < R.log.size(); k++) REQUIRE(R.log[k].mod == m.imports[k].mod && R.log[k].field == m.imports[k].name && R.log[k].kind == (uint32_t)m.imports[k].kind, "import %zu asks for another name or kind than encoded", k); }
  // exports: exact name and kind
  auto look = [&](int kind, const char *n) -> void * { switch (kind) { case K_FUNC: return pwart_get_export_function(s, n); case K_TABLE: return pwart_get_export_table(s, n); case K_MEM: return pwart_get_export_memory(s, n); default: return pwart_get_export_global(s, n); } };
  char *stack = (char *)pwart_allocate_stack(65536); std::map<uint32_t, void *> fp; std::map<uint32_t, void *> gp, tp, mpn;
  auto uniqp = [&](std::map<uint32_t, void *> &mm, uint32_t idx, void *p, const char *what) { auto it = mm.find(idx); if (it != mm.end()) REQUIRE(it->second == p, "%s %u has two addresses", what, idx); else { for (auto &q : mm) REQUIRE(q.second != p || &mm == &fp, "%s %u and %u have the same address", what, idx, q.first); mm[idx] = p; } };
  for (auto &ex : m.exports) { void *p = look(ex.kind, ex.name.c_str()); REQUIRE(p, "export of kind %d with a name of %zu bytes is not found", ex.kind, ex.name.size());
    for (int k = 0; k < 4; k++) if (k != ex.kind) REQUIRE(!look(k, ex.name.c_str()), "an export of kind %d is found as kind %d", ex.kind, k);
    uniqp(ex.kind == K_FUNC ? fp : ex.kind == K_GLOBAL ? gp : ex.kind == K_TABLE ? tp : mpn, ex.idx, p, ex.kind == K_FUNC ? "function" : ex.kind == K_GLOBAL ? "global" : ex.kind == K_TABLE ? "table" : "memory");
    for (int q = 0; q < 3; q++) { std::string n = ex.name; int how = (int)c.below(5); if (how == 0 && !n.empty()) n.pop_back(); else if (how == 1 && n.size() < 255) n += 'z'; else if (how == 2 && !n.empty()) { size_t at = c.below(n.size()); n[at] = (char)(n[at] == 'q' ? 'r' : 'q'); } else if (how == 3 && !n.empty()) n = n.substr(1); else n = rname(c, 255); if (used.count(n)) continue; for (int k = 0; k < 4; k++) REQUIRE(!look(k, n.c_str()), "a name that is not exported is found (kind %d)", k); } }
  { std::string n = ""; if (!used.count(n)) for (int k = 0; k < 4; k++) REQUIRE(!look(k, ""), "the empty name is found"); }
  // import identity
  { uint32_t cf = 0, cg = 0, ct = 0, cm = 0; for (size_t k = 0; k < m.imports.size(); k++) { std::map<uint32_t, void *> &mm = m.imports[k].kind == K_FUNC ? fp : m.imports[k].kind == K_GLOBAL ? gp : m.imports[k].kind == K_TABLE ? tp : mpn; uint32_t idx = m.imports[k].kind == K_FUNC ? cf++ : m.imports[k].kind == K_GLOBAL ? cg++ : m.imports[k].kind == K_TABLE ? ct++ : cm++; if (mm.count(idx)) REQUIRE(mm[idx] == objs[k].p, "a re-exported import has another address than the imported object"); mm[idx] = objs[k].p; } }
  auto call = [&](void *fn, const FuncType &t, std::vector<Val> a) -> uint64_t { memset(stack, 0x77, 1024); void *sp = stack; for (auto &v : a) switch (v.t) { case I32: pwart_rstack_put_i32(&sp, (int)v.b); break; case I64: pwart_rstack_put_i64(&sp, v.b); break; case F32: pwart_rstack_put_f32(&sp, 0); break; case F64: pwart_rstack_put_f64(&sp, 0); break; default: pwart_rstack_put_ref(&sp, (void *)v.b); }
    pwart_call_wasm_function(fn, stack); sp = stack; if (t.r.empty()) return 0; switch (t.r[0]) { case I32: return (uint32_t)pwart_rstack_get_i32(&sp); case I64: return (uint64_t)pwart_rstack_get_i64(&sp); case F32: { uint32_t w; memcpy(&w, stack, 4); return w; } case F64: { uint64_t w; memcpy(&w, stack, 8); return w; } default: return (uint64_t)pwart_rstack_get_ref(&sp); } };
  auto fid = [&](uint32_t k) -> uint64_t { return k < m.nif ? 7000000 + mi->funcs[k]->host : k; };
  auto zeros = [&](const FuncType &t) { std::vector<Val> a; for (auto p : t.p) a.push_back({p, 0}); return a; };
  for (auto &q : fp) if (q.first < idfuncs) { auto &t = m.types[m.ftype[q.first]]; uint64_t g = call(q.second, t, zeros(t)); REQUIRE(g == fid(q.first), "export of function %u runs function %llu", q.first, (unsigned long long)g); }
  // a reference of the model (FuncInst* or a host code pointer) against a pwart entry
  auto same_ref = [&](uint64_t mref, uint64_t pref, VT t) -> bool {
    if (t == EXTERNREF || !mref || !pref) return mref == pref;
    for (uint32_t k = 0; k < mi->funcs.size(); k++) if ((uint64_t)(uintptr_t)mi->funcs[k] == mref) { if (fp.count(k)) return fp[k] == (void *)pref; auto &ty = m.types[m.ftype[k]]; bool ok = call((void *)pref, ty, zeros(ty)) == fid(k); return ok; }
    return mref == pref; };
  for (auto &q : gp) { auto *g = mi->globals[q.first]; uint64_t w = 0; memcpy(&w, q.second, vtsize(g->t)); REQUIRE(isref(g->t) ? same_ref(g->b, w, g->t) : w == g->b, "global %u (%s) starts as %#llx, %#llx expected", q.first, vtname(g->t), (unsigned long long)w, (unsigned long long)g->b); }
  for (auto &q : tp) { auto *t = mi->tables[q.first]; auto *p = (struct pwart_wasm_table *)q.second; REQUIRE(p->size == t->e.size(), "table %u has %u entries, %zu expected", q.first, p->size, t->e.size()); REQUIRE(p->elem_type == t->t, "table %u has element type %02x", q.first, p->elem_type);
    if (q.first >= m.nit) { auto &d = m.ttype[q.first]; REQUIRE(p->initial == d.min && (!d.has_max || p->maximum == d.max), "table %u reports limits %u %u, %u %u declared", q.first, p->initial, p->maximum, d.min, d.max); }
    for (size_t k = 0; k < t->e.size(); k++) REQUIRE(same_ref(t->e[k], (uint64_t)(uintptr_t)p->entries[k], t->t), "entry %zu of table %u is not the encoded one", k, q.first); }
  auto memcmpx = [&](uint32_t idx, const uint8_t *b) { auto *mm = mi->mems[idx]; if (mm->bytes.size() && memcmp(b, mm->bytes.data(), mm->bytes.size())) for (size_t k = 0; k < mm->bytes.size(); k++) REQUIRE(b[k] == mm->bytes[k], "byte %#zx of memory %u starts as %02x, %02x expected", k, idx, b[k], mm->bytes[k]); };
  for (auto &q : mpn) { auto *p = (struct pwart_wasm_memory *)q.second; REQUIRE(p->pages == mi->mems[q.first]->pages(), "memory %u has %u pages, %u expected", q.first, p->pages, mi->mems[q.first]->pages()); if (q.first >= m.nim) { auto &d = m.mtype[q.first]; REQUIRE(p->initial == d.min && (!d.has_max || p->maximum == d.max), "memory %u reports limits %u %u, %u %u declared", q.first, p->initial, p->maximum, d.min, d.max); REQUIRE(p->fixed == (d.has_max ? 1 : 0), "memory %u fixed=%d", q.first, p->fixed); } memcmpx(q.first, p->bytes); }
  // accessors: what the code itself sees
  for (auto &a : acc) { void *f = fp.count(a.fn) ? fp[a.fn] : nullptr; REQUIRE(f, "accessor not found"); auto &t = m.types[m.ftype[a.fn]];
    if (a.kind == K_GLOBAL) { uint64_t w = call(f, t, {}); auto *g = mi->globals[a.idx]; REQUIRE(isref(g->t) ? same_ref(g->b, w, g->t) : w == g->b, "global %u (%s) reads %#llx, %#llx expected", a.idx, vtname(g->t), (unsigned long long)w, (unsigned long long)g->b); }
    else if (a.kind == K_TABLE) { auto *tb = mi->tables[a.idx]; for (size_t k = 0; k < tb->e.size() && k < 64; k++) REQUIRE(same_ref(tb->e[k], call(f, t, {{I32, k}}), tb->t), "table.get %zu of table %u is not the encoded entry", k, a.idx); }
    else if (a.kind == K_MEM) { auto *mm = mi->mems[a.idx]; for (int k = 0; k < 24 && mm->bytes.size(); k++) { uint64_t at = c.below(mm->bytes.size()); if (k < 12) { std::vector<const Data *> ds; for (auto &d : m.datas) if (d.mem == a.idx && !d.bytes.empty()) ds.push_back(&d); if (!ds.empty()) { auto *d = c.pick(ds); uint64_t o = I.constexpr_(mi, d->off).b; at = o + (c.coin() ? c.below(d->bytes.size()) : c.coin() ? 0 : d->bytes.size() - 1); } } uint64_t g = call(f, t, {{I32, at}}); REQUIRE(g == mm->bytes[at], "the code reads %02llx at %#llx of memory %u, %02x expected", (unsigned long long)g, (unsigned long long)at, a.idx, mm->bytes[at]); } }
    else { uint64_t g = call(f, t, {}); REQUIRE(g == fid(a.idx), "call %u runs function %llu", a.idx, (unsigned long long)g); } }
  // start
  { void *f = pwart_get_start_function(s); if (m.start < 0) REQUIRE(!f, "a start function is reported for a module without one"); else { REQUIRE(f, "no start function reported"); if (fp.count((uint32_t)m.start)) REQUIRE(fp[(uint32_t)m.start] == f, "the start function is not function %lld", (long long)m.start); for (auto k : sf) if (k != (uint32_t)m.start && fp.count(k)) REQUIRE(fp[k] != f, "the start function is function %u", k); pwart_call_wasm_function(f, stack); } }
  // inspection
  { struct pwart_inspect_result1 q; char *e2 = pwart_inspect_module_state(s, &q); REQUIRE(!e2, "inspect: %s", e2);
    if (m.mtype.empty()) REQUIRE(q.memory_size == 0 && !q.memory, "inspect reports a memory"); else { REQUIRE((uint32_t)q.memory_size == mi->mems[0]->bytes.size(), "inspect: memory size %d", q.memory_size); memcmpx(0, (uint8_t *)q.memory); if (mpn.count(0)) REQUIRE(q.memory == ((struct pwart_wasm_memory *)mpn[0])->bytes, "inspect: other memory"); }
    if (m.ttype.empty()) REQUIRE(q.table_entries_count == 0, "inspect reports a table"); else { REQUIRE((size_t)q.table_entries_count == mi->tables[0]->e.size(), "inspect: %d table entries", q.table_entries_count); if (tp.count(0)) REQUIRE(q.table_entries == ((struct pwart_wasm_table *)tp[0])->entries, "inspect: other table"); }
    int gs = 0; for (uint32_t k = m.nig; k < m.gtype.size(); k++) gs += vtsize(m.gtype[k].t); REQUIRE(q.globals_buffer_size >= gs, "inspect: %d bytes of globals, %d needed", q.globals_buffer_size, gs);
    for (auto &g : gp) if (g.first >= m.nig) REQUIRE((char *)g.second >= (char *)q.globals_buffer && (char *)g.second + vtsize(m.gtype[g.first].t) <= (char *)q.globals_buffer + q.globals_buffer_size, "inspect: global %u lies outside the reported buffer", g.first);
    struct pwart_symbol_resolver *want = route == 0 ? &R.base : route == 3 ? nullptr : pwart_namespace_resolver(ns); REQUIRE(q.symbol_resolver == want, "inspect: wrong symbol resolver");
    if (c.coin()) { pwart_set_state_symbol_resolver(s, &R.base); pwart_inspect_module_state(s, &q); REQUIRE(q.symbol_resolver == &R.base, "set_state_symbol_resolver has no effect"); }
    void *ud = (void *)(uintptr_t)c.bits(40); REQUIRE(!pwart_module_state_get_user_data(s), "user data is not null at first"); pwart_module_state_set_user_data(s, ud); REQUIRE(pwart_module_state_get_user_data(s) == ud, "user data changed"); }
  if (ns) pwart_namespace_delete(ns); else pwart_free_module_state(s);
  if (h2) pwart_namespace_delete_host_module(h2);
  for (size_t k = 0; k < objs.size(); k++) { auto &o = objs[k]; if (o.m) free(((struct pwart_wasm_memory *)o.p)->bytes); if (o.t) free(((struct pwart_wasm_table *)o.p)->entries); if (!o.f) free(o.p); }
  pwart_free_stack(stack);
  x.nontrivial = m.exports.size() + m.elems.size() + m.datas.size() + m.globals.size() > 0; x.hash = hash_bytes(bytes, route);
  x.count(strf("route %d", route)); x.count("exports looked up", m.exports.size()); x.count("imports", m.imports.size()); x.count("element segments", m.elems.size()); x.count("data segments", m.datas.size()); if (deep) x.count("deep constant expression"); if (m.start >= 0) x.count("start function"); if (e.pad_pct) x.count("padded numbers"); if (e.custom_pct) x.count("custom sections");
  if (x.shm->nsamples < 3) { std::string t = show(m); x.sample = strf("route %d, pad %d%%\n", route, e.pad_pct) + (t.size() > 2400 ? t.substr(0, 2400) : t); }
}
// Whole programs under random legal encodings behave as the model says.
static void reencode(Ctx &x) {
  Choices &c = x.c; GenCfg g; g.refs = c.coin(); g.nmems = 1 + c.coin(); g.mem64 = c.pct(20); g.budget = 40; ProgOpt o; o.nmods = 1 + c.pct(30); o.ncalls = 3;
  Program P; std::vector<int> fg; std::map<std::string, int> feat; gen_program(x, P, g, o, fg, feat);
  for (auto &d : P.mods) { d.m->datacount = c.pct(30); Encoder e; e.style = &x.c; e.pad_pct = c.pick({5, 30, 100}); e.custom_pct = c.pick({0, 20, 50}); d.bytes = e.module(*d.m); }
  show_program(x, P); Exec e(P, x); e.fuel_global = fg; e.run(); account(x, P, e, feat, true);
}
int main(int argc, char **argv) {
  CheckDef d{"C07", "inst: a case is non-trivial when the module has at least one export, segment or global that is compared; reencode: a padded/custom-section encoding of a generated program whose calls were compared with the model; identity is the module bytes"};
  d.fams = {{"inst", inst, 250000, 6000000, 50}, {"reencode", reencode, 100000, 3000000, 50}};
  d.assumptions = {"wasm export names are compared as C strings (no NUL inside a name)"};
  return check_main(d, argc, argv);
}
