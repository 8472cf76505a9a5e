// C08: unsupported or unresolvable modules are refused cleanly. Built with AddressSanitizer.
#include "progcheck.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();

static Instr raw(std::vector<uint32_t> b) { Instr i(RAWOP); i.tbl = b; return i; }
static Instr rawv(std::vector<int> b) { Instr i(RAWOP); for (int q : b) i.tbl.push_back((uint32_t)q); return i; }
// Bytes spliced into or appended to a section: the model cannot express them, so sections are assembled here.
struct Sec { int id; std::vector<uint8_t> b; };
static std::vector<Sec> split(const std::vector<uint8_t> &v) { std::vector<Sec> r; size_t p = 8; auto leb = [&]() { uint64_t x = 0; int s = 0; while (true) { uint8_t b = v.at(p++); x |= (uint64_t)(b & 0x7f) << s; s += 7; if (!(b & 0x80)) return x; } }; while (p < v.size()) { Sec s; s.id = v[p++]; size_t n = leb(); s.b.assign(v.begin() + p, v.begin() + p + n); p += n; r.push_back(s); } return r; }
static void putu(std::vector<uint8_t> &o, uint64_t v) { do { uint8_t b = v & 0x7f; v >>= 7; if (v) b |= 0x80; o.push_back(b); } while (v); }
static std::vector<uint8_t> join(const std::vector<Sec> &s) { std::vector<uint8_t> o{0, 'a', 's', 'm', 1, 0, 0, 0}; for (auto &q : s) { o.push_back((uint8_t)q.id); putu(o, q.b.size()); o.insert(o.end(), q.b.begin(), q.b.end()); } return o; }
// Appends one entry to a vector section (creating it in its place when it is missing).
static std::vector<uint8_t> addentry(const std::vector<uint8_t> &v, int id, const std::vector<uint8_t> &entry) {
  auto s = split(v); static const int order[] = {1, 2, 3, 4, 5, 13, 6, 7, 8, 9, 12, 10, 11}; auto rank = [&](int i) { for (int k = 0; k < 13; k++) if (order[k] == i) return k; return -1; };
  size_t at = s.size(); for (size_t k = 0; k < s.size(); k++) { if (s[k].id == id) { size_t p = 0; uint64_t n = 0; int sh = 0; while (true) { uint8_t b = s[k].b[p++]; n |= (uint64_t)(b & 0x7f) << sh; sh += 7; if (!(b & 0x80)) break; } std::vector<uint8_t> nb; putu(nb, n + 1); nb.insert(nb.end(), s[k].b.begin() + p, s[k].b.end()); nb.insert(nb.end(), entry.begin(), entry.end()); s[k].b = nb; return join(s); } if (s[k].id && rank(s[k].id) > rank(id)) { at = k; break; } }
  Sec n; n.id = id; putu(n.b, 1); n.b.insert(n.b.end(), entry.begin(), entry.end()); s.insert(s.begin() + at, n); return join(s);
}
struct Faulty { std::vector<uint8_t> bytes; std::string what; bool may_accept = false; };
// A copy of a good module with one thing the library cannot handle.
static Faulty spoil(Ctx &x, const Module &good, Exec &e) {
  Choices &c = x.c; Module m = good; Faulty f; std::vector<uint8_t> post; int postid = -1; auto enc = [&]() { Encoder en; if (c.pct(40)) { en.style = &x.c; en.pad_pct = c.pick({0, 30}); en.custom_pct = c.pick({0, 30}); } return en.module(m); };
  auto voidfn = [&]() { Func q; q.type = m.addtype({{}, {}}); q.code = {Instr(0x0b)}; m.funcs.push_back(q); m.index(); return (uint32_t)m.ftype.size() - 1; };
  auto inject = [&](Code ins, const char *what) {
    if (m.funcs.empty()) voidfn(); Func &q = m.funcs[c.below(m.funcs.size())]; size_t at = c.coin() ? 0 : c.below(q.code.size());
    f.may_accept = at != 0;                                     // elsewhere the code may be unreachable, where an instruction has no meaning
    q.code.insert(q.code.begin() + at, ins.begin(), ins.end()); f.what = what; };
  auto longname = [&](size_t n) { std::string s; for (size_t k = 0; k < n; k++) s += (char)('a' + k % 26); return s; };
  int kind = (int)c.below(45);
  // Segments before the failing one take effect as in the specification: keep them off memories and tables shared with others.
  if (kind == 26 || kind == 27) { std::vector<Data> ds; for (auto &d : m.datas) if (d.mode || d.mem >= m.nim) ds.push_back(d); m.datas = ds; std::vector<Elem> es; for (auto &q : m.elems) if (q.mode || q.table >= m.nit) es.push_back(q); m.elems = es; }
  switch (kind) {
    case 0: { std::vector<int> b{0xfd, 0x0c}; for (int k = 0; k < 16; k++) b.push_back((int)c.below(256)); b.push_back(0x1a); inject({rawv(b)}, "v128.const"); break; }
    case 1: inject({rawv({0x41, 1, 0xfd, 0x11, 0x1a})}, "i32x4.splat"); break;
    case 2: inject({rawv({0xfe, 0x03, 0x00})}, "atomic.fence"); break;
    case 3: inject({rawv({0x06, 0x40, 0x0b})}, "try"); break;
    case 4: inject({rawv({0x1f, 0x40, 0x00, 0x0b})}, "try_table"); break;
    case 5: inject({rawv({0xd0, 0x70, 0xd4, 0x1a})}, "ref.as_non_null"); break;
    case 6: inject({rawv({0x41, 0, 0xfb, 0x1c, 0x1a})}, "ref.i31"); break;
    case 7: inject({rawv({0xd0, 0x6d, 0xd0, 0x6d, 0xd3, 0x1a})}, "ref.eq"); break;
    case 8: { uint32_t ty = m.addtype({{}, {}}), fn = voidfn(); Instr i(RAWOP); i.tbl = {0xd2}; std::vector<uint8_t> t; putu(t, fn); t.push_back(0x14); putu(t, ty); for (auto q : t) i.tbl.push_back(q); inject({i}, "call_ref"); break; }
    case 9: { uint32_t ty = m.addtype({{}, {}}); Instr b(0x02, ty); b.b = 1; inject({b, Instr(0x0b)}, "block of a function type"); break; }
    case 10: { uint32_t ty = m.addtype({{I32}, {I32, I64}}); Instr b(c.coin() ? 0x02 : 0x03, ty); b.b = 1; inject({Instr(0x41), b, Instr(0x42), Instr(0x0b), Instr(0x1a), Instr(0x1a)}, "multi-value block"); break; }
    case 11: { uint32_t ty = m.addtype({{I32}, {}}); Instr b(0x04, ty); b.b = 1; inject({Instr(0x41), Instr(0x41), b, Instr(0x1a), Instr(0x05), Instr(0x1a), Instr(0x0b)}, "if with parameters"); break; }
    case 12: { Data d; d.mode = 1; d.bytes = {1, 2, 3}; m.datas.push_back(d); m.datacount = c.coin(); f.what = "passive data segment"; break; }
    case 13: { Data d; d.mode = 1; m.datas.push_back(d); m.datacount = true; if (m.mtype.empty()) { m.mems.push_back({}); m.index(); } inject({Instr(0x41), Instr(0x41), Instr(0x41), Instr(0xfc08, (uint32_t)m.datas.size() - 1, 0, 0)}, "memory.init"); f.may_accept = false; break; }
    case 14: { Data d; d.mode = 1; m.datas.push_back(d); m.datacount = true; inject({Instr(0xfc09, (uint32_t)m.datas.size() - 1)}, "data.drop"); f.may_accept = false; break; }
    case 15: { Elem s; s.mode = 1; s.f = {}; m.elems.push_back(s); if (m.ttype.empty()) { m.tables.push_back({}); m.index(); } uint32_t tb = 0; for (uint32_t k = 0; k < m.ttype.size(); k++) if (m.ttype[k].t == FUNCREF) tb = k; m.elems.back().t = m.ttype[tb].t; inject({Instr(0x41), Instr(0x41), Instr(0x41), Instr(0xfc0c, (uint32_t)m.elems.size() - 1, 0, tb)}, "table.init"); break; }
    case 16: { Elem s; s.mode = 1; m.elems.push_back(s); inject({Instr(0xfc0d, (uint32_t)m.elems.size() - 1)}, "elem.drop"); break; }
    case 17: { Import i{longname(c.range(200, 600)), "", K_FUNC}; i.name = longname(std::max<int64_t>(0, c.range(499, 700) - (int64_t)i.mod.size())); i.type = m.addtype({{}, {}}); m.imports.push_back(i); m.index(); f.what = "import name too long"; // breaks function indexes: the refusal comes first
      break; }
    case 18: { uint32_t fn = voidfn(); m.exports.push_back({longname(c.range(256, 900)), K_FUNC, fn}); f.what = "export name too long"; break; }
    case 19: { auto b = enc(); auto s = split(b); Sec q; q.id = 0; size_t n = c.range(501, 2000); putu(q.b, n); for (size_t k = 0; k < n; k++) q.b.push_back('x'); s.insert(s.begin() + c.below(s.size() + 1), q); f.bytes = join(s); f.what = "custom section name too long"; return f; }
    case 20: { FuncType t; size_t n = c.range(256, 1000); (c.coin() ? t.p : t.r).assign(n, c.pick({I32, I64, F64})); m.types.insert(m.types.begin() + m.types.size(), t); f.what = "more than 255 parameters or results"; break; }
    case 21: { uint32_t fn = voidfn(); m.funcs[fn - m.nif].locals.assign((size_t)c.range(50001, 70000), I64); f.what = "too many locals"; break; }
    case 22: { auto b = enc(); std::vector<uint8_t> en; static const int ks[] = {K_FUNC, K_TABLE, K_MEM, K_GLOBAL}; int k = ks[c.below(4)]; std::string mo = c.pick<std::string>({"env", "nosuch", "pwart_builtin", "pwart_namespace_meta", "mod0", ""}), na = c.pick<std::string>({"nosuch", "", "x99"}); putu(en, mo.size()); en.insert(en.end(), mo.begin(), mo.end()); putu(en, na.size()); en.insert(en.end(), na.begin(), na.end()); en.push_back((uint8_t)k);
      switch (k) { case K_FUNC: { if (m.types.empty()) { m.addtype({{}, {}}); b = enc(); } en.push_back(0); break; } case K_TABLE: en.insert(en.end(), {0x70, 0, 0}); break; case K_MEM: en.insert(en.end(), {0, 0}); break; default: en.insert(en.end(), {0x7f, 0}); } f.bytes = addentry(b, 2, en); f.what = strf("unresolved import of kind %d from %s", k, mo.c_str()); return f; }
    case 23: { std::vector<Import> ok; for (auto &d : e.P.mods) for (auto &ex : d.m->exports) { Import i{d.name, ex.name, (int)c.below(4)}; if (i.kind != ex.kind) ok.push_back(i); } if (ok.empty()) throw Discard{"no export to import with the wrong kind"}; Import i = c.pick(ok); i.type = m.addtype({{}, {}}); i.m.min = 0; i.t.min = 0; m.imports.push_back(i); m.index(); f.what = "import of an export with another kind"; break; }
    case 24: { if (e.P.hmems.empty()) { int at = -1; for (size_t k = 0; k < e.P.mods.size(); k++) for (auto &ex : e.P.mods[k].m->exports) if (ex.kind == K_MEM) { Import i{e.P.mods[k].name, ex.name, K_MEM}; i.m = e.P.mods[k].m->mtype[ex.idx]; i.m.min = e.mi[k]->mems[ex.idx]->pages() + (uint32_t)c.range(1, 5); i.m.max = i.m.min; m.imports.push_back(i); at = 1; break; } if (at < 0) throw Discard{"no memory to import"}; } else { Import i{"env", "m0", K_MEM}; i.m = e.P.hmems[0]; i.m.min = e.hm[0]->pages() + (uint32_t)c.range(1, 70000); i.m.max = i.m.min; m.imports.push_back(i); } m.index(); f.what = "imported memory too small"; break; }
    case 25: { bool ok = false; for (size_t k = 0; k < e.P.mods.size() && !ok; k++) for (auto &ex : e.P.mods[k].m->exports) if (ex.kind == K_TABLE) { Import i{e.P.mods[k].name, ex.name, K_TABLE}; i.t = e.P.mods[k].m->ttype[ex.idx]; i.t.min = (uint32_t)e.mi[k]->tables[ex.idx]->e.size() + (uint32_t)c.range(1, 5000); m.imports.push_back(i); ok = true; break; } if (!ok) throw Discard{"no table to import"}; m.index(); f.what = "imported table too small"; break; }
    case 26: { if (m.mtype.empty()) { m.mems.push_back({}); m.index(); } Data d; d.mem = (uint32_t)c.below(m.mtype.size()); uint64_t z; { uint32_t k = d.mem; if (k < m.nim) throw Discard{"imported memory"}; z = (uint64_t)m.mtype[k].min << 16; } int n = (int)c.range(1, 20); d.bytes.assign(n, 7); uint64_t at = c.coin() ? z - n + 1 + c.below(n + 5) : m.mtype[d.mem].is64 ? c.pick<uint64_t>({~0ull, ~0ull - n + 1, 1ull << 32, 1ull << 63}) : c.pick<uint64_t>({0xffffffff, 0x80000000, 0xffffffffu - n + 1}); d.off = {Instr(m.mtype[d.mem].is64 ? 0x42 : 0x41, 0, at), Instr(0x0b)}; if (at >= z + 1 && c.coin()) d.bytes.clear(); m.datas.push_back(d); f.what = "data segment out of bounds"; break; }
    case 27: { TableType t; t.min = (uint32_t)c.below(5); m.tables.push_back(t); m.index(); uint32_t fn = voidfn(); Elem s; s.table = (uint32_t)m.ttype.size() - 1; int n = (int)c.range(1, 4); s.f.assign(n, fn); s.off = {Instr(0x41, 0, c.coin() ? (uint32_t)(t.min - n + 1) + (t.min + 1u < (uint32_t)n ? (uint32_t)n : 0) : c.pick<uint64_t>({0xffffffff, 0x80000000u, 0xffffffffu - n + 1})), Instr(0x0b)}; s.exprs = c.coin(); m.elems.push_back(s); f.what = "element segment out of bounds"; break; }
    case 28: { f.bytes = enc(); f.bytes[c.below(4)] ^= 1 + c.below(255); f.what = "wrong magic"; return f; }
    case 29: { f.bytes = enc(); f.bytes[4 + c.below(4)] ^= 1 + c.below(255); f.what = "wrong version"; return f; }
    case 30: { f.bytes = enc(); f.bytes.resize(c.below(8)); f.what = "shorter than a header"; return f; }
    case 31: { auto b = enc(); std::vector<uint8_t> en{0x7b, 0, 0xfd, 0x0c}; for (int k = 0; k < 16; k++) en.push_back((uint8_t)k); en.push_back(0x0b); f.bytes = addentry(b, 6, en); f.what = "v128 global"; return f; }
    case 32: { auto b = enc(); f.bytes = addentry(b, 6, {0x6e, 0, 0x41, 0, 0xfb, 0x1c, 0x0b}); f.what = "global initialised by ref.i31"; return f; }
    case 33: { Global g; g.t = {I64, false}; int n = (int)c.range(300, 600); bool w = true; g.t.t = I64; for (int k = 0; k < n; k++) g.init.push_back(Instr(0x42, 0, c.bits(64))); for (int k = 1; k < n; k++) g.init.push_back(Instr(0x7c)); (void)w; g.init.push_back(Instr(0x0b)); m.globals.push_back(g); m.index(); f.what = "constant expression with too many operands"; break; }
    case 34: { uint32_t fn = voidfn(); Code &co = m.funcs[fn - m.nif].code; co.clear(); int n = (int)c.range(8200, 12000); for (int k = 0; k < n; k++) co.push_back(Instr(0x42, 0, k)); for (int k = 0; k < n; k++) co.push_back(Instr(0x1a)); co.push_back(Instr(0x0b)); f.what = "operand stack too deep"; break; }
    case 35: { auto b = enc(); f.bytes = addentry(b, 1, c.pick<std::vector<uint8_t>>({{0x5f, 1, 0x7f, 0}, {0x5e, 0x7f, 1}, {0x4e, 1, 0x60, 0, 0}, {0x50, 0, 0x60, 0, 0}})); f.what = "garbage collection type"; return f; }
    case 36: { auto b = enc(); f.bytes = addentry(b, 1, {0x60, 1, 0x63, 0x70, 0}); f.what = "typed reference parameter"; return f; }
    case 37: { auto b = enc(); f.bytes = addentry(b, 4, {0x40, 0, 0x70, 0, 1, 0xd0, 0x70, 0x0b}); f.what = "table with an initialiser"; return f; }
    case 38: { auto b = enc(); f.bytes = addentry(b, 4, {0x70, 4, 2}); f.what = "64-bit table"; return f; }
    case 39: { auto b = enc(); f.bytes = addentry(b, 5, {8, 2, 0}); f.what = "custom page size"; return f; }
    case 40: { uint32_t ty = m.addtype({{}, {}}); auto fn = voidfn(); m.funcs[fn - m.nif].code = {rawv({0x08, 0}), Instr(0x0b)}; auto b = enc(); std::vector<uint8_t> en{0}; putu(en, ty); f.bytes = addentry(b, 13, en); f.what = "tag and throw"; return f; }
    case 41: { auto b = enc(); uint32_t ty = (uint32_t)m.types.size(); b = addentry(b, 1, {0x60, 0, 0}); std::vector<uint8_t> en{3, 'e', 'n', 'v', 2, 'h', '0', 4, 0}; putu(en, ty); f.bytes = addentry(b, 2, en); f.what = "imported tag"; return f; }
    case 43: { MemType t; t.is64 = true; t.min = 1; m.mems.push_back(t); auto b = enc(); std::vector<uint8_t> en; bool mx = c.coin(); en.push_back(mx ? 5 : 4); uint64_t big = c.pick<uint64_t>({1ull << 32, (1ull << 32) + 1, 1ull << 48, 1ull << 40}); if (mx) { putu(en, c.coin() ? 1 : 1ull << 32); putu(en, big); } else putu(en, big); f.bytes = addentry(b, 5, en); f.what = "64-bit memory of 2^32 pages or more"; return f; }
    case 42: { FuncType t; t.p = {(VT)0x7b}; if (c.coin()) std::swap(t.p, t.r); m.types.push_back(t); Func q; q.type = (uint32_t)m.types.size() - 1; q.code = {Instr(0x00), Instr(0x0b)}; m.funcs.push_back(q); m.index(); f.what = "v128 in a function type"; break; }
    default: { uint32_t fn = voidfn(); m.funcs[fn - m.nif].locals = {I32, (VT)0x7b, I64}; f.what = "v128 local"; break; }
  }
  f.bytes = enc(); return f;
}
static void refuse(Ctx &x) {
  Choices &c = x.c; GenCfg g; g.budget = 30; g.nfuncs = 3; g.refs = c.coin(); g.start = c.coin(); ProgOpt o; o.nmods = 1 + (int)c.below(2); o.ncalls = 3; o.nhost = 3; o.reenter = false;
  Program P; std::vector<int> fg; std::map<std::string, int> feat; gen_program(x, P, g, o, fg, feat); show_program(x, P);
  { int k; pwart_get_builtin_symbols(&k); }
  Exec e(P, x); e.fuel_global = fg; e.model_setup(); std::string er = e.load(); if (!er.empty()) FAIL("%s", er.c_str()); e.compare_state("after loading");
  int done = 0; bool maps = c.pct(10);
  auto attempt = [&]() {
    Faulty f = spoil(x, *P.mods[c.below(P.mods.size())].m, e); x.dump("faulty module: " + f.what + "\n bytes " + hexs(f.bytes, 20000) + "\n");
    std::string nm = c.pick<std::string>({"faulty", "mod0", "mod1", "env"}); struct pwart_named_module before; memset(&before, 0, sizeof before); auto *b = pwart_namespace_find_module(e.ns, nm.c_str()); bool had = b != nullptr; if (b) before = *b;
    uint8_t *buf = (uint8_t *)malloc(f.bytes.size() ? f.bytes.size() : 1); memcpy(buf, f.bytes.data(), f.bytes.size()); int route = (int)c.below(4); char *err = (char *)1; pwart_module_state s = nullptr; size_t eb = 0; if (maps) eb = exec_bytes();
    size_t a0 = __sanitizer_get_current_allocated_bytes();
    if (route <= 1) { err = nullptr; s = (pwart_module_state)pwart_namespace_define_wasm_module(e.ns, nm.c_str(), (char *)buf, (int)f.bytes.size(), &err); }
    else if (route == 2) { pwart_module_compiler mc = pwart_new_module_compiler(); pwart_set_symbol_resolver(mc, pwart_namespace_resolver(e.ns)); err = pwart_compile(mc, (char *)buf, (int)f.bytes.size()); if (!err) s = pwart_get_module_state(mc); pwart_free_module_compiler(mc); }
    else { err = nullptr; s = (pwart_module_state)pwart_load_module((char *)buf, (int)f.bytes.size(), &err); }
    size_t a1 = __sanitizer_get_current_allocated_bytes();
    bool same = !memcmp(buf, f.bytes.data(), f.bytes.size()); free(buf); REQUIRE(same, "%s: loading changed the caller's bytes", f.what.c_str());
    if (s && f.may_accept) { x.count("accepted: instruction in unreachable code"); if (route > 1) pwart_free_module_state(s); else pwart_namespace_remove_module(e.ns, nm.c_str()); throw Discard{"instruction in unreachable code"}; }
    REQUIRE(!s, "%s: the module is accepted", f.what.c_str());
    REQUIRE(err && strnlen(err, 300) > 0 && strnlen(err, 300) < 300, "%s: no error message", f.what.c_str());
    REQUIRE(a0 == a1, "%s: refused with \"%s\", %zd bytes of heap memory not released", f.what.c_str(), err, (ssize_t)(a1 - a0));
    if (maps) { size_t e2 = exec_bytes(); REQUIRE(e2 == eb, "%s: refused with \"%s\", %zd bytes of executable memory not released", f.what.c_str(), err, (ssize_t)(e2 - eb)); }
    auto *b2 = pwart_namespace_find_module(e.ns, nm.c_str()); REQUIRE((b2 != nullptr) == had, "%s: the refused module's name %s in the namespace", f.what.c_str(), had ? "vanished" : "appeared"); if (had) REQUIRE(b2->type == before.type && b2->val.wasm == before.val.wasm && !strcmp(b2->name, nm.c_str()), "%s: the refused module disturbed the module of that name", f.what.c_str());
    x.count("refused: " + f.what); x.count(std::string("message: ") + err); done++;
    x.hash = hash_bytes(f.bytes, x.hash + 1); if (x.shm->nsamples < 3) x.sample += "faulty: " + f.what + " -> \"" + err + "\"\n";
  };
  int n = (int)c.range(1, 4); for (int k = 0; k < n; k++) attempt();
  e.compare_state("after refusals");
  for (size_t k = 0; k < P.mods.size(); k++) if (P.mods[k].m->start >= 0) { /* start functions run first, as users do */ std::vector<Val> a, r; try { for (size_t j = 0; j < P.mods.size(); j++) e.set_fuel((int)j, true); e.I.fuel = 100000; e.I.depth = 0; e.I.call(e.mi[k]->funcs[P.mods[k].m->start], a, r); } catch (Discard &) { x.nontrivial = done > 0; return; } for (size_t j = 0; j < P.mods.size(); j++) e.set_fuel((int)j, false); e.pwart_call(pwart_get_start_function(e.st[k]), FuncType(), {}, 0, "start"); e.compare_traces("start"); e.compare_state("start"); }
  int calls = 0; for (size_t k = 0; k < P.calls.size(); k++) { if (!e.step(k)) break; calls++; if (c.pct(30)) attempt(); }
  // the process can load and run further modules: the same module again in its own namespace
  { Exec *o = g_exec; Program Q = P; for (auto &cp : Q.calls) for (auto &v : cp.args) if (v.t == FUNCREF) v.b = 0; { Exec e2(Q, x); e2.fuel_global = fg; e2.run(); x.count("programs run after refusals", 1); x.count("calls compared", e2.steps_done); } g_exec = o; }
  x.count("calls compared", calls); x.nontrivial = done > 0;
}
int main(int argc, char **argv) {
  CheckDef d{"C08", "a case is non-trivial when at least one module with an injected unsupported feature, exceeded limit or unresolvable import was refused between loading and calling good modules whose behaviour is then compared with the model; identity is the bytes of the refused modules"};
  d.fams = {{"refuse", refuse, 50000, 2000000, 50}};
  d.assumptions = {"the faulty module is otherwise valid WebAssembly (under the proposal it uses); malformed binaries are outside the property", "allocations are counted by AddressSanitizer, executable memory by the process's rwx mappings"};
  return check_main(d, argc, argv);
}
