// C03: linear memory.
#include "progcheck.h"
static bool mem(const Stats &s) { return s.loads + s.stores + s.grows > 0 || s.op.count(0xfc0a) || s.op.count(0xfc0b); }
static GenCfg mcfg() { GenCfg g; g.w_mem = 30; g.w_bulk = 8; g.w_grow = 5; g.nmems = 3; g.w_block = 4; g.w_num = 8; g.w_local = 14; g.w_table = 0; g.w_ref = 0; g.refs = false; return g; }
static void memory(Ctx &x) { GenCfg g = mcfg(); ProgOpt o; o.ncalls = 6; program_case(x, g, o, mem); }
static void shared(Ctx &x) { GenCfg g = mcfg(); g.nmems = 4; g.w_call = 8; ProgOpt o; o.nmods = 2 + x.c.pct(30); o.ncalls = 8; program_case(x, g, o, mem); }
static void memory64(Ctx &x) { GenCfg g = mcfg(); g.mem64 = true; ProgOpt o; o.nmods = 1 + x.c.pct(30); o.ncalls = 6; program_case(x, g, o, mem); }
static void calls(Ctx &x) { GenCfg g = mcfg(); g.w_call = 12; g.w_icall = 5; g.w_host = 8; g.w_grow = 8; g.nmems = 2; g.w_tail = 3; g.w_loop = 4; ProgOpt o; o.nmods = 1 + x.c.pct(40); o.ncalls = 8; program_case(x, g, o, mem); }

// Large memories: single accesses anywhere in a 4 GB memory, the address split between index and offset.
struct Big { uint8_t *p; };
static uint8_t *big_area() {
  static uint8_t *p = nullptr; if (p) return p;
  size_t n = (size_t)4 << 30, gd = (size_t)8 << 30;      // 8 GB of inaccessible space on both sides
  p = (uint8_t *)mmap(0, n + 2 * gd, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { p = nullptr; throw Discard{"no address space"}; }
  mprotect(p + gd, n, PROT_READ | PROT_WRITE); madvise(p + gd, n, MADV_NOHUGEPAGE); p += gd; return p;
}
static void bigmem(Ctx &x) {
  Choices &c = x.c; Program P; auto m = std::make_shared<Module>(); bool is64 = c.pct(40); bool fixed = c.coin(); bool second = c.pct(30);
  P.cfg_stack = c.pct(80); P.cfg_misc = 2 | (int)c.below(2);
  struct Acc { int op; VT t; int size; bool st; };
  static const Acc A[] = {{0x28, I32, 4, 0}, {0x29, I64, 8, 0}, {0x2a, F32, 4, 0}, {0x2b, F64, 8, 0}, {0x2c, I32, 1, 0}, {0x2d, I32, 1, 0}, {0x2e, I32, 2, 0}, {0x2f, I32, 2, 0}, {0x30, I64, 1, 0}, {0x31, I64, 1, 0}, {0x32, I64, 2, 0}, {0x33, I64, 2, 0}, {0x34, I64, 4, 0}, {0x35, I64, 4, 0},
    {0x36, I32, 4, 1}, {0x37, I64, 8, 1}, {0x38, F32, 4, 1}, {0x39, F64, 8, 1}, {0x3a, I32, 1, 1}, {0x3b, I32, 2, 1}, {0x3c, I64, 1, 1}, {0x3d, I64, 2, 1}, {0x3e, I64, 4, 1}};
  VT it = is64 ? I64 : I32; uint32_t mi = 0;
  if (second) { MemType t; t.min = 1; Import i{"env", "m1", K_MEM}; i.m = t; m->imports.push_back(i); P.hmems.push_back(t); mi = 1; } 
  { MemType t; t.min = 60000; t.has_max = fixed; t.max = 65536; t.is64 = is64; Import i{"env", "m0", K_MEM}; i.m = t; m->imports.push_back(i); }
  Acc a = A[c.below(sizeof A / sizeof *A)];
  uint64_t len = 65536ull << 16, off, idx, at;
  auto point = [&]() -> uint64_t { switch (c.below(5)) { case 0: return c.bits(32); case 1: return 0x7fffffffull - 8 + c.below(17); case 2: return len - 16 + c.below(16); case 3: return (1ull << c.range(0, 31)) + c.below(3) - 1; default: return c.below(4096); } };
  at = point(); if (at + a.size > len) at = len - a.size;
  off = c.pct(30) ? 0 : point(); if (off > at) off = c.coin() ? at : c.below(at + 1);
  idx = at - off;
  int src = (int)c.below(6); Func f; Code pre, code; FuncType ft; ft.p = {it, a.t}; if (!a.st) ft.r = {a.t};
  std::vector<VT> L = ft.p; auto local = [&](VT t) { L.push_back(t); return (uint32_t)L.size() - 1; };
  HostFn nop; P.host.push_back(nop); { Import i{"env", "h0", K_FUNC}; i.type = m->addtype(FuncType()); m->imports.insert(m->imports.begin(), i); }
  { Global g; g.t = {it, true}; g.init = {is64 ? Instr(0x42) : Instr(0x41), Instr(0x0b)}; m->globals.push_back(g); }
  switch (src) {
    case 0: code.push_back(Instr(0x20, 0)); break;
    case 1: code.push_back(is64 ? Instr(0x42, 0, idx) : Instr(0x41, 0, idx)); break;
    case 2: { uint32_t z = local(it); pre.push_back(Instr(0x20, 0)); pre.push_back(Instr(0x21, z)); code.push_back(Instr(0x20, z)); break; }
    case 3: pre.push_back(Instr(0x20, 0)); pre.push_back(Instr(0x24, 0)); code.push_back(Instr(0x23, 0)); break;
    case 4: code.push_back(Instr(0x20, 0)); code.push_back(is64 ? Instr(0x42, 0, 1) : Instr(0x41, 0, 1)); code.push_back(Instr(is64 ? 0x7c : 0x6a)); code.push_back(is64 ? Instr(0x42, 0, 1) : Instr(0x41, 0, 1)); code.push_back(Instr(is64 ? 0x7d : 0x6b)); break;
    case 5: code.push_back(Instr(0x20, 0)); code.push_back(Instr(0x10, 0)); break;
  }
  uint32_t vsrc = 1; if (a.st && c.coin()) { vsrc = local(a.t); pre.push_back(Instr(0x20, 1)); pre.push_back(Instr(0x21, vsrc)); }
  if (a.st) code.push_back(Instr(0x20, vsrc)); code.push_back(Instr(a.op, mi, off, (uint32_t)c.below(__builtin_ctz(a.size) + 1)));
  code.insert(code.begin(), pre.begin(), pre.end()); code.push_back(Instr(0x0b));
  f.type = m->addtype(ft); f.locals.assign(L.begin() + 2, L.end()); f.code = code; m->funcs.push_back(f);
  FuncType s64; s64.r = {it}; Func sz; sz.type = m->addtype(s64); sz.code = {Instr(0x3f, mi), Instr(0x0b)}; m->funcs.push_back(sz);
  m->index(); m->exports.push_back({"f", K_FUNC, 1}); m->exports.push_back({"s", K_FUNC, 2});
  P.mods.push_back({"mod0", m}); show_program(x, P); x.dump(strf("access at %#llx = index %#llx + offset %#llx, %s\n", (unsigned long long)at, (unsigned long long)idx, (unsigned long long)off, opname(a.op).c_str()));
  // host side
  struct HM { struct pwart_host_module b; struct pwart_wasm_memory m0, m1; } h; memset(&h, 0, sizeof h);
  uint8_t *B = big_area(); h.m0.initial = 65536; h.m0.pages = 65536; h.m0.maximum = 65536; h.m0.bytes = B; h.m0.fixed = fixed;
  static uint8_t small[65536]; h.m1.initial = h.m1.pages = h.m1.maximum = 1; h.m1.bytes = small;
  h.b.resolve = [](struct pwart_host_module *t, struct pwart_symbol_resolve_request *r) { HM *q = (HM *)t; r->result = nullptr; if (!strcmp(r->import_field, "m0")) r->result = &q->m0; else if (!strcmp(r->import_field, "m1")) r->result = &q->m1; else if (!strcmp(r->import_field, "h0")) { static void *w = pwart_wrap_host_function_c(+[](void *) {}); r->result = w; } };
  struct pwart_global_compile_config gc; gc.stack_flags = P.cfg_stack; gc.misc_flags = P.cfg_misc; pwart_set_global_compile_config(&gc);
  pwart_namespace ns = pwart_namespace_new(); pwart_namespace_define_host_module(ns, "env", &h.b);
  auto bytes = encode(*m); char *err = nullptr; pwart_module_state st = pwart_namespace_define_wasm_module(ns, "mod0", (char *)bytes.data(), (int)bytes.size(), &err);
  REQUIRE(st, "module refused: %s", err ? err : "?");
  void *fn = pwart_get_export_function(st, "f"), *fs = pwart_get_export_function(st, "s"); REQUIRE(fn && fs, "exports not found");
  // window around the access, filled with known bytes, restored to zero afterwards
  uint64_t w0 = at > 64 ? at - 64 : 0, w1 = std::min(len, at + 64); uint8_t want[128]; for (uint64_t k = w0; k < w1; k++) want[k - w0] = B[k] = (uint8_t)mix64(k * 77 + c.rec.size());
  uint64_t v = interesting(c, a.t); if (vtsize(a.t) == 4) v = (uint32_t)v;
  uint64_t exp = 0;
  if (a.st) memcpy(want + (at - w0), &v, a.size);
  else { memcpy(&exp, want + (at - w0), a.size);
    switch (a.op) { case 0x2c: exp = (uint32_t)(int8_t)exp; break; case 0x2e: exp = (uint32_t)(int16_t)exp; break; case 0x30: exp = (int64_t)(int8_t)exp; break; case 0x32: exp = (int64_t)(int16_t)exp; break; case 0x34: exp = (int64_t)(int32_t)exp; break; } }
  char *stack = (char *)pwart_allocate_stack(65536); memset(stack, 0xc3, 65536); void *sp = stack + 64;
  if (is64) pwart_rstack_put_i64(&sp, (long long)idx); else pwart_rstack_put_i32(&sp, (int)(uint32_t)idx);
  switch (a.t) { case I32: pwart_rstack_put_i32(&sp, (int)v); break; case I64: pwart_rstack_put_i64(&sp, (long long)v); break; case F32: pwart_rstack_put_i32(&sp, (int)v); break; default: pwart_rstack_put_i64(&sp, (long long)v); }
  checked_call(fn, stack + 64);
  sp = stack + 64; uint64_t got = 0;
  if (!a.st) { if (vtsize(a.t) == 4) got = (uint32_t)pwart_rstack_get_i32(&sp); else got = (uint64_t)pwart_rstack_get_i64(&sp); }
  uint64_t bad = ~0ull; for (uint64_t k = w0; k < w1; k++) if (B[k] != want[k - w0] && bad == ~0ull) bad = k;
  sp = stack + 64; checked_call(fs, stack + 64); uint64_t pages = is64 ? (uint64_t)pwart_rstack_get_i64(&sp) : (uint32_t)pwart_rstack_get_i32(&sp);
  memset(B + w0, 0, w1 - w0); pwart_free_stack(stack); pwart_namespace_delete(ns);
  if (!a.st) REQUIRE(got == exp, "%s at %#llx (index %#llx + offset %#llx): %#llx expected, got %#llx", opname(a.op).c_str(), (unsigned long long)at, (unsigned long long)idx, (unsigned long long)off, (unsigned long long)exp, (unsigned long long)got);
  REQUIRE(bad == ~0ull, "%s at %#llx (index %#llx + offset %#llx): wrong byte at %#llx", opname(a.op).c_str(), (unsigned long long)at, (unsigned long long)idx, (unsigned long long)off, (unsigned long long)bad);
  REQUIRE(pages == 65536, "memory.size of 65536 pages is %llu", (unsigned long long)pages);
  x.nontrivial = true; x.hash = hash_bytes(bytes, idx * 31 + v); x.count(opname(a.op)); x.count(off >> 31 ? "offset of 2 GB or more" : "offset below 2 GB"); x.count(idx >> 31 ? "index of 2 GB or more" : "index below 2 GB");
  if (x.shm->nsamples < 3) x.sample = strf("%s %s memory, index %#llx + offset %#llx, index source %d", opname(a.op).c_str(), is64 ? "64-bit" : "32-bit", (unsigned long long)idx, (unsigned long long)off, src);
}
// Growth histories of own memories, observed by the host between the calls.
static void growth(Ctx &x) {
  Choices &c = x.c; Module m; m.mems.clear(); int nm = (int)c.range(1, 3);
  struct M { uint64_t pages, max; bool is64; std::map<uint64_t, uint8_t> data; }; std::vector<M> model;
  for (int k = 0; k < nm; k++) { MemType t; t.min = (uint32_t)c.below(4); t.has_max = c.coin(); t.max = t.min + (c.coin() ? (uint32_t)c.below(6) : (uint32_t)c.below(2000)); t.is64 = c.pct(25); m.mems.push_back(t); model.push_back({t.min, t.has_max ? t.max : 32768u, t.is64}); }
  for (int k = 0; k < nm; k++) { VT it = m.mems[k].is64 ? I64 : I32; FuncType g; g.p = {it}; g.r = {it}; Func f; f.type = m.addtype(g); f.code = {Instr(0x20, 0), Instr(0x40, k), Instr(0x0b)}; m.funcs.push_back(f);
    FuncType s; s.r = {it}; Func f2; f2.type = m.addtype(s); f2.code = {Instr(0x3f, k), Instr(0x0b)}; m.funcs.push_back(f2);
    FuncType w; w.p = {it, I32}; w.r = {I32}; Func f3; f3.type = m.addtype(w); f3.code = {Instr(0x20, 0), Instr(0x2d, k), Instr(0x20, 0), Instr(0x20, 1), Instr(0x3a, k), Instr(0x0b)}; m.funcs.push_back(f3); }
  m.index(); for (int k = 0; k < nm; k++) { m.exports.push_back({strf("g%d", k), K_FUNC, (uint32_t)k * 3}); m.exports.push_back({strf("s%d", k), K_FUNC, (uint32_t)k * 3 + 1}); m.exports.push_back({strf("w%d", k), K_FUNC, (uint32_t)k * 3 + 2}); m.exports.push_back({strf("m%d", k), K_MEM, (uint32_t)k}); }
  struct pwart_global_compile_config gc; gc.stack_flags = 1; gc.misc_flags = 2 | (int)c.below(2); pwart_set_global_compile_config(&gc);
  auto bytes = encode(m); char *err = nullptr; pwart_module_state st = pwart_load_module((char *)bytes.data(), (int)bytes.size(), &err); REQUIRE(st, "module refused: %s", err ? err : "?");
  char *stack = (char *)pwart_allocate_stack(65536); int n = (int)c.range(3, 25), grown = 0; std::string log;
  for (int k = 0; k < n; k++) {
    int i = (int)c.below(nm); M &q = model[i]; auto call = [&](char kind, uint64_t a, uint32_t v) { void *fn = pwart_get_export_function(st, strf("%c%d", kind, i).c_str()); REQUIRE(fn, "export not found"); void *sp = stack;
      if (kind != 's') { if (q.is64) pwart_rstack_put_i64(&sp, (long long)a); else pwart_rstack_put_i32(&sp, (int)(uint32_t)a); } if (kind == 'w') pwart_rstack_put_i32(&sp, (int)v);
      checked_call(fn, stack); sp = stack; return kind == 'w' || !q.is64 ? (uint64_t)(uint32_t)pwart_rstack_get_i32(&sp) : (uint64_t)pwart_rstack_get_i64(&sp); };
    int op = (int)c.below(4);
    if (op == 0) {
      uint64_t d = c.pct(60) ? c.below(5) : c.pct(60) ? c.below(600) : c.pick({32768u, 32769u, 65535u, 65536u, 65537u, 0x7fffffffu, 0x80000000u, 0xffffffffu}); if (q.is64 && c.pct(20)) d |= 1ull << c.range(32, 63);
      if (c.pct(15) && q.max >= q.pages && q.max < 3000) d = q.max - q.pages + c.below(2);      // exactly to the limit, or one beyond
      if (q.pages + d <= q.max && q.pages + d > 4000) continue;                                  // keep the process small
      bool ok = d <= q.max && q.pages + d <= q.max; uint64_t exp = ok ? q.pages : q.is64 ? ~0ull : 0xffffffffu; uint64_t got = call('g', d, 0);
      log += strf("grow m%d by %#llx; ", i, (unsigned long long)d); REQUIRE(got == exp, "memory.grow by %#llx of memory %d (%llu pages, at most %llu): %#llx expected, got %#llx\n%s", (unsigned long long)d, i, (unsigned long long)q.pages, (unsigned long long)q.max, (unsigned long long)exp, (unsigned long long)got, log.c_str());
      if (ok) { q.pages += d; if (d) grown++; }
    } else if (op <= 2 && q.pages) {
      uint64_t len = q.pages << 16, a = c.pct(40) ? len - 1 - c.below(std::min<uint64_t>(len, 70000)) : c.pct(50) && !q.data.empty() ? std::next(q.data.begin(), c.below(q.data.size()))->first : c.below(len); uint32_t v = (uint32_t)c.below(256);
      uint64_t got = call('w', a, v); uint8_t exp = q.data.count(a) ? q.data[a] : 0; log += strf("m%d[%#llx]=%u; ", i, (unsigned long long)a, v);
      REQUIRE(got == exp, "memory %d byte %#llx reads %llu, %u expected\n%s", i, (unsigned long long)a, (unsigned long long)got, exp, log.c_str()); q.data[a] = (uint8_t)v;
    }
    for (int j = 0; j < nm; j++) {
      auto *p = pwart_get_export_memory(st, strf("m%d", j).c_str()); REQUIRE(p, "memory not found"); i = j;
      REQUIRE(p->pages == model[j].pages, "memory %d has %u pages for the host, %llu expected\n%s", j, p->pages, (unsigned long long)model[j].pages, log.c_str());
      M &q = model[j]; uint64_t sz = [&] { void *fn = pwart_get_export_function(st, strf("s%d", j).c_str()); void *sp = stack; checked_call(fn, stack); return q.is64 ? (uint64_t)pwart_rstack_get_i64(&sp) : (uint64_t)(uint32_t)pwart_rstack_get_i32(&sp); }();
      REQUIRE(sz == q.pages, "memory.size of memory %d is %llu, %llu expected\n%s", j, (unsigned long long)sz, (unsigned long long)q.pages, log.c_str());
      for (auto &d : q.data) REQUIRE(p->bytes[d.first] == d.second, "memory %d byte %#llx is %u, %u expected\n%s", j, (unsigned long long)d.first, p->bytes[d.first], d.second, log.c_str());
      if (op == 0) { uint64_t len = q.pages << 16; for (int z = 0; z < 8 && len; z++) { uint64_t a = z < 2 ? len - 1 - z : mix64(k * 8 + z) % len; if (!q.data.count(a)) REQUIRE(p->bytes[a] == 0, "memory %d byte %#llx is %u after growing, 0 expected\n%s", j, (unsigned long long)a, p->bytes[a], log.c_str()); } }
    }
  }
  if (grown && !model.empty()) for (int j = 0; j < nm; j++) { auto *p = pwart_get_export_memory(st, strf("m%d", j).c_str()); uint64_t len = model[j].pages << 16, nz = 0; if (len > (8u << 20)) continue; for (uint64_t a = 0; a < len; a++) if (p->bytes[a] && !(model[j].data.count(a) && model[j].data[a] == p->bytes[a])) nz = a + 1; REQUIRE(!nz, "memory %d byte %#llx is not zero\n%s", j, (unsigned long long)nz - 1, log.c_str()); }
  pwart_free_stack(stack); pwart_free_module_state(st);
  if (grown) { x.nontrivial = true; x.hash = hash_bytes(std::vector<uint8_t>(log.begin(), log.end()), hash_bytes(bytes)); if (x.shm->nsamples < 3) x.sample = log; }
  x.count("successful grows", grown);
}
int main(int argc, char **argv) {
  CheckDef d{"C03", "a case is non-trivial when a compared call loads, stores, grows, copies or fills (growth: at least one successful grow); every memory is compared byte for byte after every call (bigmem: a 128-byte window around the access in a 4 GB memory); identity is the module bytes and arguments"};
  d.fams = {{"memory", memory, 100000, 3000000, 50}, {"shared", shared, 50000, 1500000, 50}, {"memory64", memory64, 60000, 2000000, 50}, {"calls", calls, 60000, 2000000, 50}, {"bigmem", bigmem, 60000, 1500000, 200}, {"growth", growth, 12000, 300000, 50}};
  d.assumptions = {"accesses inside the current memory size only (PWART does not check bounds)", "memories without a declared maximum grow up to 32768 pages", "memories declared with a maximum grow in place up to it"};
  return check_main(d, argc, argv);
}
