// C01: numeric, comparison and conversion operators.
#include "progcheck.h"

// One operator, its operands taken from chosen places, its result consumed in a chosen way, run on many operand tuples.
static void direct(Ctx &x) {
  Choices &c = x.c; Program P; auto m = std::make_shared<Module>();
  P.cfg_stack = c.pct(80); P.cfg_misc = 2 | (int)c.below(2);
  HostFn nop; P.host.push_back(nop);
  { Import i{"env", "h0", K_FUNC}; i.type = m->addtype(FuncType()); m->imports.push_back(i); }
  m->mems.push_back(MemType());
  static const VT nt[] = {I32, I64, F32, F64};
  auto tix = [](VT t) { return t == I32 ? 0 : t == I64 ? 1 : t == F32 ? 2 : 3; };
  // identity functions 1..4 and scratch globals 0..7
  for (VT t : nt) { FuncType ft; ft.p = {t}; ft.r = {t}; Func f; f.type = m->addtype(ft); f.code = {Instr(0x20, 0), Instr(0x0b)}; m->funcs.push_back(f); }
  for (int k = 0; k < 8; k++) { Global g; g.t = {nt[k & 3], true}; g.init = {Instr(nt[k & 3] == I32 ? 0x41 : nt[k & 3] == I64 ? 0x42 : nt[k & 3] == F32 ? 0x43 : 0x44), Instr(0x0b)}; m->globals.push_back(g); }
  static const int ldop[] = {0x28, 0x29, 0x2a, 0x2b}, stop[] = {0x36, 0x37, 0x38, 0x39}, cop[] = {0x41, 0x42, 0x43, 0x44};
  const auto &ops = numops(); std::string desc;
  int nf = (int)c.range(1, 3); struct FD { OpSig s; int n; bool cst[2]; uint64_t cv[2]; }; std::vector<FD> fd;
  Interp tmp;
  auto ok = [&](const OpSig &s, uint64_t a, uint64_t b) { std::vector<Val> S; S.push_back({s.a, a}); if (s.b != VOIDT) S.push_back({s.b, b}); try { tmp.numeric(s.op, S); return true; } catch (Discard &) { return false; } };
  auto draw = [&](const OpSig &s, VT t) { if (c.pct(45)) return aimed(c, s, t); if (is_trunc(s.op) && c.pct(70)) { int e = (int)c.below(66); double d = std::ldexp((double)(c.bits(53) | (1ull << 52)), e - 53); if (c.coin()) d = -d; return t == F32 ? Interp::b32((float)d) : Interp::b64(d); } return interesting(c, t); };
  for (int k = 0; k < nf; k++) {
    FD d; d.s = c.pick(ops); d.n = d.s.b == VOIDT ? 1 : 2; VT ty[2] = {d.s.a, d.s.b};
    FuncType ft; for (int j = 0; j < d.n; j++) ft.p.push_back(ty[j]);
    Func f; Code pre, code; std::vector<VT> L = ft.p; int src[2]; d.cst[0] = d.cst[1] = false; d.cv[0] = d.cv[1] = 0;
    auto local = [&](VT t) { L.push_back(t); return (uint32_t)L.size() - 1; };
    if (c.pct(30)) { int n = (int)c.range(1, 12); for (int j = 0; j < n; j++) { uint32_t z = local(nt[c.below(4)]); if (c.coin()) { code.push_back(Instr(0x20, z)); code.push_back(Instr(0x21, z)); } } }
    // operands underneath, checked afterwards through the results
    int nfill = c.pct(40) ? (int)c.range(1, 9) : 0; std::vector<VT> fill;
    for (int j = 0; j < nfill; j++) { VT t = nt[c.below(4)]; fill.push_back(t); if (c.coin()) code.push_back(Instr(cop[tix(t)], 0, interesting(c, t))); else { code.push_back(Instr(cop[tix(t)], 0, interesting(c, t))); uint32_t z = local(t); code.push_back(Instr(c.coin() ? 0x22 : 0x21, z)); if (code.back().op == 0x21) code.push_back(Instr(0x20, z)); } }
    for (int j = 0; j < d.n; j++) {
      VT t = ty[j]; int i = tix(t); src[j] = (int)c.below(10);
      switch (src[j]) {
        case 0: { for (int tries = 0;; tries++) { d.cst[j] = true; d.cv[j] = draw(d.s, t); if (j == 0 && d.n == 2) break; if (j == 0 ? ok(d.s, d.cv[0], 0) : d.cst[0] ? ok(d.s, d.cv[0], d.cv[1]) : (ok(d.s, 7, d.cv[1]) && ok(d.s, t == I32 ? 0x80000000u : 1ull << 63, d.cv[1])) || (isfloat(t))) break; if (tries > 20) { d.cv[j] = isfloat(t) ? Interp::b64(0) : 3; break; } }
          code.push_back(Instr(cop[i], 0, d.cv[j])); break; }
        case 1: code.push_back(Instr(0x20, j)); break;
        case 2: { uint32_t z = local(t); code.push_back(Instr(0x20, j)); code.push_back(Instr(0x22, z)); break; }
        case 3: { uint32_t z = local(t); pre.push_back(Instr(0x20, j)); pre.push_back(Instr(0x21, z)); code.push_back(Instr(0x20, z)); break; }
        case 4: pre.push_back(Instr(0x20, j)); pre.push_back(Instr(0x24, i + 4 * j)); code.push_back(Instr(0x23, i + 4 * j)); break;
        case 5: { uint32_t at = 8 * (uint32_t)c.below(100) + 4096 * j; pre.push_back(Instr(0x41, 0, at)); pre.push_back(Instr(0x20, j)); pre.push_back(Instr(stop[i], 0, 0, 0)); uint32_t off = c.coin() ? 0 : (uint32_t)c.below(at + 1);
          code.push_back(Instr(0x41, 0, at - off)); if (c.coin()) { uint32_t z = local(I32); code.push_back(Instr(0x22, z)); } code.push_back(Instr(ldop[i], 0, off)); break; }
        case 6: code.push_back(Instr(0x20, j)); code.push_back(Instr(0x10, 1 + i)); break;
        case 7: code.push_back(Instr(0x02, 0, t)); code.push_back(Instr(0x20, j)); if (c.coin()) { code.push_back(Instr(0x20, j)); code.push_back(Instr(0x1a)); code.push_back(Instr(0x41, 0, c.below(2))); code.push_back(Instr(0x0d, 0)); } code.push_back(Instr(0x0b)); break;
        case 8: code.push_back(Instr(0x20, j)); code.push_back(Instr(0x20, j)); code.push_back(Instr(0x41, 0, c.below(2))); code.push_back(Instr(0x1b)); break;
        case 9: code.push_back(Instr(0x20, j)); code.push_back(Instr(0x10, 0)); break;   // spilled across a call
      }
      if (j == 0 && d.n == 2 && c.pct(15)) { code.push_back(Instr(0x10, 0)); }
    }
    code.push_back(Instr(d.s.op)); VT r = d.s.r; int ri = tix(r);
    std::vector<VT> res; int use = (int)c.below(8);
    if (r != I32 && (use == 2 || use == 3)) use = 0;
    switch (use) {
      case 0: res = {r}; break;
      case 1: { uint32_t z = local(r); code.push_back(Instr(0x21, z)); if (c.coin()) code.push_back(Instr(0x10, 0)); code.push_back(Instr(0x20, z)); res = {r}; break; }
      case 2: code.push_back(Instr(0x04, 0, I64)); code.push_back(Instr(0x42, 0, 11)); code.push_back(Instr(0x05)); code.push_back(Instr(0x42, 0, 22)); code.push_back(Instr(0x0b)); res = {I64}; break;
      case 3: { uint32_t z = local(I32); code.push_back(Instr(0x21, z)); code.push_back(Instr(0x43, 0, 0x3f800000)); code.push_back(Instr(0x43, 0, 0x40000000)); code.push_back(Instr(0x20, z)); code.push_back(Instr(0x1b)); res = {F32}; break; }
      case 4: { uint32_t at = 8192 + 8 * (uint32_t)c.below(50); uint32_t z = local(r); code.push_back(Instr(0x21, z)); code.push_back(Instr(0x41, 0, at)); code.push_back(Instr(0x20, z)); code.push_back(Instr(0x10, 1 + ri)); code.push_back(Instr(0x1a)); code.push_back(Instr(0x20, z)); code.push_back(Instr(0x21, z)); code.push_back(Instr(0x1a)); code.push_back(Instr(0x20, z)); res = {r}; break; }
      case 5: code.push_back(Instr(0x10, 1 + ri)); res = {r}; break;
      case 6: code.push_back(Instr(0x24, ri)); code.push_back(Instr(0x23, ri)); res = {r}; break;
      case 7: { uint32_t z = local(r); code.push_back(Instr(0x22, z)); code.push_back(Instr(0x20, z)); res = {r, r}; break; }
    }
    std::vector<VT> all = fill; all.insert(all.end(), res.begin(), res.end()); ft.r = all;
    code.insert(code.begin(), pre.begin(), pre.end()); code.push_back(Instr(0x0b));
    f.type = m->addtype(ft); f.locals.assign(L.begin() + d.n, L.end()); f.code = code; m->funcs.push_back(f); fd.push_back(d);
    desc += strf("%s [sources", opname(d.s.op).c_str()); static const char *sn[] = {"const", "param", "tee", "local", "global", "load", "call", "block", "select", "spilled"};
    for (int j = 0; j < d.n; j++) { desc += std::string(" ") + sn[src[j]]; x.count(std::string("source ") + sn[src[j]]); } desc += strf("; %d values underneath; use %d] ", nfill, use); x.count(strf("use %d", use));
  }
  m->index();
  for (uint32_t i = 0; i < m->ftype.size(); i++) m->exports.push_back({"f" + std::to_string(i), K_FUNC, i});
  for (uint32_t i = 0; i < m->gtype.size(); i++) m->exports.push_back({"g" + std::to_string(i), K_GLOBAL, i});
  m->exports.push_back({"m0", K_MEM, 0});
  P.mods.push_back({"mod0", m}); show_program(x, P);
  Exec e(P, x); e.model_setup(); std::string err = e.load(); if (!err.empty()) FAIL("%s", err.c_str());
  int done = 0; uint64_t h = 1;
  for (int k = 0; k < nf; k++) { auto &d = fd[k]; int nt_ = (int)c.range(2, 10);
    for (int j = 0; j < nt_; j++) {
      uint64_t a = 0, b = 0; bool good = false;
      for (int tries = 0; tries < 6 && !good; tries++) { a = d.cst[0] ? d.cv[0] : draw(d.s, d.s.a); b = d.n < 2 ? 0 : d.cst[1] ? d.cv[1] : c.pct(10) && d.s.a == d.s.b ? (c.coin() ? a : isfloat(d.s.a) ? (c.coin() ? a ^ (d.s.a == F64 ? 1ull << 63 : 1ull << 31) : d.s.a == F64 ? a + 1 : (uint32_t)(a + 1)) : d.s.a == I64 ? 0 - a : (uint32_t)(0 - a)) : draw(d.s, d.s.b); good = ok(d.s, a, b); }
      if (!good) { if (!d.cst[0]) a = d.s.a == F32 ? Interp::b32(1) : d.s.a == F64 ? Interp::b64(1) : 7; if (!d.cst[1] && d.n == 2) b = isfloat(d.s.b) ? 0 : 3; if (!ok(d.s, a, b)) continue; }
      CallPlan cp; cp.mod = 0; cp.func = 5 + k; cp.args.push_back({d.s.a, a}); if (d.n == 2) cp.args.push_back({d.s.b, b}); cp.sp_off = (int)c.below(4) * 4;
      std::vector<Val> r; std::string w = strf("%s(%#llx, %#llx)", opname(d.s.op).c_str(), (unsigned long long)a, (unsigned long long)b);
      x.dump(w + "\n");
      try { e.model_call(cp, r); } catch (Discard &q) { x.count(std::string("tuple skipped: ") + q.why); break; }
      FuncInst *f = e.mi[0]->funcs[cp.func];
      auto pr = e.pwart_call((void *)(uintptr_t)e.f2code.at(f), f->type, cp.args, cp.sp_off, w);
      e.compare_results(w, r, pr); e.compare_traces(w); done++; h = mix64(h ^ a ^ mix64(b) ^ d.s.op);
      x.count(opname(d.s.op));
    }
  }
  x.evals = done ? done : 1; if (done) { x.nontrivial = true; x.hash = hash_bytes(P.mods[0].bytes, h); if (x.shm->nsamples < 3) x.sample = desc + strf("; %d operand tuples", done); }
}
static void trees(Ctx &x) {
  GenCfg g; g.w_num = 45; g.w_block = 2; g.w_call = 2; g.w_icall = 1; g.w_table = 0; g.w_ref = 0; g.w_bulk = 0; g.w_grow = 0; g.w_mem = 4; g.w_tail = 0; g.w_host = 1; g.refs = false; g.nfuncs = 3; g.ntables = 0; g.w_loop = 1; g.budget = 80;
  ProgOpt o; o.ncalls = 6; o.nhost = 2; o.reenter = false;
  program_case(x, g, o, [](const Stats &s) { for (auto &k : s.op) if (k.first >= 0x45 && (k.first <= 0xc4 || (k.first >= 0xfc00 && k.first <= 0xfc07))) return true; return false; });
}
int main(int argc, char **argv) {
  CheckDef d{"C01", "a case is non-trivial when at least one generated call that executes numeric operators completed in the reference model and in compiled code and its results were compared bit for bit; identity is the module bytes and the operand values"};
  d.fams = {{"direct", direct, 400000, 8000000, 200}, {"trees", trees, 400000, 8000000, 200}};
  d.assumptions = {"NaN sign and payload are unconstrained where the WebAssembly specification leaves them open", "saturating truncations are only tested in range (documented limitation)", "x86-64 code generator"};
  return check_main(d, argc, argv);
}
