// Reference semantics: an interpreter over the module model, written from the WebAssembly specification.
// Traps, fuel exhaustion and results the specification leaves open (NaN payloads) end the case as a discard
// before any compiled code runs.
#pragma once
#include "wasm.h"
#include "runner.h"
#include <cmath>
#include <map>
#include <memory>
#include <unordered_map>

struct Val { VT t = I32; uint64_t b = 0; bool taint = false; };   // taint: NaN whose sign and payload are not determined

struct ModInst;
struct FuncInst { ModInst *mod = nullptr; uint32_t idx = 0; int host = -1; FuncType type; };
struct MemInst { std::vector<uint8_t> bytes; uint64_t max = 65536; bool is64 = false;
  uint32_t pages() const { return bytes.size() >> 16; } };
struct TableInst { std::vector<uint64_t> e; VT t = FUNCREF; };
struct GlobalInst { VT t; uint64_t b = 0; bool taint = false; };

struct Ctl2 { uint32_t end, els; };       // matching end / else index per block instruction
struct ModInst {
  std::shared_ptr<Module> m;
  std::vector<FuncInst *> funcs; std::vector<TableInst *> tables; std::vector<MemInst *> mems; std::vector<GlobalInst *> globals;
  std::vector<std::vector<Ctl2>> ctl;
};
struct HostCall { int host; std::vector<Val> args, res; uint32_t modid; };

struct Stats { uint64_t ops = 0, calls = 0, indirect = 0, branches = 0, loops = 0, loads = 0, stores = 0, grows = 0, tables = 0, hostcalls = 0, tail = 0, floats = 0, maxdepth = 0; std::map<int, uint64_t> op; };

// A store with the model objects of one case.
struct Interp {
  std::vector<std::unique_ptr<FuncInst>> fpool; std::vector<std::unique_ptr<MemInst>> mpool;
  std::vector<std::unique_ptr<TableInst>> tpool; std::vector<std::unique_ptr<GlobalInst>> gpool;
  std::vector<std::unique_ptr<ModInst>> mods;
  uint64_t fuel = 200000; int depth = 0, maxdepth = 60; uint64_t frames = 0;
  bool allow_oob = false;
  Stats st;
  std::function<void(Interp &, FuncInst *, const std::vector<Val> &, std::vector<Val> &)> host;

  FuncInst *newfunc() { fpool.emplace_back(new FuncInst); return fpool.back().get(); }
  MemInst *newmem(const MemType &t) { mpool.emplace_back(new MemInst); auto *m = mpool.back().get(); m->bytes.assign((size_t)t.min << 16, 0);
    m->max = t.has_max ? t.max : 32768; m->is64 = t.is64; return m; }
  TableInst *newtable(const TableType &t) { tpool.emplace_back(new TableInst); auto *x = tpool.back().get(); x->e.assign(t.min, 0); x->t = t.t; return x; }
  GlobalInst *newglobal(VT t) { gpool.emplace_back(new GlobalInst); gpool.back()->t = t; return gpool.back().get(); }

  // ext: resolved imports in order
  struct Ext { FuncInst *f = nullptr; TableInst *t = nullptr; MemInst *m = nullptr; GlobalInst *g = nullptr; };
  Val constexpr_(ModInst *mi, const Code &c) {
    std::vector<Val> S;
    auto bin = [&](VT t, int op) { Val b = S.back(); S.pop_back(); Val a = S.back(); S.pop_back(); uint64_t r = op == 0 ? a.b + b.b : op == 1 ? a.b - b.b : a.b * b.b; S.push_back({t, t == I32 ? (uint32_t)r : r}); };
    for (auto &i : c) switch (i.op) {
      case 0x41: S.push_back({I32, (uint32_t)i.imm}); break; case 0x42: S.push_back({I64, i.imm}); break;
      case 0x43: S.push_back({F32, (uint32_t)i.imm}); break; case 0x44: S.push_back({F64, i.imm}); break;
      case 0x23: S.push_back({mi->globals[i.a]->t, mi->globals[i.a]->b}); break;
      case 0xd0: S.push_back({(VT)i.imm, 0}); break;
      case 0xd2: S.push_back({FUNCREF, (uint64_t)(uintptr_t)mi->funcs[i.a]}); break;
      case 0x6a: case 0x6b: case 0x6c: bin(I32, i.op - 0x6a); break;
      case 0x7c: case 0x7d: case 0x7e: bin(I64, i.op - 0x7c); break;
      case 0x0b: return S.at(0);
    }
    return S.at(0);
  }
  ModInst *instantiate(std::shared_ptr<Module> m, const std::vector<Ext> &ext) {
    mods.emplace_back(new ModInst); ModInst *mi = mods.back().get(); mi->m = m;
    for (size_t i = 0; i < ext.size(); i++) { auto &e = ext[i]; switch (m->imports[i].kind) {
      case K_FUNC: mi->funcs.push_back(e.f); break; case K_TABLE: mi->tables.push_back(e.t); break;
      case K_MEM: mi->mems.push_back(e.m); break; case K_GLOBAL: mi->globals.push_back(e.g); break; } }
    for (size_t i = 0; i < m->funcs.size(); i++) { auto *f = newfunc(); f->mod = mi; f->idx = i; f->type = m->types[m->funcs[i].type]; mi->funcs.push_back(f); mi->ctl.push_back(match(m->funcs[i].code)); }
    for (auto &t : m->tables) mi->tables.push_back(newtable(t));
    for (auto &t : m->mems) mi->mems.push_back(newmem(t));
    for (auto &g : m->globals) { Val v = constexpr_(mi, g.init); auto *x = newglobal(g.t.t); x->b = v.b; mi->globals.push_back(x); }
    for (auto &s : m->elems) if (s.mode == 0) {
      uint64_t off = (uint32_t)constexpr_(mi, s.off).b; auto *t = mi->tables[s.table];
      if (off + s.f.size() > t->e.size()) throw Discard{"element segment out of bounds"};
      for (size_t k = 0; k < s.f.size(); k++) t->e[off + k] = s.f[k] < -1 ? mi->globals[-2 - s.f[k]]->b : s.f[k] < 0 ? 0 : (uint64_t)(uintptr_t)mi->funcs[s.f[k]];
    }
    for (auto &s : m->datas) if (s.mode == 0) {
      Val o = constexpr_(mi, s.off); uint64_t off = o.b; auto *mem = mi->mems[s.mem];
      if (off + s.bytes.size() > mem->bytes.size()) throw Discard{"data segment out of bounds"};
      if (!s.bytes.empty()) memcpy(mem->bytes.data() + off, s.bytes.data(), s.bytes.size());
    }
    return mi;
  }
  static std::vector<Ctl2> match(const Code &c) {
    std::vector<Ctl2> r(c.size(), {0, 0}); std::vector<uint32_t> st;
    for (uint32_t i = 0; i < c.size(); i++) {
      if (c[i].op >= 2 && c[i].op <= 4) st.push_back(i);
      else if (c[i].op == 5) { r[st.back()].els = i; }
      else if (c[i].op == 0x0b) { if (st.empty()) break; r[st.back()].end = i; if (r[st.back()].els) r[r[st.back()].els].end = i; st.pop_back(); }
    }
    return r;
  }
  struct Label { uint32_t cont; uint32_t height; int arity; bool loop; };

  void call(FuncInst *f, std::vector<Val> &args, std::vector<Val> &res) {
    while (true) {
      FuncInst *tail = nullptr; std::vector<Val> targs;
      if (f->host >= 0) {
        st.hostcalls++;
        for (auto &a : args) if (a.taint) throw Discard{"undetermined NaN reaches the host"};
        res.clear(); host(*this, f, args, res); return;
      }
      run(f, args, res, tail, targs);
      if (!tail) return;
      f = tail; args.swap(targs);
    }
  }
  static float f32(uint64_t b) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
  static double f64(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
  static uint64_t b32(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
  static uint64_t b64(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }
  static Val vf(float f) { return {F32, b32(f), f != f}; }
  static Val vd(double f) { return {F64, b64(f), f != f}; }
  static Val vi(uint32_t x) { return {I32, x}; }
  static Val vl(uint64_t x) { return {I64, x}; }

  void run(FuncInst *f, std::vector<Val> &args, std::vector<Val> &res, FuncInst *&tail, std::vector<Val> &targs) {
    if (++depth > maxdepth) { throw Discard{"call depth"}; }
    if ((uint64_t)depth > st.maxdepth) st.maxdepth = depth;
    frames++; st.calls++;
    ModInst *mi = f->mod; Module &m = *mi->m; Func &fn = m.funcs[f->idx]; const Code &c = fn.code; auto &ctl = mi->ctl[f->idx];
    std::vector<Val> L = args;
    for (auto t : fn.locals) L.push_back({t, 0});
    std::vector<Val> S; std::vector<Label> lab;
    int nres = (int)f->type.r.size();
    lab.push_back({(uint32_t)c.size(), 0, nres, false});
    uint32_t pc = 0;
    auto pop = [&]() { Val v = S.back(); S.pop_back(); return v; };
    auto push = [&](Val v) { S.push_back(v); };
    bool done = false;
    auto br = [&](uint32_t d) {
      st.branches++;
      Label &l = lab[lab.size() - 1 - d];
      size_t from = S.size() - l.arity;
      for (int k = 0; k < l.arity; k++) S[l.height + k] = S[from + k];
      S.resize(l.height + l.arity);
      pc = l.cont;
      if (d + 1 == lab.size()) { done = true; return; }
      if (l.loop) { st.loops++; lab.resize(lab.size() - d); }
      else lab.resize(lab.size() - 1 - d);
    };
    auto ea = [&](uint32_t midx, uint64_t off, uint32_t sz) -> uint8_t * {
      Val a = pop(); uint64_t base = a.t == I64 ? a.b : (uint32_t)a.b; auto *mem = mi->mems[midx];
      unsigned __int128 e = (unsigned __int128)base + off;
      if (e + sz > mem->bytes.size()) throw Discard{"trap: memory access out of bounds"};
      return mem->bytes.data() + (uint64_t)e;
    };
    while (!done) {
      if (pc >= c.size()) break;
      const Instr &i = c[pc]; uint32_t here = pc++; 
      if (fuel-- == 0) { throw Discard{"fuel"}; }
      st.ops++; st.op[i.op]++;
      switch (i.op) {
        case 0x00: throw Discard{"trap: unreachable"};
        case 0x01: break;
        case 0x02: lab.push_back({ctl[here].end + 1, (uint32_t)S.size(), i.imm == VOIDT ? 0 : 1, false}); break;
        case 0x03: lab.push_back({here + 1, (uint32_t)S.size(), 0, true}); break;
        case 0x04: { bool t = (uint32_t)pop().b != 0;
          lab.push_back({ctl[here].end + 1, (uint32_t)S.size(), i.imm == VOIDT ? 0 : 1, false});
          if (!t) { if (ctl[here].els) pc = ctl[here].els + 1; else { pc = ctl[here].end; } } break; }
        case 0x05: pc = ctl[here].end; break;
        case 0x0b: if (lab.size() == 1) { done = true; break; } lab.pop_back(); break;
        case 0x0c: br(i.a); break;
        case 0x0d: if ((uint32_t)pop().b) br(i.a); break;
        case 0x0e: { uint32_t x = (uint32_t)pop().b; uint32_t n = i.tbl.size() - 1; br(i.tbl[x < n ? x : n]); break; }
        case 0x0f: br(lab.size() - 1); break;
        case 0x10: case 0x11: case 0x12: case 0x13: {
          FuncInst *t;
          if (i.op == 0x10 || i.op == 0x12) t = mi->funcs[i.a];
          else {
            st.indirect++;
            uint32_t x = (uint32_t)pop().b; auto *tab = mi->tables[i.b];
            if (x >= tab->e.size() || !tab->e[x]) throw Discard{"trap: indirect call out of bounds or null"};
            t = (FuncInst *)(uintptr_t)tab->e[x];
            if (!(t->type == m.types[i.a])) throw Discard{"trap: indirect call type"};
          }
          std::vector<Val> a(S.end() - t->type.p.size(), S.end()), r; S.resize(S.size() - t->type.p.size());
          if (i.op >= 0x12) { st.tail++; tail = t; targs = a; depth--; return; }
          call(t, a, r);
          for (auto &v : r) push(v);
          break;
        }
        case 0x1a: pop(); break;
        case 0x1b: case 0x1c: { uint32_t x = (uint32_t)pop().b; Val b = pop(), a = pop(); push(x ? a : b); break; }
        case 0x20: push(L[i.a]); break;
        case 0x21: L[i.a] = pop(); break;
        case 0x22: L[i.a] = S.back(); break;
        case 0x23: { auto *g = mi->globals[i.a]; push({g->t, g->b, g->taint}); break; }
        case 0x24: { auto *g = mi->globals[i.a]; Val v = pop(); g->b = v.b; g->taint = v.taint; break; }
        case 0x25: { st.tables++; uint32_t x = (uint32_t)pop().b; auto *t = mi->tables[i.a]; if (x >= t->e.size()) throw Discard{"trap: table"}; push({t->t, t->e[x]}); break; }
        case 0x26: { st.tables++; Val v = pop(); uint32_t x = (uint32_t)pop().b; auto *t = mi->tables[i.a]; if (x >= t->e.size()) throw Discard{"trap: table"}; t->e[x] = v.b; break; }
#define LD(op, T, ty, conv) case op: { st.loads++; T x; memcpy(&x, ea(i.a, i.imm, sizeof x), sizeof x); push({ty, (uint64_t)(conv)x}); break; }
        LD(0x28, uint32_t, I32, uint32_t) LD(0x29, uint64_t, I64, uint64_t) LD(0x2a, uint32_t, F32, uint32_t) LD(0x2b, uint64_t, F64, uint64_t)
        LD(0x2c, int8_t, I32, uint32_t) LD(0x2d, uint8_t, I32, uint32_t) LD(0x2e, int16_t, I32, uint32_t) LD(0x2f, uint16_t, I32, uint32_t)
        LD(0x30, int8_t, I64, int64_t) LD(0x31, uint8_t, I64, uint64_t) LD(0x32, int16_t, I64, int64_t) LD(0x33, uint16_t, I64, uint64_t)
        LD(0x34, int32_t, I64, int64_t) LD(0x35, uint32_t, I64, uint64_t)
#define STO(op, n) case op: { st.stores++; Val v = pop(); if (v.taint) throw Discard{"undetermined NaN stored"}; uint64_t x = v.b; memcpy(ea(i.a, i.imm, n), &x, n); break; }
        STO(0x36, 4) STO(0x37, 8) STO(0x38, 4) STO(0x39, 8) STO(0x3a, 1) STO(0x3b, 2) STO(0x3c, 1) STO(0x3d, 2) STO(0x3e, 4)
        case 0x3f: { auto *mem = mi->mems[i.a]; push({mem->is64 ? I64 : I32, mem->pages()}); break; }
        case 0x40: { st.grows++; auto *mem = mi->mems[i.a]; Val v = pop(); uint64_t d = mem->is64 ? v.b : (uint32_t)v.b; uint64_t old = mem->pages();
          if (d > mem->max || old + d > mem->max) push({mem->is64 ? I64 : I32, mem->is64 ? ~0ull : 0xffffffffu});
          else { if (old + d > 64) throw Discard{"memory grows beyond the model"}; mem->bytes.resize((old + d) << 16, 0); push({mem->is64 ? I64 : I32, old}); } break; }
        case 0x41: push(vi((uint32_t)i.imm)); break; case 0x42: push(vl(i.imm)); break;
        case 0x43: push({F32, (uint32_t)i.imm}); break; case 0x44: push({F64, i.imm}); break;
        case 0xd0: push({(VT)i.imm, 0}); break;
        case 0xd1: { Val v = pop(); push(vi(v.b == 0)); break; }
        case 0xd2: push({FUNCREF, (uint64_t)(uintptr_t)mi->funcs[i.a]}); break;
        case 0xfc0a: { uint64_t n = popn(S), s = popn(S), d = popn(S); auto *md = mi->mems[i.a], *ms = mi->mems[i.b];
          if ((unsigned __int128)s + n > ms->bytes.size() || (unsigned __int128)d + n > md->bytes.size()) throw Discard{"trap: memory.copy"};
          if (n) memmove(md->bytes.data() + d, ms->bytes.data() + s, n); break; }
        case 0xfc0b: { uint64_t n = popn(S); uint32_t v = (uint32_t)pop().b; uint64_t d = popn(S); auto *md = mi->mems[i.a];
          if ((unsigned __int128)d + n > md->bytes.size()) throw Discard{"trap: memory.fill"};
          if (n) memset(md->bytes.data() + d, v & 0xff, n); break; }
        case 0xfc0e: { st.tables++; uint64_t n = popn(S), s = popn(S), d = popn(S); auto *td = mi->tables[i.a], *ts = mi->tables[i.b];
          if (s + n > ts->e.size() || d + n > td->e.size()) throw Discard{"trap: table.copy"};
          if (n) memmove(td->e.data() + d, ts->e.data() + s, n * 8); break; }
        case 0xfc0f: { st.tables++; pop(); pop(); push(vi(0xffffffffu)); break; }   // table.grow: fails always (documented)
        case 0xfc10: { st.tables++; push(vi(mi->tables[i.a]->e.size())); break; }
        case 0xfc11: { st.tables++; uint64_t n = popn(S); Val v = pop(); uint64_t d = popn(S); auto *td = mi->tables[i.a];
          if (d + n > td->e.size()) throw Discard{"trap: table.fill"};
          for (uint64_t k = 0; k < n; k++) td->e[d + k] = v.b; break; }
        default: {
          if (!numeric(i.op, S)) throw std::runtime_error(strf("interpreter: opcode %x", i.op));
        }
      }
    }
    depth--;
    res.assign(S.end() - nres, S.end());
  }
  static uint64_t popn(std::vector<Val> &S) { Val v = S.back(); S.pop_back(); return v.t == I64 ? v.b : (uint32_t)v.b; }

  static uint32_t rotl32(uint32_t x, uint32_t k) { k &= 31; return k ? (x << k) | (x >> (32 - k)) : x; }
  static uint64_t rotl64(uint64_t x, uint64_t k) { k &= 63; return k ? (x << k) | (x >> (64 - k)) : x; }
  template <class T> static T fmin_(T a, T b) { if (a != a || b != b) return (T)NAN; if (a == 0 && b == 0) return std::signbit(a) ? a : b; return a < b ? a : b; }
  template <class T> static T fmax_(T a, T b) { if (a != a || b != b) return (T)NAN; if (a == 0 && b == 0) return std::signbit(a) ? b : a; return a > b ? a : b; }
  template <class T> static T nearest_(T x) { // ties to even, independent of the rounding mode
    if (x != x || std::isinf(x) || x == 0) return x;
    T f = std::floor(x), d = x - f, r;
    if (d < (T)0.5) r = f; else if (d > (T)0.5) r = f + 1; else r = std::fmod(f, (T)2) == 0 ? f : f + 1;
    return std::copysign(r, x);
  }
  // true when v (a double or float) truncates into the target range
  template <class F> static bool fits(F x, int kind) {
    if (x != x) return false; long double t = std::trunc((long double)x);
    switch (kind) { case 0: return t >= -2147483648.0L && t <= 2147483647.0L; case 1: return t >= 0 && t <= 4294967295.0L;
      case 2: return t >= -9223372036854775808.0L && t <= 9223372036854775807.0L; default: return t >= 0 && t <= 18446744073709551615.0L; }
  }
  template <class F> static uint64_t trunc_(F x, int kind) {
    if (!fits(x, kind)) throw Discard{"trap: float to integer out of range"};
    long double t = std::trunc((long double)x);
    switch (kind) { case 0: return (uint32_t)(int32_t)t; case 1: return (uint32_t)t; case 2: return (uint64_t)(int64_t)t; default: return (uint64_t)t; }
  }
  template <class F> static uint64_t sat_(F x, int kind) {
    if (!fits(x, kind)) throw Discard{"saturating conversion out of range (documented as host dependent)"};
    return trunc_(x, kind);
  }
  // Numeric instruction `op` on the stack S. Returns false when op is not one.
  bool numeric(int op, std::vector<Val> &S) {
    auto pop = [&]() { Val v = S.back(); S.pop_back(); return v; };
    auto push = [&](Val v) { S.push_back(v); };
    if ((op >> 8) == 0xfc) {
      int s = op & 0xff; if (s > 7) return false;
      Val v = pop(); int kind = (s & 1) | (s >= 4 ? 2 : 0); bool dbl = s & 2;
      uint64_t r = dbl ? sat_(f64(v.b), kind) : sat_(f32(v.b), kind);
      push({s >= 4 ? I64 : I32, r}); return true;
    }
    if (op == 0x45) { push(vi((uint32_t)pop().b == 0)); return true; }
    if (op == 0x50) { push(vi(pop().b == 0)); return true; }
    if (op >= 0x46 && op <= 0x4f) { uint32_t b = pop().b, a = pop().b; int32_t sa = a, sb = b; bool r;
      switch (op) { case 0x46: r = a == b; break; case 0x47: r = a != b; break; case 0x48: r = sa < sb; break; case 0x49: r = a < b; break;
        case 0x4a: r = sa > sb; break; case 0x4b: r = a > b; break; case 0x4c: r = sa <= sb; break; case 0x4d: r = a <= b; break; case 0x4e: r = sa >= sb; break; default: r = a >= b; }
      push(vi(r)); return true; }
    if (op >= 0x51 && op <= 0x5a) { uint64_t b = pop().b, a = pop().b; int64_t sa = a, sb = b; bool r;
      switch (op) { case 0x51: r = a == b; break; case 0x52: r = a != b; break; case 0x53: r = sa < sb; break; case 0x54: r = a < b; break;
        case 0x55: r = sa > sb; break; case 0x56: r = a > b; break; case 0x57: r = sa <= sb; break; case 0x58: r = a <= b; break; case 0x59: r = sa >= sb; break; default: r = a >= b; }
      push(vi(r)); return true; }
    if (op >= 0x5b && op <= 0x66) { st.floats++; Val y = pop(), x = pop(); bool r; double a, b; int k;
      if (op <= 0x60) { a = f32(x.b); b = f32(y.b); k = op - 0x5b; } else { a = f64(x.b); b = f64(y.b); k = op - 0x61; }
      switch (k) { case 0: r = a == b; break; case 1: r = a != b; break; case 2: r = a < b; break; case 3: r = a > b; break; case 4: r = a <= b; break; default: r = a >= b; }
      push(vi(r)); return true; }
    if (op >= 0x67 && op <= 0x69) { uint32_t a = pop().b;
      push(vi(op == 0x67 ? (a ? __builtin_clz(a) : 32) : op == 0x68 ? (a ? __builtin_ctz(a) : 32) : __builtin_popcount(a))); return true; }
    if (op >= 0x79 && op <= 0x7b) { uint64_t a = pop().b;
      push(vl(op == 0x79 ? (a ? __builtin_clzll(a) : 64) : op == 0x7a ? (a ? __builtin_ctzll(a) : 64) : __builtin_popcountll(a))); return true; }
    if (op >= 0x6a && op <= 0x78) { uint32_t b = pop().b, a = pop().b, r = 0; int32_t sa = a, sb = b;
      switch (op) { case 0x6a: r = a + b; break; case 0x6b: r = a - b; break; case 0x6c: r = a * b; break;
        case 0x6d: if (!b || (a == 0x80000000u && sb == -1)) throw Discard{"trap: integer division"}; r = sa / sb; break;
        case 0x6e: if (!b) throw Discard{"trap: integer division"}; r = a / b; break;
        case 0x6f: if (!b) throw Discard{"trap: integer division"}; r = sb == -1 ? 0 : sa % sb; break;
        case 0x70: if (!b) throw Discard{"trap: integer division"}; r = a % b; break;
        case 0x71: r = a & b; break; case 0x72: r = a | b; break; case 0x73: r = a ^ b; break;
        case 0x74: r = a << (b & 31); break; case 0x75: r = sa >> (b & 31); break; case 0x76: r = a >> (b & 31); break;
        case 0x77: r = rotl32(a, b); break; case 0x78: r = rotl32(a, 32 - (b & 31)); break; }
      push(vi(r)); return true; }
    if (op >= 0x7c && op <= 0x8a) { uint64_t b = pop().b, a = pop().b, r = 0; int64_t sa = a, sb = b;
      switch (op) { case 0x7c: r = a + b; break; case 0x7d: r = a - b; break; case 0x7e: r = a * b; break;
        case 0x7f: if (!b || (a == 1ull << 63 && sb == -1)) throw Discard{"trap: integer division"}; r = sa / sb; break;
        case 0x80: if (!b) throw Discard{"trap: integer division"}; r = a / b; break;
        case 0x81: if (!b) throw Discard{"trap: integer division"}; r = sb == -1 ? 0 : sa % sb; break;
        case 0x82: if (!b) throw Discard{"trap: integer division"}; r = a % b; break;
        case 0x83: r = a & b; break; case 0x84: r = a | b; break; case 0x85: r = a ^ b; break;
        case 0x86: r = a << (b & 63); break; case 0x87: r = sa >> (b & 63); break; case 0x88: r = a >> (b & 63); break;
        case 0x89: r = rotl64(a, b); break; case 0x8a: r = rotl64(a, 64 - (b & 63)); break; }
      push(vl(r)); return true; }
    if (op >= 0x8b && op <= 0x91) { st.floats++; Val v = pop(); float a = f32(v.b);
      switch (op) { case 0x8b: v.b &= 0x7fffffffu; push(v); break; case 0x8c: v.b ^= 0x80000000u; push(v); break;
        case 0x8d: push(vf(std::ceil(a))); break; case 0x8e: push(vf(std::floor(a))); break; case 0x8f: push(vf(std::trunc(a))); break;
        case 0x90: push(vf(nearest_(a))); break; case 0x91: push(vf(std::sqrt(a))); break; }
      return true; }
    if (op >= 0x99 && op <= 0x9f) { st.floats++; Val v = pop(); double a = f64(v.b);
      switch (op) { case 0x99: v.b &= ~(1ull << 63); push(v); break; case 0x9a: v.b ^= 1ull << 63; push(v); break;
        case 0x9b: push(vd(std::ceil(a))); break; case 0x9c: push(vd(std::floor(a))); break; case 0x9d: push(vd(std::trunc(a))); break;
        case 0x9e: push(vd(nearest_(a))); break; case 0x9f: push(vd(std::sqrt(a))); break; }
      return true; }
    if (op >= 0x92 && op <= 0x98) { st.floats++; Val y = pop(), x = pop(); float a = f32(x.b), b = f32(y.b);
      switch (op) { case 0x92: push(vf(a + b)); break; case 0x93: push(vf(a - b)); break; case 0x94: push(vf(a * b)); break; case 0x95: push(vf(a / b)); break;
        case 0x96: push(vf(fmin_(a, b))); break; case 0x97: push(vf(fmax_(a, b))); break;
        case 0x98: if (y.taint) throw Discard{"sign of an undetermined NaN"}; x.b = (x.b & 0x7fffffffu) | (y.b & 0x80000000u); push(x); break; }
      return true; }
    if (op >= 0xa0 && op <= 0xa6) { st.floats++; Val y = pop(), x = pop(); double a = f64(x.b), b = f64(y.b);
      switch (op) { case 0xa0: push(vd(a + b)); break; case 0xa1: push(vd(a - b)); break; case 0xa2: push(vd(a * b)); break; case 0xa3: push(vd(a / b)); break;
        case 0xa4: push(vd(fmin_(a, b))); break; case 0xa5: push(vd(fmax_(a, b))); break;
        case 0xa6: if (y.taint) throw Discard{"sign of an undetermined NaN"}; x.b = (x.b & ~(1ull << 63)) | (y.b & (1ull << 63)); push(x); break; }
      return true; }
    switch (op) {
      case 0xa7: push(vi((uint32_t)pop().b)); return true;
      case 0xa8: push({I32, trunc_(f32(pop().b), 0)}); return true; case 0xa9: push({I32, trunc_(f32(pop().b), 1)}); return true;
      case 0xaa: push({I32, trunc_(f64(pop().b), 0)}); return true; case 0xab: push({I32, trunc_(f64(pop().b), 1)}); return true;
      case 0xac: push(vl((int64_t)(int32_t)pop().b)); return true; case 0xad: push(vl((uint32_t)pop().b)); return true;
      case 0xae: push({I64, trunc_(f32(pop().b), 2)}); return true; case 0xaf: push({I64, trunc_(f32(pop().b), 3)}); return true;
      case 0xb0: push({I64, trunc_(f64(pop().b), 2)}); return true; case 0xb1: push({I64, trunc_(f64(pop().b), 3)}); return true;
      case 0xb2: push(vf((float)(int32_t)pop().b)); return true; case 0xb3: push(vf((float)(uint32_t)pop().b)); return true;
      case 0xb4: push(vf((float)(int64_t)pop().b)); return true; case 0xb5: push(vf((float)(uint64_t)pop().b)); return true;
      case 0xb6: { Val v = pop(); push(vf((float)f64(v.b))); return true; }
      case 0xb7: push(vd((double)(int32_t)pop().b)); return true; case 0xb8: push(vd((double)(uint32_t)pop().b)); return true;
      case 0xb9: push(vd((double)(int64_t)pop().b)); return true; case 0xba: push(vd((double)(uint64_t)pop().b)); return true;
      case 0xbb: { Val v = pop(); push(vd((double)f32(v.b))); return true; }
      case 0xbc: case 0xbd: { Val v = pop(); if (v.taint) throw Discard{"undetermined NaN reinterpreted"}; push({op == 0xbc ? I32 : I64, v.b}); return true; }
      case 0xbe: push({F32, (uint32_t)pop().b}); return true; case 0xbf: push({F64, pop().b}); return true;
      case 0xc0: push(vi((int32_t)(int8_t)pop().b)); return true; case 0xc1: push(vi((int32_t)(int16_t)pop().b)); return true;
      case 0xc2: push(vl((int64_t)(int8_t)pop().b)); return true; case 0xc3: push(vl((int64_t)(int16_t)pop().b)); return true;
      case 0xc4: push(vl((int64_t)(int32_t)pop().b)); return true;
    }
    return false;
  }
};
