// Module model and binary encoder.
#pragma once
#include "choice.h"
#include <string>
#include <vector>
#include <cstring>
#include <memory>

enum VT : uint8_t { VOIDT = 0x40, I32 = 0x7f, I64 = 0x7e, F32 = 0x7d, F64 = 0x7c, FUNCREF = 0x70, EXTERNREF = 0x6f };
static inline const char *vtname(int t) {
  switch (t) { case I32: return "i32"; case I64: return "i64"; case F32: return "f32"; case F64: return "f64";
    case FUNCREF: return "funcref"; case EXTERNREF: return "externref"; case VOIDT: return "void"; }
  return "?";
}
static inline bool isref(int t) { return t == FUNCREF || t == EXTERNREF; }
static inline bool isfloat(int t) { return t == F32 || t == F64; }
static inline int vtsize(int t) { return t == I32 || t == F32 ? 4 : 8; }

struct FuncType {
  std::vector<VT> p, r;
  bool operator==(const FuncType &o) const { return p == o.p && r == o.r; }
};
static const int RAWOP = 0xffff;
// op: one byte opcodes as they are, 0xfc-prefixed as 0xfc00|sub
struct Instr {
  uint16_t op = 0; uint32_t a = 0, b = 0; uint64_t imm = 0; std::vector<uint32_t> tbl;
  Instr(int op = 1, uint32_t a = 0, uint64_t imm = 0, uint32_t b = 0) : op((uint16_t)op), a(a), b(b), imm(imm) {}
};
typedef std::vector<Instr> Code;

enum { K_FUNC = 0, K_TABLE = 1, K_MEM = 2, K_GLOBAL = 3 };
struct MemType { uint32_t min = 1, max = 0; bool has_max = false, is64 = false; };
struct TableType { VT t = FUNCREF; uint32_t min = 0, max = 0; bool has_max = false; };
struct GlobalType { VT t = I32; bool mut = true; };
struct Import { std::string mod, name; int kind; uint32_t type = 0; MemType m; TableType t; GlobalType g; };
struct Func { uint32_t type; std::vector<VT> locals; Code code; };   // code includes the final end
struct Global { GlobalType t; Code init; };
struct Export { std::string name; int kind; uint32_t idx; };
struct Elem { int mode = 0; /*0 active 1 passive 3 declarative*/ uint32_t table = 0; Code off; VT t = FUNCREF;
  std::vector<int64_t> f; /* function index, -1 (null) or -2-g (global g) */ bool exprs = false; int flags = -1; };
struct Data { int mode = 0; uint32_t mem = 0; Code off; std::vector<uint8_t> bytes; int flags = -1; };

struct Module {
  std::vector<FuncType> types;
  std::vector<Import> imports;
  std::vector<Func> funcs;
  std::vector<TableType> tables;
  std::vector<MemType> mems;
  std::vector<Global> globals;
  std::vector<Export> exports;
  int64_t start = -1;
  std::vector<Elem> elems;
  std::vector<Data> datas;
  bool datacount = false;
  // filled by index(): everything including imports
  std::vector<uint32_t> ftype; std::vector<TableType> ttype; std::vector<MemType> mtype; std::vector<GlobalType> gtype;
  uint32_t nif = 0, nit = 0, nim = 0, nig = 0;
  void index() {
    ftype.clear(); ttype.clear(); mtype.clear(); gtype.clear();
    for (auto &i : imports) switch (i.kind) {
      case K_FUNC: ftype.push_back(i.type); break; case K_TABLE: ttype.push_back(i.t); break;
      case K_MEM: mtype.push_back(i.m); break; case K_GLOBAL: gtype.push_back(i.g); break; }
    nif = ftype.size(); nit = ttype.size(); nim = mtype.size(); nig = gtype.size();
    for (auto &f : funcs) ftype.push_back(f.type);
    for (auto &t : tables) ttype.push_back(t);
    for (auto &m : mems) mtype.push_back(m);
    for (auto &g : globals) gtype.push_back(g.t);
  }
  uint32_t addtype(const FuncType &t) {
    for (size_t i = 0; i < types.size(); i++) if (types[i] == t) return i;
    types.push_back(t); return types.size() - 1;
  }
};

// Encoder. With `style` set, legal alternatives are chosen at random.
struct Encoder {
  Choices *style = nullptr;
  int pad_pct = 0;                // chance of padding a LEB
  bool pad_subop = true;
  std::vector<uint8_t> o;
  void u8(int v) { o.push_back((uint8_t)v); }
  void lebu(uint64_t v, int bits = 32) {
    int maxb = (bits + 6) / 7, n = 1; uint64_t t = v; while (t >>= 7) n++;
    int want = n;
    if (style && pad_pct && n < maxb && style->pct(pad_pct)) want = n + 1 + (int)style->below(maxb - n);
    for (int i = 0; i < want; i++) { uint8_t b = v & 0x7f; v >>= 7; if (i + 1 < want) b |= 0x80; u8(b); }
  }
  void lebs(int64_t v, int bits) {
    int maxb = (bits + 6) / 7, n = 1; int64_t t = v;
    while (!((t >> 6) == 0 || (t >> 6) == -1)) { t >>= 7; n++; }
    int want = n;
    if (style && pad_pct && n < maxb && style->pct(pad_pct)) want = n + 1 + (int)style->below(maxb - n);
    for (int i = 0; i < want; i++) { uint8_t b = v & 0x7f; v >>= 7; if (i + 1 < want) b |= 0x80; u8(b); }
  }
  void str(const std::string &s) { lebu(s.size()); o.insert(o.end(), s.begin(), s.end()); }
  void raw(const std::vector<uint8_t> &v) { o.insert(o.end(), v.begin(), v.end()); }
  Encoder sub() { Encoder e; e.style = style; e.pad_pct = pad_pct; e.pad_subop = pad_subop; return e; }
  void instr(const Instr &i) {
    if (i.op == 0xffff) { for (auto t : i.tbl) u8(t); return; }       // raw bytes
    if ((i.op >> 8) == 0xfc) {
      u8(0xfc); if (pad_subop) lebu(i.op & 0xff); else u8(i.op & 0xff);
      switch (i.op & 0xff) {
        case 0x08: lebu(i.a); lebu(i.b); break;     // memory.init data,mem
        case 0x09: lebu(i.a); break;
        case 0x0a: lebu(i.a); lebu(i.b); break;     // dst, src
        case 0x0b: lebu(i.a); break;
        case 0x0c: lebu(i.a); lebu(i.b); break;     // table.init elem, table
        case 0x0d: lebu(i.a); break;
        case 0x0e: lebu(i.a); lebu(i.b); break;
        case 0x0f: case 0x10: case 0x11: lebu(i.a); break;
      }
      return;
    }
    u8(i.op);
    switch (i.op) {
      case 0x02: case 0x03: case 0x04:
        if (i.b) lebs(i.a, 33);                      // b=1: type index
        else u8((int)i.imm);
        break;
      case 0x0c: case 0x0d: lebu(i.a); break;
      case 0x0e: lebu(i.tbl.size() - 1); for (auto t : i.tbl) lebu(t); break;
      case 0x10: case 0x12: lebu(i.a); break;
      case 0x11: case 0x13: lebu(i.a); lebu(i.b); break;    // type, table
      case 0x1c: lebu(1); u8((int)i.imm); break;
      case 0x20: case 0x21: case 0x22: case 0x23: case 0x24: case 0x25: case 0x26: lebu(i.a); break;
      case 0x3f: case 0x40: lebu(i.a); break;
      case 0x41: lebs((int32_t)i.imm, 32); break;
      case 0x42: lebs((int64_t)i.imm, 64); break;
      case 0x43: for (int k = 0; k < 4; k++) u8(i.imm >> (8 * k)); break;
      case 0x44: for (int k = 0; k < 8; k++) u8(i.imm >> (8 * k)); break;
      case 0xd0: u8((int)i.imm); break;
      case 0xd2: lebu(i.a); break;
      default:
        if (i.op >= 0x28 && i.op <= 0x3e) {           // a memidx, b align, imm offset
          bool ex = i.a != 0 || (style && pad_pct && style->pct(pad_pct / 2));
          lebu(i.b | (ex ? 0x40 : 0)); if (ex) lebu(i.a); lebu(i.imm);
        }
    }
  }
  void code(const Code &c) { for (auto &i : c) instr(i); }
  void limits(uint32_t mn, uint32_t mx, bool hm, bool is64 = false) { u8((hm ? 1 : 0) | (is64 ? 4 : 0)); lebu(mn, is64 ? 64 : 32); if (hm) lebu(mx, is64 ? 64 : 32); }
  void section(int id, Encoder &e) { u8(id); lebu(e.o.size()); raw(e.o); }
  int custom_pct = 0;
  void maybe_custom() {
    while (style && custom_pct && style->pct(custom_pct)) {
      Encoder e = sub(); std::string nm; int k = (int)style->below(7);
      if (k == 0) nm = "name"; else if (k == 5) nm = "dylink"; else if (k == 6) nm = "dylink.0"; else if (k == 1) nm = ""; else if (k == 2) nm = std::string(style->below(300), 'x'); else nm = "custom" + std::to_string(style->below(10));
      e.str(nm); int n = (int)style->below(20); for (int i = 0; i < n; i++) e.u8((int)style->below(256));
      section(0, e);
    }
  }
  std::vector<uint8_t> module(const Module &m) {
    o = {0, 'a', 's', 'm', 1, 0, 0, 0};
    auto empty_ok = [&](size_t n) { return n || (style && pad_pct && style->pct(pad_pct)); };
    maybe_custom();
    if (empty_ok(m.types.size())) { Encoder e = sub(); e.lebu(m.types.size());
      for (auto &t : m.types) { e.u8(0x60); e.lebu(t.p.size()); for (auto x : t.p) e.u8(x); e.lebu(t.r.size()); for (auto x : t.r) e.u8(x); }
      section(1, e); }
    maybe_custom();
    if (empty_ok(m.imports.size())) { Encoder e = sub(); e.lebu(m.imports.size());
      for (auto &i : m.imports) { e.str(i.mod); e.str(i.name); e.u8(i.kind);
        switch (i.kind) { case K_FUNC: e.lebu(i.type); break;
          case K_TABLE: e.u8(i.t.t); e.limits(i.t.min, i.t.max, i.t.has_max); break;
          case K_MEM: e.limits(i.m.min, i.m.max, i.m.has_max, i.m.is64); break;
          case K_GLOBAL: e.u8(i.g.t); e.u8(i.g.mut); break; } }
      section(2, e); }
    maybe_custom();
    if (empty_ok(m.funcs.size())) { Encoder e = sub(); e.lebu(m.funcs.size()); for (auto &f : m.funcs) e.lebu(f.type); section(3, e); }
    maybe_custom();
    if (empty_ok(m.tables.size())) { Encoder e = sub(); e.lebu(m.tables.size()); for (auto &t : m.tables) { e.u8(t.t); e.limits(t.min, t.max, t.has_max); } section(4, e); }
    maybe_custom();
    if (empty_ok(m.mems.size())) { Encoder e = sub(); e.lebu(m.mems.size()); for (auto &t : m.mems) e.limits(t.min, t.max, t.has_max, t.is64); section(5, e); }
    maybe_custom();
    if (empty_ok(m.globals.size())) { Encoder e = sub(); e.lebu(m.globals.size()); for (auto &g : m.globals) { e.u8(g.t.t); e.u8(g.t.mut); e.code(g.init); } section(6, e); }
    maybe_custom();
    if (empty_ok(m.exports.size())) { Encoder e = sub(); e.lebu(m.exports.size()); for (auto &x : m.exports) { e.str(x.name); e.u8(x.kind); e.lebu(x.idx); } section(7, e); }
    maybe_custom();
    if (m.start >= 0) { Encoder e = sub(); e.lebu(m.start); section(8, e); }
    maybe_custom();
    if (empty_ok(m.elems.size())) { Encoder e = sub(); e.lebu(m.elems.size());
      for (auto &s : m.elems) {
        bool ex = s.exprs; for (auto f : s.f) if (f < 0) ex = true;
        if (s.t != FUNCREF) ex = true;
        int fl = (ex ? 4 : 0);
        if (s.mode == 1) fl |= 1; else if (s.mode == 3) fl |= 3;
        else if (s.table || s.t != FUNCREF || s.flags == 2 || s.flags == 6) fl |= 2;
        e.lebu(fl);
        if (s.mode == 0) { if (fl & 2) e.lebu(s.table); e.code(s.off); }
        if (fl & 3) e.u8(ex ? s.t : 0);
        e.lebu(s.f.size());
        for (auto f : s.f) { if (!ex) e.lebu(f); else { if (f == -1) e.instr({0xd0, 0, s.t}); else if (f < -1) e.instr({0x23, (uint32_t)(-2 - f)}); else e.instr({0xd2, (uint32_t)f}); e.u8(0x0b); } }
      }
      section(9, e); }
    maybe_custom();
    if (m.datacount) { Encoder e = sub(); e.lebu(m.datas.size()); section(12, e); maybe_custom(); }
    if (empty_ok(m.funcs.size())) { Encoder e = sub(); e.lebu(m.funcs.size());
      for (auto &f : m.funcs) { Encoder b = sub();
        std::vector<std::pair<uint32_t, VT>> g;
        for (auto t : f.locals) { if (!g.empty() && g.back().second == t && !(style && pad_pct && style->pct(pad_pct))) g.back().first++; else g.push_back({1, t}); }
        if (style && pad_pct && style->pct(pad_pct)) g.insert(g.begin() + style->below(g.size() + 1), {0, I64});
        b.lebu(g.size()); for (auto &x : g) { b.lebu(x.first); b.u8(x.second); }
        b.code(f.code); e.lebu(b.o.size()); e.raw(b.o); }
      section(10, e); }
    maybe_custom();
    if (empty_ok(m.datas.size())) { Encoder e = sub(); e.lebu(m.datas.size());
      for (auto &s : m.datas) {
        int fl = s.mode == 1 ? 1 : (s.mem || s.flags == 2) ? 2 : 0;
        e.lebu(fl); if (fl == 2) e.lebu(s.mem); if (fl != 1) e.code(s.off);
        e.lebu(s.bytes.size()); e.raw(s.bytes); }
      section(11, e); }
    maybe_custom();
    return o;
  }
};
static inline std::vector<uint8_t> encode(const Module &m) { Encoder e; return e.module(m); }
static inline std::string hexs(const std::vector<uint8_t> &v, size_t max = 100000) {
  std::string s; char b[3]; for (size_t i = 0; i < v.size() && i < max; i++) { snprintf(b, 3, "%02x", v[i]); s += b; } return s;
}
