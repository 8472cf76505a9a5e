#include "exec.h"
static void mixed(Ctx &x) {
  Program P; GenCfg cfg; if(getenv("M64"))cfg.mem64=true; ProgOpt o; o.nmods = x.c.pct(25) ? 2 : 1; std::vector<int> fg; std::map<std::string,int> feat;
  gen_program(x, P, cfg, o, fg, feat); show_program(x, P);

  if (const char *d = getenv("DUMPDIR")) {
    for (auto &h : P.host) h.flags &= ~3;
    Exec e(P, x); e.fuel_global = fg; e.model_setup();
    std::string js = "{\"mods\":[";
    for (auto &m : P.mods) { auto b = encode(*m.m); js += strf("%s{\"name\":\"%s\",\"hex\":\"%s\",\"start\":%lld,\"fuel\":%d,\"mems\":[", &m == &P.mods[0] ? "" : ",", m.name.c_str(), hexs(b, 1 << 20).c_str(), (long long)m.m->start, fg[&m - &P.mods[0]]);
      js += "]}"; }
    js += "],\"fuelv\":" + std::to_string(P.fuelv) + ",\"host\":["; bool f1 = true;
    for (auto &h : P.host) { js += strf("%s{\"p\":[", f1 ? "" : ","); f1 = false; for (size_t k = 0; k < h.t.p.size(); k++) js += strf("%s%d", k ? "," : "", h.t.p[k]); js += "],\"r\":["; for (size_t k = 0; k < h.t.r.size(); k++) js += strf("%s%d", k ? "," : "", h.t.r[k]); js += "]}"; }
    js += "],\"hg\":["; for (auto &g : P.hglobals) js += strf("%s[%d,%d,\"%llu\"]", &g == &P.hglobals[0] ? "" : ",", g.first.t, g.first.mut, (unsigned long long)g.second);
    js += "],\"hm\":["; for (auto &g : P.hmems) js += strf("%s[%u,%d]", &g == &P.hmems[0] ? "" : ",", g.min, g.has_max ? (int)g.max : -1);
    js += "],\"ht\":["; for (auto &g : P.htables) js += strf("%s[%d,%u,%d]", &g == &P.htables[0] ? "" : ",", g.t, g.min, g.has_max ? (int)g.max : -1);
    js += "],\"steps\":[";
    auto vals = [&](const std::vector<Val> &v) { std::string s = "["; for (size_t k = 0; k < v.size(); k++) s += strf("%s[%d,\"%llu\",%d]", k ? "," : "", v[k].t, (unsigned long long)v[k].b, v[k].taint); return s + "]"; };
    bool first = true, skip = false;
    auto rec = [&](const char *kind, int mod, uint32_t fn, const std::vector<Val> &a, const std::vector<Val> &r) {
      js += strf("%s{\"kind\":\"%s\",\"mod\":%d,\"f\":%u,\"a\":%s,\"r\":%s,\"host\":[", first ? "" : ",", kind, mod, fn, vals(a).c_str(), vals(r).c_str()); first = false;
      for (auto &h : e.mt.v) js += strf("%s[%d,%s,%s]", &h == &e.mt.v[0] ? "" : ",", h.host, vals(h.args).c_str(), vals(h.res).c_str());
      e.mt.v.clear(); js += "],\"state\":[";
      bool f2 = true;
      for (size_t k = 0; k < P.mods.size(); k++) for (auto &ex : P.mods[k].m->exports) {
        if (ex.kind == K_GLOBAL) { auto *g = e.mi[k]->globals[ex.idx]; js += strf("%s[%zu,\"%s\",3,[%d,\"%llu\",%d]]", f2 ? "" : ",", k, ex.name.c_str(), g->t, (unsigned long long)g->b, g->taint); f2 = false; }
        if (ex.kind == K_MEM) { auto *g = e.mi[k]->mems[ex.idx]; js += strf("%s[%zu,\"%s\",2,\"%llu\",%zu]", f2 ? "" : ",", k, ex.name.c_str(), (unsigned long long)(uint32_t)[&]{ uint32_t h = 2166136261u; for (auto b : g->bytes) h = (h ^ b) * 16777619u; return h; }(), g->bytes.size()); f2 = false; }
        if (ex.kind == K_TABLE) { auto *g = e.mi[k]->tables[ex.idx]; std::string z; for (auto q : g->e) z += q ? '1' : '0'; js += strf("%s[%zu,\"%s\",1,\"%s\"]", f2 ? "" : ",", k, ex.name.c_str(), z.c_str()); f2 = false; }
      }
      js += "]}";
    };
    try {
      rec("load", 0, 0, {}, {});
      for (size_t k = 0; k < P.mods.size(); k++) if (P.mods[k].m->start >= 0) { std::vector<Val> a, r; for (size_t j = 0; j < P.mods.size(); j++) e.set_fuel((int)j, true); e.I.fuel = 100000; e.I.depth = 0; e.I.call(e.mi[k]->funcs[P.mods[k].m->start], a, r); rec("start", k, P.mods[k].m->start, {}, {}); }
      for (auto &cp : P.calls) { std::vector<Val> r; e.model_call(cp, r); rec("call", cp.mod, cp.func, cp.args, r); }
    } catch (Discard &q) { }
    if (e.I.st.op.count(0x40) || e.I.st.op.count(0xfc0f)) skip = true;
    js += strf("],\"skip\":%d}\n", skip);
    static FILE *o = nullptr; if (!o) o = fopen(strf("%s/%d.json", d, getpid()).c_str(), "wb"); fputs(js.c_str(), o); fflush(o);
    return; }
  Exec e(P, x); e.fuel_global = fg; e.run();
  x.count(e.stopped ? e.stopped : "complete"); if (e.steps_done) { x.nontrivial = true; x.hash = hash_bytes(P.mods[0].bytes); }
  for (auto &f : feat) x.count(f.first, f.second);
  x.count("ops executed", e.I.st.ops);
}
int main(int argc, char **argv) {
  CheckDef d{"C99", "x"}; d.fams = {{"mixed", mixed, 4000, 100000}};
  return check_main(d, argc, argv);
}
