// part of checks/C17.cpp: locks, dynamic libraries and threads
struct UW : SysWorld {
  Builder b; int nops = 0; std::set<int> kinds; uint64_t dist = 3;
  struct Mx { uint64_t h = 0; bool held = false; }; std::vector<Mx> M; std::vector<uint64_t> K; struct Lib { uint64_t h; void *real; bool ok; std::string n; }; std::vector<Lib> L;
  UW(Ctx &x) : SysWorld(x), b(x.c) {}
  uint64_t str(const std::string &t) { uint8_t *p = mem()->bytes + 256 + c.below(64); memset(mem()->bytes, '#', 1024); memcpy(p, t.c_str(), t.size() + 1); return (uint64_t)p; }
  void note(int k, const char *n) { nops++; kinds.insert(k); x.count(n); dist = mix64(dist ^ k); }
  void state(Mx &m) { int e = uv_mutex_trylock((uv_mutex_t *)m.h); if (e == 0) uv_mutex_unlock((uv_mutex_t *)m.h); if (e != (m.held ? UV_EBUSY : 0)) bad(strf("the native mutex is %s", e ? "held" : "free")); }
  void step() {
    std::vector<int> fr, he; for (size_t i = 0; i < M.size(); i++) (M[i].held ? he : fr).push_back(i); int nf = fr.size(), nh = he.size();
    switch (c.weighted({M.size() < 4 ? 3 : 0, nf ? 3 : 0, M.size() ? 4 : 0, nh ? 3 : 0, nf ? 1 : 0, K.size() < 3 ? 1 : 0, K.size() ? 1 : 0, K.size() ? 1 : 0, L.size() < 4 ? 2 : 0, L.size() ? 5 : 0, L.size() ? 1 : 0, 1})) {
      case 0: { note(0, "uv_mutex_init"); Mx m; m.h = w(B("uv_mutex_init"), {})[0]; if (!m.h) bad("uv_mutex_init gave null"); for (auto &q : M) if (q.h == m.h) bad("two live mutexes share their memory"); say("  new mutex"); M.push_back(m); state(M.back()); break; }
      case 1: { note(1, "uv_mutex_lock"); Mx &m = M[c.pick(fr)]; say("  lock"); w(B("uv_mutex_lock"), {m.h}); m.held = true; break; }
      case 2: { note(2, "uv_mutex_trylock"); Mx &m = M[c.below(M.size())]; int want = m.held ? UV_EBUSY : 0; say(strf("  trylock (expects %d)", want)); int r = (int)w(B("uv_mutex_trylock"), {m.h})[0]; if (r != want) bad(strf("uv_mutex_trylock returned %d on a %s mutex", r, m.held ? "locked" : "free")); m.held = true; break; }
      case 3: { note(3, "uv_mutex_unlock"); Mx &m = M[c.pick(he)]; say("  unlock"); w(B("uv_mutex_unlock"), {m.h}); m.held = false; break; }
      case 4: { note(4, "uv_mutex_destroy"); int i = c.pick(fr); say("  destroy mutex"); w(B("uv_mutex_destroy"), {M[i].h}); M.erase(M.begin() + i); break; }
      case 5: { note(5, "uv_cond_init"); say("  new condition"); uint64_t h = w(B("uv_cond_init"), {})[0]; if (!h) bad("uv_cond_init gave null"); for (auto q : K) if (q == h) bad("two live conditions share their memory"); K.push_back(h); break; }
      case 6: { note(6, "uv_cond_signal"); say("  signal"); w(B("uv_cond_signal"), {c.pick(K)}); break; }
      case 7: { note(7, "uv_cond_destroy"); say("  destroy condition"); int i = (int)c.below(K.size()); w(B("uv_cond_destroy"), {K[i]}); K.erase(K.begin() + i); break; }
      case 8: { note(8, "uv_dlopen"); std::string n = c.pick({"libm.so.6", "libc.so.6", "libuv.so.1", "libm.so.6", "no-such-library.so", "/no/such/file.so", "libm.so", "", "libBrokenLocale.so.1", "libutil.so.1", "libBrokenLocale.so.1", "libutil.so.1"}); bool null = c.pct(10); void *r = dlopen(null ? nullptr : n.c_str(), RTLD_LAZY); say(strf("  open %s", null ? "(null)" : n.c_str())); auto q = w(B("uv_dlopen"), {null ? 0 : str(n)}); Lib l{q[0], r, r != nullptr, null ? "" : n}; int st_ = (int)q[1]; if (st_ != (r ? 0 : -1)) bad(strf("uv_dlopen %s returned %d, dlopen %s", n.c_str(), st_, r ? "works" : "fails")); if (r && !q[0]) bad("uv_dlopen gave null"); for (auto &z : L) if (z.h == l.h) bad("two open libraries share their handle"); L.push_back(l); break; }
      case 9: { note(9, "uv_dlsym"); const Lib &l = c.pick(L); if (!l.ok) break; static const char *NM[] = {"ldexp", "labs", "abs", "strlen", "memcmp", "fabs", "pow", "sqrtf", "no_such_symbol", "uv_version", "atoi", "div", ""}; int k = (int)c.below(13); void *want = dlsym(l.real, NM[k]); say(strf("  symbol %s", NM[k])); auto q = w(B("uv_dlsym"), {l.h, str(NM[k])}); if ((void *)q[0] != want) bad(strf("uv_dlsym %s gave %llx, dlsym %p", NM[k], (unsigned long long)q[0], want)); if ((int)q[1] != (want ? 0 : -1)) bad(strf("uv_dlsym %s returned %d", NM[k], (int)q[1])); if (want && k < 8) usefn(k, want); break; }
      case 10: { note(10, "uv_dlclose"); int i = (int)c.below(L.size()); say("  close"); w(B("uv_dlclose"), {L[i].h}); if (L[i].real) dlclose(L[i].real); std::string n = L[i].n; L.erase(L.begin() + i); unloaded(n); break; }
      default: { note(11, "uv_version"); uint64_t v = w(B("uv_version"), {})[0]; if (v != uv_version()) bad("uv_version"); }
    }
    for (auto &m : M) state(m); noisecheck();
  }
  void unloaded(const std::string &n) { if (n != "libBrokenLocale.so.1" && n != "libutil.so.1") return; for (auto &l : L) if (l.n == n && l.ok) return; void *q = dlopen(n.c_str(), RTLD_NOLOAD | RTLD_LAZY); if (q) bad(n + " is still loaded after every handle was closed"); x.count("library unloaded"); }
  // a library function found by name and called with generated arguments
  void usefn(int k, void *f) {
    static const char *SG[] = {"di>d", "l>l", "i>i", "p>l", "ppl>i", "d>d", "dd>d", "f>f"}; uint64_t a[3] = {0, 0, 0}; char s1[64], s2[64]; uint64_t want = 0; int n = (int)c.below(40); for (int i = 0; i < 63; i++) { s1[i] = (char)(1 + c.below(3)); s2[i] = (char)(1 + c.below(3)); } s1[n] = 0; s2[63] = 0;
    auto db = [&] { double d = (double)(int64_t)c.bits(40) / (double)(1 + c.below(1000)) * (c.coin() ? -1 : 1); uint64_t b; memcpy(&b, &d, 8); return b; }; auto D = [](uint64_t b) { double d; memcpy(&d, &b, 8); return d; }; auto U = [](double d) { uint64_t b; memcpy(&b, &d, 8); return b; };
    switch (k) { case 0: a[0] = db(); a[1] = (uint32_t)(int)c.range(-50, 50); want = U(((double (*)(double, int))f)(D(a[0]), (int)a[1])); break; case 1: a[0] = c.bits(63) * (c.coin() ? 1 : -1); want = ((long (*)(long))f)((long)a[0]); break; case 2: a[0] = (uint32_t)c.bits(31) * (c.coin() ? 1u : -1u); a[0] = (uint32_t)a[0]; want = (uint32_t)((int (*)(int))f)((int)a[0]); break; case 3: a[0] = (uint64_t)s1; want = ((size_t(*)(const char *))f)(s1); break;
      case 4: a[0] = (uint64_t)s1; a[1] = (uint64_t)s2; a[2] = (uint64_t)n; want = (uint32_t)((int (*)(const void *, const void *, size_t))f)(s1, s2, n); break; case 5: a[0] = db(); want = U(((double (*)(double))f)(D(a[0]))); break; case 6: a[0] = U(fabs(D(db()))); a[1] = U((double)c.range(-6, 6)); want = U(((double (*)(double, double))f)(D(a[0]), D(a[1]))); break; default: { float v = (float)c.bits(24) / 7; memcpy(&a[0], &v, 4); float r = ((float (*)(float))f)(v); uint32_t q; memcpy(&q, &r, 4); want = q; } }
    note(12, "library function called through libffi"); auto z = w(B("ffix_new_cif"), {str(SG[k])}); if (!z[0] || z[1]) bad("ffix_new_cif failed"); uint64_t r[2] = {0, 0}; w(B("ffix_call"), {z[0], (uint64_t)f, (uint64_t)r, (uint64_t)a}); char t = SG[k][strlen(SG[k]) - 1]; uint64_t got = t == 'i' || t == 'f' ? (uint32_t)r[0] : r[0]; if (k == 4 && (int)got * (int64_t)(int)want > 0) got = want; if (got != want) bad(strf("%s function called through the binding returned %llx, called directly %llx", SG[k], (unsigned long long)got, (unsigned long long)want)); w(B("ffix_del_cif"), {z[0]}); dist = mix64(dist ^ want);
  }
  void open(bool threads) { std::vector<const Bind *> bs; if (threads) for (auto &q : BUILTINS) bs.push_back(&q); for (auto &q : UV) bs.push_back(&q); if (!threads) for (auto &q : FFI) if (!strncmp(q.n, "ffix_new_cif", 12) || !strcmp(q.n, "ffix_call") || !strcmp(q.n, "ffix_del_cif")) bs.push_back(&q); b.imports(bs, false, 1); for (auto q : bs) if (strcmp(q->mod, "pwart_builtin")) b.wrap(q->n); ns = pwart_namespace_new(); char *e = pwart_syslib_load(ns); if (e) bad(strf("pwart_syslib_load: %s", e)); }
  void close() { for (auto &m : M) { if (m.held) w(B("uv_mutex_unlock"), {m.h}); w(B("uv_mutex_destroy"), {m.h}); } for (auto k : K) w(B("uv_cond_destroy"), {k}); for (auto &l : L) { w(B("uv_dlclose"), {l.h}); if (l.real) dlclose(l.real); } auto ll = L; L.clear(); for (auto &l : ll) unloaded(l.n); noisecheck(); char *e = pwart_syslib_unload(ns); if (e) bad("pwart_syslib_unload reports an error"); pwart_namespace_delete(ns); }
  void go() { open(false); st = define("m", b.m); int n = (int)c.range(4, x.thorough ? 60 : 30); for (int i = 0; i < n; i++) step(); close(); x.nontrivial = nops >= 4 && kinds.size() >= 3; x.hash = mix64(dist ^ nops); x.evals = nops; if (x.shm->nsamples < 1 && log.size() < 2500) x.sample = log; }
  // ---- threads ----
  static const int DONE = 64, CELL = 128, GO = 192, SLOT = 1024;
  void rthreads() {
    open(true); uint32_t gm = b.global(b.ref, 0), gc = b.global(b.ref, 0), gm2 = b.global(b.ref, 0), gc2 = b.global(b.ref, 0); const char *gn[] = {"mut", "cond", "mut2", "cond2"}; uint32_t gi[] = {gm, gc, gm2, gc2}; for (int i = 0; i < 4; i++) b.m.exports.push_back({gn[i], K_GLOBAL, gi[i]});
    int nent = (int)c.range(1, 3); struct E { uint32_t iters, spin, depth; bool tryl, wait; }; std::vector<E> E_; bool anywait = c.coin();
    auto ld = [&](uint32_t a) { b.e(0x41, 0, a); b.e(0x28, b.mOwn); }; auto inc = [&](uint32_t a) { b.e(0x41, 0, a); ld(a); b.e(0x41, 0, 1); b.e(0x6a); b.e(0x36, b.mOwn); };
    auto lock = [&](uint32_t g, const char *f) { b.e(0x23, g); b.call(f); };
    b.begin({I32, I64}, {I64}); { uint32_t t1 = b.loc(I64); b.e(0x20, 0); b.e(0x45); b.e(0x04, 0, I64); b.e(0x20, 1); b.e(0x05); b.e(0x20, 0); b.e(0x41, 0, 1); b.e(0x6b); b.e(0x20, 1); b.e(0x42, 0, 31); b.e(0x7e); b.e(0x20, 0); b.e(0xad); b.e(0x7c); b.e(0x22, t1); b.e(0x10, (uint32_t)(b.fi.size() + b.m.funcs.size())); b.e(0x20, t1); b.e(0x85); b.e(0x0b); } uint32_t recf = b.end("");
    for (int j = 0; j < nent; j++) {
      E q; q.iters = (uint32_t)c.range(0, 60); q.spin = (uint32_t)c.below(120); q.depth = (uint32_t)c.below(200); q.tryl = c.coin(); q.wait = anywait && c.pct(70); E_.push_back(q);
      b.begin({I64}, {}); uint32_t s = b.loc(I32), h = b.loc(I64), i = b.loc(I32), v = b.loc(I32), z = b.loc(I32), tr = b.loc(I32);
      b.e(0x20, 0); b.e(0xa7); b.e(0x41, 0, 15); b.e(0x71); b.e(0x41, 0, 64); b.e(0x6c); b.e(0x41, 0, SLOT); b.e(0x6a); b.e(0x21, s);
      if (q.wait) { lock(gm, "uv_mutex_lock"); b.e(0x02, 0, VOIDT); b.e(0x03, 0, VOIDT); ld(GO); b.e(0x0d, 1); b.e(0x23, gc2); b.e(0x23, gm); b.call("uv_cond_wait"); b.e(0x0c, 0); b.e(0x0b); b.e(0x0b); lock(gm, "uv_mutex_unlock"); lock(gc2, "uv_cond_signal"); }
      b.e(0x41, 0, q.depth); b.e(0x20, 0); b.e(0x10, recf); b.e(0x21, h);
      if (q.tryl) { b.e(0x23, gm2); b.call("uv_mutex_trylock"); b.e(0x21, tr); }
      if (q.iters) { b.e(0x41, 0, q.iters); b.e(0x21, i); b.e(0x03, 0, VOIDT); lock(gm, "uv_mutex_lock"); ld(CELL); b.e(0x21, v); if (q.spin) { b.e(0x41, 0, q.spin); b.e(0x21, z); b.e(0x03, 0, VOIDT); b.e(0x20, z); b.e(0x41, 0, 1); b.e(0x6b); b.e(0x22, z); b.e(0x0d, 0); b.e(0x0b); } b.e(0x41, 0, CELL); b.e(0x20, v); b.e(0x41, 0, 1); b.e(0x6a); b.e(0x36, b.mOwn); lock(gm, "uv_mutex_unlock"); b.e(0x20, i); b.e(0x41, 0, 1); b.e(0x6b); b.e(0x22, i); b.e(0x0d, 0); b.e(0x0b); }
      lock(gm, "uv_mutex_lock"); b.e(0x20, s); b.e(0x20, h); b.e(0x37, b.mOwn, 0); b.e(0x20, s); b.e(0x20, 0); b.e(0x37, b.mOwn, 8); b.e(0x20, s); b.e(0x20, tr); b.e(0x36, b.mOwn, 16); b.e(0x20, s); b.e(0x41, 0, j + 1); b.e(0x36, b.mOwn, 20); inc(DONE); lock(gc, "uv_cond_signal"); lock(gm, "uv_mutex_unlock"); b.end(strf("e%d", j));
      b.begin({}, {REF}); if (b.ref == FUNCREF) b.e(0xd2, (uint32_t)(b.fi.size() + b.m.funcs.size() - 1)); else b.e(0xd0, 0, EXTERNREF); b.end(strf("gete%d", j));
    }
    b.begin({I32}, {I32}); lock(gm, "uv_mutex_lock"); b.e(0x02, 0, VOIDT); b.e(0x03, 0, VOIDT); ld(DONE); b.e(0x20, 0); b.e(0x4e); b.e(0x0d, 1); b.e(0x23, gc); b.e(0x23, gm); b.call("uv_cond_wait"); b.e(0x0c, 0); b.e(0x0b); b.e(0x0b); ld(CELL); { uint32_t l = b.loc(I32); b.e(0x21, l); lock(gm, "uv_mutex_unlock"); b.e(0x20, l); } b.end("wait");
    b.begin({}, {}); lock(gm, "uv_mutex_lock"); b.e(0x41, 0, GO); b.e(0x41, 0, 1); b.e(0x36, b.mOwn); lock(gm, "uv_mutex_unlock"); lock(gc2, "uv_cond_signal"); b.end("go");
    st = define("m", b.m); auto G = [&](const char *n) { return (uint64_t *)pwart_get_export_global(st, (char *)n); };
    for (int i = 0; i < 4; i++) *G(gn[i]) = w(B(i % 2 ? "uv_cond_init" : "uv_mutex_init"), {})[0]; uint64_t m2 = *G("mut2"); w(B("uv_mutex_lock"), {m2});
    int rounds = (int)c.range(1, 2); uint32_t cell = 0, done = 0;
    for (int r = 0; r < rounds; r++) {
      int n = (int)c.range(1, 7); std::vector<uint64_t> arg; std::vector<int> ent; uint8_t *mb = mem()->bytes; memset(mb + SLOT, 0, 64 * 16); uint32_t zero = 0; memcpy(mb + GO, &zero, 4);
      for (int t = 0; t < n; t++) { arg.push_back((c.bits(60) << 4) | t); ent.push_back((int)c.below(nent)); } bool late = c.coin();
      auto create = [&](int t) { uint64_t f = b.ref == FUNCREF && c.coin() ? callf(fn(strf("gete%d", ent[t])), {}, {REF}, {})[0] : (uint64_t)fn(strf("e%d", ent[t])); say(strf("  thread e%d(%llx)", ent[t], (unsigned long long)arg[t])); w(B("uv_thread_create"), {f, arg[t]}); cell += E_[ent[t]].iters; nops++; x.count("uv_thread_create"); };
      int first = late ? n : n / 2; for (int t = 0; t < first; t++) create(t); callf(fn("go"), {}, {}, {}); for (int t = first; t < n; t++) create(t); done += n;
      uint32_t got = (uint32_t)callf(fn("wait"), {I32}, {I32}, {done})[0];
      if (got != cell) bad(strf("the threads counted to %u under the lock, expected %u", got, cell));
      for (int t = 0; t < n; t++) { uint8_t *p = mb + SLOT + 64 * t; uint64_t h, a; uint32_t tr, j; memcpy(&h, p, 8); memcpy(&a, p + 8, 8); memcpy(&tr, p + 16, 4); memcpy(&j, p + 20, 4); E &q = E_[ent[t]]; if ((int)j != ent[t] + 1) bad(strf("thread %d ran entry %d, expected %d", t, (int)j - 1, ent[t])); if (a != arg[t]) bad(strf("thread %d got argument %llx, expected %llx", t, (unsigned long long)a, (unsigned long long)arg[t]));
        std::vector<uint64_t> ch; uint64_t v = arg[t]; for (uint32_t k = q.depth; k > 0; k--) { v = v * 31 + k; ch.push_back(v); } for (size_t k = ch.size(); k-- > 0;) v ^= ch[k]; if (h != v) bad(strf("thread %d computed %llx, expected %llx", t, (unsigned long long)h, (unsigned long long)v)); if (q.tryl && (int)tr != UV_EBUSY) bad(strf("uv_mutex_trylock on a mutex another thread holds returned %d", (int)tr)); dist = mix64(dist ^ h); }
      // the entries have returned when only this thread is left
      while (tasks() > base) usleep(100);
    }
    w(B("uv_mutex_unlock"), {m2}); for (int i = 0; i < 4; i++) w(B(i % 2 ? "uv_cond_destroy" : "uv_mutex_destroy"), {*G(gn[i])}); close(); x.nontrivial = true; x.hash = dist; x.evals = nops; if (x.shm->nsamples < 1) x.sample = log;
  }
  static inline int base = 0; static int tasks() { struct stat q; return stat("/proc/self/task", &q) ? 0 : (int)q.st_nlink; }      // the listing of this directory can miss threads while others end; its link count does not
  static void calibrate() { if (!base) base = tasks(); }
};
void uv(Ctx &x) { UW w(x); w.go(); }
void threads(Ctx &x) { UW::calibrate(); UW w(x); w.rthreads(); }
