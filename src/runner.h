// Case runner: forked batches, crash and CPU-limit capture, three-fold confirmation, shrinking, evidence, replay.
#pragma once
#include "choice.h"
#include <stdexcept>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <malloc.h>
#include <errno.h>

struct CaseFail { std::string msg; };
struct Discard { const char *why; };
static inline std::string strf(const char *f, ...) __attribute__((format(printf, 1, 2)));
static inline std::string strf(const char *f, ...) {
  va_list a; va_start(a, f); char *p = nullptr; int n = vasprintf(&p, f, a); va_end(a);
  std::string s(p ? p : "", n > 0 ? n : 0); free(p); return s;
}
#define FAIL(...) throw CaseFail{strf(__VA_ARGS__)}
#define REQUIRE(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)

struct Shm {                         // one per slot
  volatile uint64_t cur;             // index in progress
  uint64_t evals, discards, nontriv;
  char msg[6000];
  char sample[3][3000]; int nsamples;
  struct { char name[56]; uint64_t n; } cnt[400]; int ncnt;
  char detail[200000];
};

struct Ctx {
  Choices &c;
  bool nontrivial = false;
  uint64_t hash = 0;                 // identity of the case, for distinctness
  std::string sample;                // written-out case
  bool verbose = false;              // replay: fill detail
  Shm *shm;
  bool thorough = false;
  uint64_t index = 0;
  uint64_t evals = 1;                // a case may stand for several evaluations
  Ctx(Choices &c, Shm *s) : c(c), shm(s) {}
  void dump(const std::string &s) { if (verbose) { size_t n = strlen(shm->detail); strncat(shm->detail + n, s.c_str(), sizeof shm->detail - n - 1); } }
  void count(const char *label, uint64_t n = 1) {
    for (int i = 0; i < shm->ncnt; i++) if (!strncmp(shm->cnt[i].name, label, 55)) { shm->cnt[i].n += n; return; }
    if (shm->ncnt < 400) { strncpy(shm->cnt[shm->ncnt].name, label, 55); shm->cnt[shm->ncnt++].n = n; }
  }
  void count(const std::string &l, uint64_t n = 1) { count(l.c_str(), n); }
};

typedef void (*CaseFn)(Ctx &);
struct Family { const char *name; CaseFn fn; uint64_t quick, thorough; int batch = 100; bool racy = false; };      // racy: a failure may need a schedule, so fewer of the repetitions have to show it
struct Probe { const char *key; CaseFn fn; };      // deterministic case for a recorded finding
struct CheckDef {
  const char *id; const char *rule;
  std::vector<Family> fams;
  std::vector<Probe> probes;
  int cpu_limit_s = 20, wall_limit_s = 0;      // the second for checks whose cases can block
  std::vector<std::string> assumptions;
  void (*child_init)() = nullptr;
};

namespace rn {
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void on_prof(int) { _exit(43); }
static void on_wall(int) { _exit(45); }
static void arm(int cpu_s, int wall_s = 0) {
  signal(SIGPROF, on_prof);
  if (wall_s) { signal(SIGALRM, on_wall); alarm(wall_s); }
  itimerval it = {}; it.it_value.tv_sec = cpu_s; setitimer(ITIMER_PROF, &it, nullptr);
}
struct Outcome { bool failed = false; std::string what; bool harness = false; };

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) o += strf("\\u%04x", ch);
    else o += ch;
  }
  return o;
}
static std::string slurp(const std::string &p, size_t max = 1 << 20) {
  std::string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s;
  char b[4096]; size_t n; while (s.size() < max && (n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f); return s;
}

struct Runner {
  CheckDef &d; uint64_t seed; bool thorough; std::string root, tmp;
  std::vector<Shm *> slots; int W;
  uint64_t *hashes = nullptr; uint64_t total = 0; std::vector<uint64_t> fam_off;
  double t0 = now();
  int unconfirmed = 0, violations = 0;
  Runner(CheckDef &d) : d(d) {
    const char *s = getenv("VERIF_SEED"); seed = s && *s ? strtoull(s, 0, 10) : 1;
    const char *t = getenv("VERIF_TIER"); thorough = t && !strcmp(t, "thorough");
    const char *r = getenv("VERIF_ROOT"); root = r ? r : "/verif";
    const char *td = getenv("VERIF_TMP"); tmp = td ? td : "/tmp";
    W = (int)sysconf(_SC_NPROCESSORS_ONLN); if (W < 2) W = 2; if (W > 16) W = 16; if (const char *j = getenv("VERIF_JOBS")) { int k = atoi(j); if (k > 0 && k <= 64) W = k; }
    for (int i = 0; i < W; i++)
      slots.push_back((Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  }
  uint64_t case_seed(int fam, uint64_t idx) {
    return mix64(mix64(mix64(seed) ^ (uint64_t)fam * 0x1234567) ^ idx ^ mix64(strtoull(d.id + 1, 0, 10)));
  }
  void child_setup(int slot) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int n = open("/dev/null", O_WRONLY); dup2(n, 1);
    std::string e = strf("%s/err.%s.%d", tmp.c_str(), d.id, slot);
    int f = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (f >= 0) dup2(f, 2);
    rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
#ifndef __SANITIZE_ADDRESS__
    mallopt(M_PERTURB, 0x5a);
#endif
    if (d.child_init) d.child_init();
  }
  // run one case in this process
  void one(Shm *shm, int fam, uint64_t idx, Choices &c, bool verbose, CaseFn fn = nullptr) {
    Ctx x(c, shm); x.verbose = verbose; x.thorough = thorough; x.index = idx;
    arm(d.cpu_limit_s, d.wall_limit_s);
    try {
      (fn ? fn : d.fams[fam].fn)(x);
      shm->evals += x.evals;
      if (x.nontrivial) {
        shm->nontriv++;
        if (hashes && fam >= 0) hashes[fam_off[fam] + idx] = x.hash ? x.hash : 1;
        if (!x.sample.empty() && shm->nsamples < 3) { strncpy(shm->sample[shm->nsamples], x.sample.c_str(), 2999); shm->nsamples++; }
      }
    } catch (Discard &e) {
      shm->discards++; x.count(std::string("discard: ") + e.why);
    } catch (CaseFail &f) {
      strncpy(shm->msg, f.msg.c_str(), sizeof shm->msg - 1);
      _exit(42);
    } catch (std::exception &e) {
      strncpy(shm->msg, (std::string("harness exception: ") + e.what()).c_str(), sizeof shm->msg - 1);
      _exit(44);
    }
    itimerval it = {}; setitimer(ITIMER_PROF, &it, nullptr); if (d.wall_limit_s) alarm(0);
  }
  Outcome decode(int st, int slot) {
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    o.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) o.what = slots[slot]->msg;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 44) { o.harness = true; o.what = slots[slot]->msg; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 43) o.what = strf("does not terminate (more than %d s of CPU time)", d.cpu_limit_s);
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 45) o.what = strf("blocks for ever (more than %d s)", d.wall_limit_s);
    else if (WIFSIGNALED(st)) o.what = strf("the process died of signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    else o.what = strf("the process exited with status %d in the middle of the case", WEXITSTATUS(st));
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) o.harness = true;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 42)) {
      std::string e = slurp(strf("%s/err.%s.%d", tmp.c_str(), d.id, slot), 5000);
      if (!e.empty()) o.what += "\n" + e;
    }
    return o;
  }
  pid_t spawn(int slot, std::function<void(Shm *)> f) {
    slots[slot]->msg[0] = 0; slots[slot]->detail[0] = 0;
    fflush(stdout); fflush(stderr);
    if (getenv("VERIF_NOFORK")) { child_setup(slot); f(slots[slot]); exit(0); }   // for a debugger
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(3); }
    if (p == 0) { child_setup(slot); f(slots[slot]); _exit(0); }
    return p;
  }
  Outcome run_one(int slot, int fam, uint64_t idx, const std::vector<uint64_t> *v, bool verbose, CaseFn fn = nullptr) {
    pid_t p = spawn(slot, [&](Shm *s) {
      if (v) { Choices c(*v); one(s, fam, idx, c, verbose, fn); }
      else { Choices c(case_seed(fam, idx)); one(s, fam, idx, c, verbose, fn); }
    });
    int st; waitpid(p, &st, 0); return decode(st, slot);
  }
  // the draws of a live case, even if it crashes
  std::vector<uint64_t> record(int slot, int fam, uint64_t idx) {
    size_t cap = 1 << 22;
    uint64_t *buf = (uint64_t *)mmap(0, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pid_t p = spawn(slot, [&](Shm *s) { Choices c(case_seed(fam, idx)); c.mirror = buf; c.mirror_cap = cap; one(s, fam, idx, c, false); });
    int st; waitpid(p, &st, 0);
    std::vector<uint64_t> v(buf + 1, buf + 1 + buf[0]);
    munmap(buf, cap * 8);
    return v;
  }
  int run();
  int replay(const char *file);
  std::vector<uint64_t> shrink(int fam, std::vector<uint64_t> v, std::string &what);
  void evidence();
};

// ---- shrinking: candidates are tried W at a time in forked children ----
inline std::vector<uint64_t> Runner::shrink(int fam, std::vector<uint64_t> v, std::string &what) {
  double tend = now() + (thorough ? 240 : 90);
  int tries = 0;
  auto better = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  // returns true and replaces v when one of the candidates (first in order) still fails
  auto attempt = [&](std::vector<std::vector<uint64_t>> cand) -> bool {
    for (size_t base = 0; base < cand.size(); base += W) {
      if (now() > tend || tries > 20000) return false;
      size_t n = std::min((size_t)W, cand.size() - base);
      std::vector<pid_t> ps(n); std::vector<Outcome> os(n);
      for (size_t i = 0; i < n; i++) {
        auto &cv = cand[base + i];
        ps[i] = spawn((int)i, [&](Shm *s) { Choices c(cv); one(s, fam, 0, c, false); });
      }
      for (size_t i = 0; i < n; i++) { int st; waitpid(ps[i], &st, 0); os[i] = decode(st, (int)i); tries++; }
      for (size_t i = 0; i < n; i++)
        if (os[i].failed && !os[i].harness && better(cand[base + i], v)) { v = cand[base + i]; what = os[i].what; return true; }
    }
    return false;
  };
  bool progress = true;
  while (progress && now() < tend) {
    progress = false;
    for (size_t k = v.size() / 2; k >= 1; k /= 2) {           // delete spans
      bool again = true;
      while (again && now() < tend) {
        again = false;
        std::vector<std::vector<uint64_t>> cs;
        for (size_t i = 0; i + k <= v.size(); i += std::max<size_t>(1, k)) {
          auto w = v; w.erase(w.begin() + i, w.begin() + i + k); cs.push_back(w);
          if (cs.size() >= 400) break;
        }
        std::reverse(cs.begin(), cs.end());
        if (attempt(cs)) { again = progress = true; }
      }
      if (k == 1) break;
    }
    for (size_t k = std::min<size_t>(v.size(), 64); k >= 1; k /= 2) {   // zero spans
      std::vector<std::vector<uint64_t>> cs;
      for (size_t i = 0; i < v.size(); i += k) {
        bool nz = false; auto w = v;
        for (size_t j = i; j < i + k && j < v.size(); j++) { nz |= w[j] != 0; w[j] = 0; }
        if (nz) cs.push_back(w);
      }
      int rounds = 0;
      while (attempt(cs) && ++rounds < 200) {
        progress = true; cs.clear();
        for (size_t i = 0; i < v.size(); i += k) {
          bool nz = false; auto w = v;
          for (size_t j = i; j < i + k && j < v.size(); j++) { nz |= w[j] != 0; w[j] = 0; }
          if (nz) cs.push_back(w);
        }
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < v.size() && now() < tend; i++) {    // smaller values
      if (!v[i]) continue;
      std::vector<std::vector<uint64_t>> cs;
      for (uint64_t t : {v[i] / 2, v[i] - v[i] / 4, v[i] - 1}) if (t < v[i]) { auto w = v; w[i] = t; cs.push_back(w); }
      int guard = 0;
      while (attempt(cs) && ++guard < 70) {
        progress = true; cs.clear(); if (!v[i]) break;
        for (uint64_t t : {v[i] / 2, v[i] - v[i] / 4, v[i] - 1}) if (t < v[i]) { auto w = v; w[i] = t; cs.push_back(w); }
      }
    }
  }
  return v;
}

inline void Runner::evidence() {
  uint64_t ev = 0, dis = 0; std::map<std::string, uint64_t> cnt; std::vector<std::string> samples;
  for (auto s : slots) {
    ev += s->evals; dis += s->discards;
    for (int i = 0; i < s->ncnt; i++) cnt[s->cnt[i].name] += s->cnt[i].n;
    for (int i = 0; i < s->nsamples; i++) samples.push_back(s->sample[i]);
  }
  std::set<uint64_t> u; if (hashes) for (uint64_t i = 0; i < total; i++) if (hashes[i]) u.insert(hashes[i]);
  mkdir((root + "/evidence").c_str(), 0755);
  std::string p = strf("%s/evidence/%s.json", root.c_str(), d.id);
  FILE *f = fopen(p.c_str(), "w"); if (!f) { perror(p.c_str()); exit(3); }
  fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%llu,\"level\":\"exploration\",\"coverage\":{", d.id, thorough ? "thorough" : "quick", (unsigned long long)seed);
  fprintf(f, "\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"discarded\":%llu,\"rule\":\"%s\",", (unsigned long long)ev, (unsigned long long)u.size(), (unsigned long long)dis, jesc(d.rule).c_str());
  fprintf(f, "\"unconfirmed\":%d,\"classes\":{", unconfirmed);
  bool first = true; for (auto &k : cnt) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); first = false; }
  fprintf(f, "},\"samples\":[");
  for (size_t i = 0; i < samples.size() && i < 6; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
  fprintf(f, "]},\"assumptions\":[");
  for (size_t i = 0; i < d.assumptions.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(d.assumptions[i]).c_str());
  fprintf(f, "],\"wall_s\":%.2f,\"violations\":%d}\n", now() - t0, violations);
  fclose(f);
  printf("%s: %llu cases, %zu distinct non-trivial, %llu discarded, %.1f s\n", d.id, (unsigned long long)ev, u.size(), (unsigned long long)dis, now() - t0);
}

inline int Runner::run() {
  fam_off.clear(); total = 0;
  double mult = 1; if (const char *m = getenv("VERIF_MULT")) mult = atof(m);
  const char *only = getenv("VERIF_FAMILY");
  std::vector<uint64_t> N;
  for (auto &f : d.fams) {
    fam_off.push_back(total); uint64_t n = (uint64_t)((thorough ? f.thorough : f.quick) * mult);
    if (only && strcmp(only, f.name)) n = 0;
    N.push_back(n); total += n;
  }
  hashes = (uint64_t *)mmap(0, (total + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  // recorded findings
  {
    std::string kf = slurp(root + "/known_findings.txt"); size_t p = 0;
    while (p < kf.size()) {
      size_t e = kf.find('\n', p); if (e == std::string::npos) e = kf.size();
      std::string line = kf.substr(p, e - p); p = e + 1;
      std::string pre = strf("known: property=%s key=", d.id);
      if (line.compare(0, pre.size(), pre)) continue;
      std::string rest = line.substr(pre.size()), key = rest.substr(0, rest.find(' '));
      std::string text = rest.find(' ') == std::string::npos ? "" : rest.substr(rest.find(' ') + 1);
      for (auto &pr : d.probes) if (key == pr.key) {
        std::vector<uint64_t> v; Outcome o = run_one(0, -1, 0, &v, false, pr.fn);
        if (o.failed) printf("KNOWN-FINDING: property=%s [%s] %s\n", d.id, key.c_str(), text.c_str());
        else printf("note: recorded finding %s no longer fails\n", key.c_str());
      }
    }
  }
  struct Job { int fam; uint64_t a, b; };
  std::vector<Job> jobs;
  // interleave families so that a failure anywhere shows early
  { std::vector<uint64_t> pos(d.fams.size(), 0); bool more = true;
    while (more) { more = false; for (size_t f = 0; f < d.fams.size(); f++) if (pos[f] < N[f]) {
      uint64_t b = std::min(N[f], pos[f] + (uint64_t)d.fams[f].batch); jobs.push_back({(int)f, pos[f], b}); pos[f] = b; more = true; } } }
  struct Run { pid_t pid = 0; Job j; double t; };
  std::vector<Run> run(W); size_t next = 0;
  struct Bad { int fam; uint64_t idx, batch0; std::string what; };
  std::vector<Bad> bad;
  double budget = thorough ? 3600 * 3 : 600; if (const char *b = getenv("VERIF_BUDGET")) budget = atof(b);
  bool cut = false; bool keep = getenv("VERIF_KEEP_GOING") != nullptr; std::map<std::string,int> seen;
resume:
  while (true) {
    int live = 0;
    for (int w = 0; w < W; w++) {
      if (run[w].pid) {
        int st; pid_t r = waitpid(run[w].pid, &st, WNOHANG);
        if (r == run[w].pid) {
          run[w].pid = 0; Outcome o = decode(st, w);
          if (o.failed) {
            if (o.harness) { printf("harness error in %s/%s case %llu: %s\n", d.id, d.fams[run[w].j.fam].name, (unsigned long long)slots[w]->cur, o.what.c_str()); if (WIFEXITED(st)) return 3; }
            else if (keep) {
              std::string k = strf("%s: %s", d.fams[run[w].j.fam].name, o.what.substr(0, 150).c_str());
              if (seen[k.substr(0,60)]++ < 3) printf("FAIL %s case %llu %s\n", d.id, (unsigned long long)slots[w]->cur, k.c_str());
              Job rest = run[w].j; rest.a = slots[w]->cur + 1; if (rest.a < rest.b) jobs.insert(jobs.begin() + next, rest);
            }
            else bad.push_back({run[w].j.fam, slots[w]->cur, run[w].j.a, o.what});
          }
        } else {
          live++;
          if (now() - run[w].t > 600) { kill(run[w].pid, SIGKILL); }
        }
      }
      if (!run[w].pid && bad.empty() && next < jobs.size() && !cut) {
        if (now() - t0 > budget) { cut = true; continue; }
        Job j = jobs[next++]; run[w].j = j; run[w].t = now();
        run[w].pid = spawn(w, [&](Shm *s) {
          for (uint64_t i = j.a; i < j.b; i++) { s->cur = i; Choices c(case_seed(j.fam, i)); one(s, j.fam, i, c, false); }
        });
        live++;
      }
    }
    if (!live && (next >= jobs.size() || !bad.empty() || cut)) break;
    usleep(500);
  }
  if (cut) printf("%s: time budget reached after %zu of %zu batches\n", d.id, next, jobs.size());
  if (keep) for (auto &k : seen) printf("  %5d x %s\n", k.second, k.first.c_str());
  std::sort(bad.begin(), bad.end(), [](const Bad &a, const Bad &b) { return a.fam != b.fam ? a.fam < b.fam : a.idx < b.idx; });
  for (auto &b : bad) {
    int again = 0; Outcome last;
    bool racy = d.fams[b.fam].racy, hang = b.what.compare(0, 6, "blocks") == 0, late = now() - t0 > 400; int reps = racy && !hang ? 12 : 3;
    for (int i = 0; i < reps && again < 3 && !(hang && racy && again); i++) { Outcome o = run_one(0, b.fam, b.idx, nullptr, false); if (o.failed && !o.harness) { again++; last = o; } }
    int seen_ = again; if (racy && again) again = 3;
    mkdir((root + "/evidence").c_str(), 0755);
    std::string path = strf("%s/evidence/replay-%s.json", root.c_str(), d.id);
    if (again == 3) {
      std::vector<uint64_t> v = record(0, b.fam, b.idx); std::string what = last.what;
      if (!hang && !late && !getenv("VERIF_NOSHRINK") && !(racy && seen_ < 3)) { Outcome o = run_one(0, b.fam, 0, &v, false); if (o.failed) v = shrink(b.fam, v, what); }
      Outcome fin; for (int i = 0; i < (racy && !hang ? 12 : 1) && !fin.failed; i++) fin = run_one(0, b.fam, 0, &v, true);
      FILE *f = fopen(path.c_str(), "w");
      fprintf(f, "{\"property\":\"%s\",\"family\":\"%s\",\"seed\":%llu,\"index\":%llu,\"message\":\"%s\",\n\"detail\":\"%s\",\n\"choices\":[", d.id, d.fams[b.fam].name,
        (unsigned long long)seed, (unsigned long long)b.idx, jesc(fin.failed ? fin.what : what).c_str(), jesc(slots[0]->detail).c_str());
      for (size_t i = 0; i < v.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)v[i]);
      fprintf(f, "]}\n"); fclose(f);
      printf("%s/%s case %llu: %s\n%s\n", d.id, d.fams[b.fam].name, (unsigned long long)b.idx, (fin.failed ? fin.what : what).c_str(), slots[0]->detail);
      printf("VIOLATION property=%s replay=%s\n", d.id, path.c_str()); violations++; break;
    }
    // not on its own: the cases before it in its batch may matter
    int ag2 = 0; Outcome l2;
    for (int i = 0; i < (racy && !hang ? 12 : hang ? 1 : 3) && ag2 < 3; i++) {
      pid_t p = spawn(0, [&](Shm *s) { for (uint64_t k = b.batch0; k <= b.idx; k++) { s->cur = k; Choices c(case_seed(b.fam, k)); one(s, b.fam, k, c, false); } });
      int st; waitpid(p, &st, 0); Outcome o = decode(st, 0); if (o.failed && !o.harness) { ag2++; l2 = o; }
    }
    if ((racy || hang) && ag2) ag2 = 3;
    if (ag2 == 3) {
      FILE *f = fopen(path.c_str(), "w");
      fprintf(f, "{\"property\":\"%s\",\"family\":\"%s\",\"seed\":%llu,\"batch_from\":%llu,\"index\":%llu,\"message\":\"%s\"}\n", d.id, d.fams[b.fam].name,
        (unsigned long long)seed, (unsigned long long)b.batch0, (unsigned long long)b.idx, jesc(l2.what).c_str());
      fclose(f);
      printf("%s/%s cases %llu..%llu in one process: %s\n", d.id, d.fams[b.fam].name, (unsigned long long)b.batch0, (unsigned long long)b.idx, l2.what.c_str());
      printf("VIOLATION property=%s replay=%s\n", d.id, path.c_str()); violations++; break;
    }
    unconfirmed++;
    printf("unconfirmed (failed once, %d/3 alone, %d/3 in its batch): %s/%s case %llu: %s\n", again, ag2, d.id, d.fams[b.fam].name, (unsigned long long)b.idx, b.what.c_str());
  }
  if (!violations && !bad.empty()) {      // none confirmed: go on with the rest
    for (auto &b : bad) { uint64_t e = std::min(N[b.fam], b.batch0 + (uint64_t)d.fams[b.fam].batch); if (b.idx + 1 < e) jobs.push_back({b.fam, b.idx + 1, e}); }
    bad.clear(); if (unconfirmed < 50) goto resume;
  }
  evidence();
  return violations ? 1 : 0;
}

inline int Runner::replay(const char *file) {
  std::string s = slurp(file, 1 << 26);
  auto field = [&](const char *k) { std::string key = strf("\"%s\":", k); size_t p = s.find(key); return p == std::string::npos ? std::string::npos : p + key.size(); };
  size_t p = field("family"); if (p == std::string::npos) { printf("bad replay file\n"); return 3; }
  size_t e = s.find('"', p + 1); std::string fam = s.substr(p + 1, e - p - 1); int fi = -1;
  for (size_t i = 0; i < d.fams.size(); i++) if (fam == d.fams[i].name) fi = (int)i;
  if (fi < 0) { printf("unknown family %s\n", fam.c_str()); return 3; }
  seed = strtoull(s.c_str() + field("seed"), 0, 10); hashes = nullptr;
  Outcome o;
  if ((p = field("choices")) != std::string::npos) {
    std::vector<uint64_t> v; const char *q = s.c_str() + p + 1;
    while (*q && *q != ']') { char *n; v.push_back(strtoull(q, &n, 10)); q = n; if (*q == ',') q++; }
    o = run_one(0, fi, 0, &v, true);
  } else {
    uint64_t a = strtoull(s.c_str() + field("batch_from"), 0, 10), b = strtoull(s.c_str() + field("index"), 0, 10);
    pid_t c = spawn(0, [&](Shm *sh) { for (uint64_t k = a; k <= b; k++) { Choices ch(case_seed(fi, k)); one(sh, fi, k, ch, k == b); } });
    int st; waitpid(c, &st, 0); o = decode(st, 0);
  }
  printf("%s\n%s\n", slots[0]->detail, o.failed ? o.what.c_str() : "passes");
  if (o.failed) { printf("VIOLATION property=%s replay=%s\n", d.id, file); return 1; }
  return 0;
}
}  // namespace rn

static inline int check_main(CheckDef &d, int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  rn::Runner r(d);
  if (argc == 3 && !strcmp(argv[1], "--replay")) return r.replay(argv[2]);
  if (argc == 4 && !strcmp(argv[1], "--case")) {          // --case family index
    for (size_t i = 0; i < d.fams.size(); i++) if (!strcmp(argv[2], d.fams[i].name)) {
      rn::Outcome o = r.run_one(0, (int)i, strtoull(argv[3], 0, 10), nullptr, true);
      printf("%s\n%s\n", r.slots[0]->detail, o.failed ? o.what.c_str() : "passes"); return o.failed;
    }
    return 3;
  }
  if (argc == 4 && !strcmp(argv[1], "--shrink")) {        // --shrink family index
    for (size_t i = 0; i < d.fams.size(); i++) if (!strcmp(argv[2], d.fams[i].name)) {
      auto v = r.record(0, (int)i, strtoull(argv[3], 0, 10)); std::string what;
      v = r.shrink((int)i, v, what); rn::Outcome o = r.run_one(0, (int)i, 0, &v, true);
      printf("%s\n%s\n", r.slots[0]->detail, o.what.c_str());
    }
    return 0;
  }
  if (argc == 2 && !strcmp(argv[1], "--probes")) {
    for (auto &p : d.probes) { std::vector<uint64_t> v; rn::Outcome o = r.run_one(0, -1, 0, &v, false, p.fn); printf("%s: %s\n", p.key, o.failed ? o.what.c_str() : "passes"); }
    return 0;
  }
  return r.run();
}
