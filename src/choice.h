// Choice source: every random decision of every generator goes through here.
// Live mode draws from a PRNG and records; replay mode reads a recorded vector (0 past its end).
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <initializer_list>

static inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

class Choices {
 public:
  std::vector<uint64_t> rec;
  explicit Choices(uint64_t seed) : s_(seed), live_(true) {}
  explicit Choices(const std::vector<uint64_t> &v) : in_(v), live_(false) {}
  // uniform in [0,n)
  uint64_t below(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v;
    if (live_) { v = next() % n; }
    else { v = pos_ < in_.size() ? in_[pos_] : 0; pos_++; if (v >= n) v %= n; }
    push(v);
    return v;
  }
  uint64_t bits(int k) {  // k bits
    if (k >= 64) {
      uint64_t v;
      if (live_) v = next();
      else { v = pos_ < in_.size() ? in_[pos_] : 0; pos_++; }
      push(v);
      return v;
    }
    return below(1ull << k);
  }
  // inclusive range; 0 draw gives lo
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  // true with probability p percent; draw 0 is false
  bool pct(int p) { return (int)below(100) >= 100 - p; }
  bool coin() { return below(2) != 0; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  // weighted index; a zero weight is never chosen
  int weighted(const std::vector<int> &w) {
    uint64_t tot = 0;
    for (int x : w) tot += x;
    uint64_t r = below(tot);
    for (size_t i = 0; i < w.size(); i++) {
      if (r < (uint64_t)w[i]) return (int)i;
      r -= w[i];
    }
    return (int)w.size() - 1;
  }
  // small number biased to small values, in [0,max]
  int small(int max) {
    int a = (int)below(max + 1), b = (int)below(max + 1);
    return a < b ? a : b;
  }
  bool exhausted() const { return !live_ && pos_ > in_.size(); }
  // copy of the draws in shared memory, so that they survive a crash of the case
  uint64_t *mirror = nullptr; uint64_t mirror_cap = 0;   // mirror[0] = count
 private:
  void push(uint64_t v) {
    rec.push_back(v);
    if (mirror && rec.size() < mirror_cap) { mirror[rec.size()] = v; mirror[0] = rec.size(); }
  }
  uint64_t next() { s_ += 0x9e3779b97f4a7c15ull; uint64_t z = s_;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  uint64_t s_ = 0;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  bool live_;
};
