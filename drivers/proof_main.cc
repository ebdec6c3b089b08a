// native meaning of proofs/vf.hh: values come from the input line (hex, in call order) or from a seeded generator biased to edge values
#include "vf.hh"
#include "Error.hh"
#include <iostream>
#include <sstream>
#include <cstring>
#include <map>
#include <cmath>
#include <ctime>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/wait.h>
#include <limits>
struct Skip {}; 
static std::vector<std::string> toks; static bool rnd; static uint64_t seed_; static std::string failed, trace; static int expect;
static uint64_t next() { seed_ ^= seed_ << 13; seed_ ^= seed_ >> 7; seed_ ^= seed_ << 17; return seed_ * 0x2545F4914F6CDD1DULL; }
// the first unused "label=value" of the input line with this label
static uint64_t tok(char const *n, bool &have) { have = false; if (rnd) return 0; std::string l(n); for (auto &c : l) if (c == ' ') c = '_'; l += '='; for (auto &t : toks) if (t.compare(0, l.size(), l) == 0) { have = true; uint64_t v = strtoull(t.c_str() + l.size(), nullptr, 16); t.clear(); return v; } return 0; }
static uint64_t log(char const *n, uint64_t v) { char b[200]; snprintf(b, sizeof b, "%s=%llx ", n, (unsigned long long) v); trace += b; return v; }
static uint64_t bits(char const *n, int w) {
  bool h; uint64_t v = tok(n, h);
  if (!h) {
    uint64_t r = next(); uint64_t m = w == 64 ? ~0ULL : (1ULL << w) - 1;
    switch (r % 8) { case 0: v = 0; break; case 1: v = 1; break; case 2: v = m; break; case 3: v = m >> 1; break; case 4: v = (m >> 1) + 1; break; case 5: v = (next() >> 20) % 10; break; case 6: v = m + 1 - (next() >> 20) % 10; break; default: v = next() >> 3; }
    v &= m;
  }
  return log(n, v);
}
extern "C" {
bool vf_bool(char const *n) { bool h; uint64_t v = tok(n, h); if (!h) v = next() >> 33 & 1; return log(n, v & 1); }
uint8_t vf_u8(char const *n) { return bits(n, 8); } uint16_t vf_u16(char const *n) { return bits(n, 16); }
int32_t vf_i32(char const *n) { return (int32_t) bits(n, 32); } uint32_t vf_u32(char const *n) { return bits(n, 32); } int64_t vf_i64(char const *n) { return bits(n, 64); } uint64_t vf_u64(char const *n) { return bits(n, 64); }
float vf_f32(char const *n) { uint32_t b = bits(n, 32); float f; memcpy(&f, &b, 4); return f; }
double vf_f64(char const *n) {
  bool h; uint64_t v = tok(n, h); double d;
  if (h) { memcpy(&d, &v, 8); log(n, v); return d; }
  static double const E[] = { 0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1e9, -1e9, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 9223372036854775807.0, -9223372036854775808.0, 1e300, -1e300, NAN, INFINITY, -INFINITY, 1e-9, -1e-9, 0.999999999, 1.5, -1.5, 4.9e-324 };
  uint64_t r = next();
  if (r % 3 == 0) d = E[(r >> 8) % (sizeof E / sizeof *E)]; else if (r % 3 == 1) d = ((double) (int64_t) next()) / (double) (1ULL << (next() % 60)); else { v = next(); memcpy(&d, &v, 8); }
  memcpy(&v, &d, 8); log(n, v); return d;
}
size_t vf_size(char const *n, size_t lo, size_t hi) { bool h; uint64_t v = tok(n, h); if (!h) { size_t top = hi - lo > 200 ? lo + 200 : hi; uint64_t r = next(); v = r % 3 == 0 ? lo + (r >> 8) % ((top - lo < 4 ? top - lo : 4) + 1) : lo + (r >> 8) % (top - lo + 1); } if (v < lo || v > hi) throw Skip(); if (v > 100000) throw Skip(); return log(n, v); }
void vf_string(std::string *s, char const *n) { static char const *V[] = { "", "a", "b", "ab", "abc", "foo", "UNKNOWN" }; uint64_t r = next(); s->clear(); if (r % 4) *s = V[(r >> 8) % 7]; else { size_t l = (r >> 8) % 300; for (size_t i = 0; i < l; ++i) s->push_back((char) (next() >> 11)); } log(n, s->size()); }
void vf_vec_u8(std::vector<uint8_t> *v, char const *n) { size_t l = vf_size(n, 0, 300); v->resize(l); for (auto &x : *v) x = next() >> 9; }
void vf_vec_i32(std::vector<int32_t> *v, char const *n) { size_t l = vf_size(n, 0, 300); v->resize(l); for (auto &x : *v) x = (next() >> 9) % 3 ? (int32_t) (next() >> 7) % 5 : next(); }
void vf_vec_f64(std::vector<double> *v, char const *n) { size_t l = vf_size(n, 0, 300); v->resize(l); for (auto &x : *v) x = (int32_t) next() / 16.0; }
void vf_vec_bool(std::vector<bool> *v, char const *n, size_t l) { v->resize(l); for (size_t i = 0; i < l; ++i) (*v)[i] = (next() >> 9) % 3; }
void vf_assume(bool c) { if (!c) throw Skip(); }
void vf_check(bool c, char const *w) { if (!c && failed.empty()) failed = w; }
void vf_expect_error(bool c) { expect = c; }
bool vf_same_f64(double a, double b) { return (a != a && b != b) || !memcmp(&a, &b, 8); }
}
int main() {
  PLEXIL::Error::doThrowExceptions();
  std::string line;
  while (std::getline(std::cin, line)) {
    // <proof> <mode: V|R> <values | seed count>
    std::istringstream in(line); std::string name, mode; in >> name >> mode; toks.clear();
    uint64_t seed = 1; long count = 60;
    rnd = mode == "R"; if (rnd) in >> seed >> count; else { std::string t; while (in >> t) toks.push_back(t); }
    void (*f)() = (void (*)()) dlsym(RTLD_DEFAULT, ("proof_" + name).c_str());
    std::cout.flush();
    int p[2]; if (pipe(p)) return 1;
    pid_t k = fork();
    if (!k) {
      close(p[0]); alarm(40); std::string res; long ran = 0, skipped = 0;
      auto say = [&](std::string const &s) { (void) !write(p[1], s.data(), s.size()); };
      auto given = toks; if (!f) say("NOPROOF");
      time_t t0 = time(nullptr);
      for (long i = 0; f && i < count; ++i) { if (i % 16 == 15 && time(nullptr) - t0 > 8) break; toks = given;
        seed_ = (seed + i) * 0x9E3779B97F4A7C15ULL + 1; for (int j = 0; j < 4; ++j) next();
        failed.clear(); trace.clear(); expect = 0; res.clear();
        // leave a note of the current inputs in case the call crashes
        try { f(); if (expect && failed.empty()) failed = "an error should have been reported"; ++ran; }
        catch (Skip) { ++skipped; continue; }
        catch (PLEXIL::Error const &e) { ++ran; if (!expect && failed.empty()) failed = std::string("error reported: ") + e.what(); }
        catch (std::exception const &e) { ++ran; if (failed.empty()) failed = std::string("exception: ") + e.what(); }
        if (!failed.empty()) { say("FAIL " + failed.substr(0, 200) + " | " + trace.substr(0, 600)); _exit(0); }
      }
      if (f) say("OK " + std::to_string(ran) + " " + std::to_string(skipped)); _exit(0);
    }
    close(p[1]); std::string out; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) out.append(b, n);
    close(p[0]); int st; waitpid(k, &st, 0);
    if (out.empty()) out = WIFSIGNALED(st) ? "CRASH signal " + std::to_string(WTERMSIG(st)) : "CRASH exit " + std::to_string(WEXITSTATUS(st));
    for (auto &c : out) if (c == '\n') c = ' ';
    std::cout << out << std::endl;
  }
}
