// Replay driver: evaluates real operators through real Function objects over given operands.
// line:  <op> <result type b|i|d|v|k> <operand>...     operand: b0 b1 bU i<dec> iU d<hexbits> dU s<hex> sU
// answer: U | T <value> | CRASH <signal> | ERR
#include "ArithmeticOperators.hh"
#include "BooleanOperators.hh"
#include "Comparisons.hh"
#include "ConversionOperators.hh"
#include "StringOperators.hh"
#include "Function.hh"
#include "GetValueImpl.hh"
#include "Error.hh"
#include "Value.hh"
#include <csetjmp>
#include <csignal>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <vector>
#include <cinttypes>
using namespace PLEXIL;
template <typename T> struct Arg : public GetValueImpl<T>, public Notifier {
  T v; T junk; bool k;
  Arg(T const &a, bool b, T const &j) : v(a), junk(j), k(b) {}
  bool getValue(T &r) const override { r = k ? v : junk; return k; }
  bool isKnown() const override { return k; }
  const char *exprName() const override { return "Arg"; }
};
template <> struct Arg<String> : public GetValueImpl<String>, public Notifier {
  String v; bool k;
  Arg(String const &a, bool b) : v(a), k(b) {}
  bool getValue(String &r) const override { if (k) r = v; return k; }
  bool getValuePointer(String const *&p) const override { p = k ? &v : nullptr; return k; }
  bool isKnown() const override { return k; }
  const char *exprName() const override { return "Arg"; }
};
static sigjmp_buf jb;
static void onsig(int s) { siglongjmp(jb, s); }
static double bits(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t dbits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static std::string unhex(std::string const &h) { std::string r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char) strtol(h.substr(i, 2).c_str(), 0, 16); return r; }
static Expression *mk(std::string const &t) {
  bool k = t[1] != 'U'; std::string x = t.substr(1);
  switch (t[0]) {
  case 'b': return new Arg<Boolean>(x == "1", k, true);
  case 'f': return new Arg<Boolean>(false, false, false);           // unknown boolean with the other junk value
  case 'i': return new Arg<Integer>(k ? (Integer) strtoll(x.c_str(), 0, 10) : 0, k, 12345);
  case 'd': return new Arg<Real>(k ? bits(strtoull(x.c_str(), 0, 16)) : 0.0, k, 0.75);
  default: return new Arg<String>(k ? unhex(x) : String(), k);
  }
}
static Operator const *op(std::string const &n) {
  static std::map<std::string, Operator const *> m;
  if (m.empty()) {
    m["And"] = new BooleanAnd(); m["Or"] = new BooleanOr(); m["Xor"] = new BooleanXor(); m["Not"] = new BooleanNot();
#define A2(N) m[#N ".i"] = new N<Integer>(); m[#N ".d"] = new N<Real>();
    A2(Addition) A2(Subtraction) A2(Multiplication) A2(Division) A2(Modulo) A2(Minimum) A2(Maximum) A2(AbsoluteValue)
    A2(Ceiling) A2(Floor) A2(Round) A2(Truncate)
    m["SquareRoot.d"] = new SquareRoot<Real>(); m["RealToInteger.i"] = new RealToInteger();
#define A3(N) m[#N ".i"] = new N<Integer>(); m[#N ".d"] = new N<Real>(); m[#N ".s"] = new N<String>();
    A3(GreaterThan) A3(GreaterEqual) A3(LessThan) A3(LessEqual)
    m["IsKnown"] = new IsKnown(); m["Equal"] = new Equal(); m["NotEqual"] = new NotEqual();
  }
  auto i = m.find(n); return i == m.end() ? nullptr : i->second;
}
int main() {
  Error::doThrowExceptions();
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_NODEFER;
  for (int s : {SIGFPE, SIGSEGV, SIGABRT, SIGILL, SIGBUS}) sigaction(s, &sa, nullptr);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::string o, r, a; is >> o >> r;
    std::vector<Expression *> ar; while (is >> a) ar.push_back(mk(a));
    Operator const *p = op(o);
    if (!p) { std::cout << "NOOP\n"; continue; }
    int sig = sigsetjmp(jb, 1);
    if (sig) { std::cout << "CRASH " << sig << "\n"; continue; }
    try {
      Function *f = makeFunction(p, ar.size());
      for (size_t i = 0; i < ar.size(); ++i) f->setArgument(i, ar[i], false);
      f->activate();
      std::ostringstream out;
      if (r == "b") { Boolean v = false; bool k = f->getValue(v); if (k) out << "T " << (int) v; else out << "U"; }
      else if (r == "i") { Integer v = 77; bool k = f->getValue(v); if (k) out << "T " << v; else out << "U"; }
      else if (r == "d") { Real v = 7.5; bool k = f->getValue(v); if (k) out << "T " << std::hex << dbits(v); else out << "U"; }
      else if (r == "k") out << (f->isKnown() ? "T 1" : "U");
      else { Value v = f->toValue(); if (v.isKnown()) { Boolean b; Integer n; Real d;
               if (v.valueType() == BOOLEAN_TYPE && v.getValue(b)) out << "T " << (int) b;
               else if (v.valueType() == INTEGER_TYPE && v.getValue(n)) out << "T " << n;
               else if (v.getValue(d)) out << "T " << std::hex << dbits(d); } else out << "U"; }
      std::cout << out.str() << "\n";
    } catch (...) { std::cout << "ERR\n"; }
  }
}
