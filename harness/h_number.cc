// U01: extended-number arithmetic against 128-bit / IEEE reference arithmetic.
#include "pbt.hh"
#include "Number.hh"
#include <cmath>
#include <climits>
#include <sstream>
using namespace pbt;
using EUROPA::eint;
using EUROPA::edouble;
typedef __int128 i128;
static const long INF = 4503599627370495L;

PBT_RULE("U01", "pairs of operands drawn from {0, +-1, small, random, near the range limits, both infinities} for every operator and "
         "every operand type combination (extended/machine, integer/real); non-trivial when an operand is infinite, or the exact result "
         "is within 2 of the range limit or outside it, or both operands are non-zero and not +-1",
         {"inf-inf is 0, as the repository's tests fix it; operations with no conventional value (0*inf, inf/inf, 0/0, x mod 0) only have to be free of crashes where the machine operation is",
          "operands handed to constructors lie within the representable range (the constructors assert it)"});

static std::string show(i128 v) {
  if (v == 0) return "0";
  bool n = v < 0; std::string s;
  while (v != 0) { int d = (int)(v % 10); s += char('0' + (d < 0 ? -d : d)); v /= 10; }
  if (n) s += '-';
  return std::string(s.rbegin(), s.rend());
}
static long genLong(Src& s) {
  switch (s.weighted({2, 3, 3, 3, 2, 2, 2})) {
  case 0: return s.draw(0, 2) == 0 ? 0 : (s.flip() ? 1 : -1);
  case 1: return s.draw(-20, 20);
  case 2: { long b = s.draw(1, 51); long v = s.draw(0, (1L << b) - 1); return s.flip() ? -v : v; }
  case 3: { long v = INF - s.draw(0, 3); return s.flip() ? -v : v; }
  case 4: return s.flip() ? -INF : INF;
  case 5: { long v = (1L << s.draw(20, 51)) + s.draw(-2, 2); return s.flip() ? -v : v; }
  default: { long v = (INF / s.draw(1, 12)) + s.draw(-2, 2); if (v > INF) v = INF; return s.flip() ? -v : v; }
  }
}
static double genDouble(Src& s) {
  long b = genLong(s);
  switch (s.weighted({4, 2, 2, 1})) {
  case 0: return (double)b;
  case 1: { double d = (double)b + (double)s.draw(-8, 8) / 8.0; return (d > INF || d < -INF) ? (double)b : d; }
  case 2: return (double)s.draw(-2000, 2000) / (double)s.draw(1, 97);
  default: return std::ldexp((double)s.draw(-1000, 1000), (int)s.draw(-60, 0));
  }
}
template <class R> struct Res { bool thrown; R v; };
template <class F> static auto attempt(F f) -> Res<decltype(f())> {
  typedef decltype(f()) R;
  try { R r = f(); return {false, r}; } catch (const std::overflow_error&) { return {true, R(0)}; } catch (const std::underflow_error&) { return {true, R(0)}; }
}
static int sgn(i128 v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }

// expectation for an extended-integer operation: exact (with infinities), or undefined
struct Exp { enum K { VALUE, UNDEF } k; i128 v; bool overflow; };
static Exp expectInt(char op, i128 a, i128 b) {
  bool ia = a >= INF || a <= -INF, ib = b >= INF || b <= -INF;
  if (a > INF) a = INF; if (a < -INF) a = -INF; if (b > INF) b = INF; if (b < -INF) b = -INF;
  switch (op) {
  case '-': b = -b;  // fallthrough
  case '+':
    if (ia && ib) return a == b ? Exp{Exp::VALUE, a, false} : Exp{Exp::VALUE, 0, false};
    if (ia) return {Exp::VALUE, a, false};
    if (ib) return {Exp::VALUE, b, false};
    break;
  case '*':
    if (ia || ib) {
      if (a == 0 || b == 0) return {Exp::UNDEF, 0, false};
      return {Exp::VALUE, sgn(a) * sgn(b) * (i128)INF, false};
    }
    break;
  case '/':
    if (ia && ib) return {Exp::UNDEF, 0, false};
    if (b == 0) return a == 0 ? Exp{Exp::UNDEF, 0, false} : Exp{Exp::VALUE, sgn(a) * 2 * (i128)INF, true};
    if (ia) return {Exp::VALUE, sgn(a) * sgn(b) * (i128)INF, false};
    if (ib) return {Exp::VALUE, 0, false};
    break;
  }
  i128 r = op == '*' ? a * b : op == '/' ? a / b : a + b;
  return {Exp::VALUE, r, r > INF || r < -INF};
}
template <class R> static void checkInt(char op, const char* what, i128 a, i128 b, const Res<R>& r) {
  Exp e = expectInt(op, a, b);
  if (e.k == Exp::UNDEF) return;
  if (r.thrown && (a > INF || a < -INF || b > INF || b < -INF)) return;  // operand outside the range, reported
  long got = r.thrown ? 0 : cast_long(r.v);
  if (e.overflow) {
    if (r.thrown) return;
    long want = e.v > 0 ? INF : -INF;
    REQUIRE(got == want, what << ": " << show(a) << " " << op << " " << show(b) << " = " << show(e.v) << " is out of range but gave " << got);
    return;
  }
  REQUIRE(!r.thrown, what << ": " << show(a) << " " << op << " " << show(b) << " = " << show(e.v) << " was reported as out of range");
  REQUIRE(got == (long)e.v, what << ": " << show(a) << " " << op << " " << show(b) << " gave " << got << ", expected " << show(e.v));
}
static void checkReal(char op, const char* what, double a, double b, const Res<edouble>& r) {
  const double I = (double)INF;
  bool ia = a >= I || a <= -I, ib = b >= I || b <= -I;
  double want; bool undef = false;
  double bb = op == '-' ? -b : b;
  switch (op) {
  case '+': case '-':
    if (ia && ib) { undef = (a > 0) != (bb > 0); want = a; }
    else if (ia) want = a; else if (ib) want = bb; else want = a + bb;
    break;
  case '*':
    if (ia || ib) { undef = a == 0 || b == 0; want = (a > 0) == (b > 0) ? I : -I; } else want = a * b;
    break;
  default:
    if (ia && ib) { undef = true; want = 0; }
    else if (b == 0) { undef = a == 0; want = (a > 0) == !std::signbit(b) ? HUGE_VAL : -HUGE_VAL; }
    else if (ia) want = (a > 0) == (b > 0) ? I : -I;
    else if (ib) want = 0; else want = a / b;
  }
  if (undef) return;
  double got = r.thrown ? 0 : cast_double(r.v);
  if (want > I || want < -I) {
    if (r.thrown) return;
    REQUIRE(got == (want > 0 ? I : -I), what << ": " << a << " " << op << " " << b << " is out of range but gave " << got);
    return;
  }
  REQUIRE(!r.thrown, what << ": " << a << " " << op << " " << b << " = " << want << " was reported as out of range");
  std::ostringstream o; o.precision(20);
  o << what << ": " << a << " " << op << " " << b << " gave " << got << ", expected " << want;
  REQUIRE(got == want, o.str());
}
static void mark(Src& s, i128 a, i128 b, i128 r) {
  bool inf = a >= INF || a <= -INF || b >= INF || b <= -INF;
  bool edge = (r > INF - 3 || r < -INF + 3);
  if (inf) s.label("infinite operand");
  if (edge && !inf) s.label("result at or beyond the limit");
  if (inf || edge || ((a > 1 || a < -1) && (b > 1 || b < -1))) s.nontrivial();
}
#define OPS4(A, B, L, R, chk, what)                                   \
  switch (op) {                                                       \
  case '+': chk('+', what, A, B, attempt([&] { return (L) + (R); })); break; \
  case '-': chk('-', what, A, B, attempt([&] { return (L) - (R); })); break; \
  case '*': chk('*', what, A, B, attempt([&] { return (L) * (R); })); break; \
  case '/': chk('/', what, A, B, attempt([&] { return (L) / (R); })); break; }

static void intArith(Src& s) {
  long a = genLong(s), b = genLong(s);
  char op = "+-*/"[s.draw(0, 3)];
  int combo = (int)s.draw(0, 5);
  s.note() << a << " " << op << " " << b << " types " << combo;
  eint x(a), y(b);
  if (op == '*' && s.flip()) { // steer towards the limit
    b = b == 0 ? 1 : b; a = INF / b + s.draw(-1, 1); if (a > INF) a = INF; if (a < -INF) a = -INF; x = eint(a); y = eint(b);
  }
  mark(s, a, b, op == '*' ? (i128)a * b : op == '+' ? (i128)a + b : op == '-' ? (i128)a - b : b == 0 ? INF : (i128)a / b);
  switch (combo) {
  case 0: OPS4(a, b, x, y, checkInt, "eint,eint"); break;
  case 1: OPS4(a, b, x, b, checkInt, "eint,long"); break;
  case 2: { int c = (int)s.draw(INT_MIN, INT_MAX); if (s.flip()) c = (int)s.draw(-20, 20); OPS4(a, c, x, c, checkInt, "eint,int"); break; }
  case 3: { unsigned long c = s.chance(1, 8) ? (unsigned long)s.draw(LONG_MIN, LONG_MAX) : (unsigned long)(b < 0 ? -b : b); OPS4(a, c, x, c, checkInt, "eint,unsigned long"); break; }
  case 4: OPS4(a, b, a, y, checkInt, "long,eint"); break;
  case 5: {
    bool useLong = s.flip();
    eint z(x), ret(0);
    Res<eint> r = attempt([&] {
      switch (op) {
      case '+': ret = useLong ? (z += b) : (z += y); break;
      case '-': ret = useLong ? (z -= b) : (z -= y); break;
      case '*': ret = useLong ? (z *= b) : (z *= y); break;
      default: ret = useLong ? (z /= b) : (z /= y);
      }
      return z;
    });
    checkInt(op, "compound", a, b, r);
    if (!r.thrown) REQUIRE(cast_long(ret) == cast_long(z), "compound assignment returned " << cast_long(ret) << " but stored " << cast_long(z));
    else REQUIRE(cast_long(z) == a, "failed compound assignment changed the operand");
  }
  }
}
PBT_PROP("U01", "int_arith", intArith, 3000000, 30, 20000);

static void intUnary(Src& s) {
  long a = genLong(s), b = genLong(s);
  s.note() << "unary/mod " << a << "," << b;
  eint x(a);
  bool ia = a == INF || a == -INF;
  mark(s, a, b, a);
  REQUIRE(cast_long(-x) == -a, "-(" << a << ") = " << cast_long(-x));
  REQUIRE(cast_long(+x) == a, "+(" << a << ")");
  REQUIRE((!x) == (a == 0), "!(" << a << ")");
  { eint z(x); eint r = ++z; long w = ia ? a : a + 1; REQUIRE(cast_long(z) == w && cast_long(r) == w, "++" << a << " = " << cast_long(z)); }
  { eint z(x); eint r = --z; long w = ia ? a : a - 1; REQUIRE(cast_long(z) == w && cast_long(r) == w, "--" << a << " = " << cast_long(z)); }
  { eint z(x); eint r = z++; long w = ia ? a : a + 1; REQUIRE(cast_long(z) == w && cast_long(r) == a, a << "++ = " << cast_long(z)); }
  { eint z(x); eint r = z--; long w = ia ? a : a - 1; REQUIRE(cast_long(z) == w && cast_long(r) == a, a << "-- = " << cast_long(z)); }
  if (b != 0 && !ia && b != INF && b != -INF) {
    REQUIRE(cast_long(x % eint(b)) == a % b, a << " % " << b << " = " << cast_long(x % eint(b)));
    REQUIRE(cast_long(x % b) == a % b, a << " % (long) " << b);
    REQUIRE(cast_long(a % eint(b)) == a % b, "(long) " << a << " % " << b);
    eint z(x); z %= b; REQUIRE(cast_long(z) == a % b, a << " %= " << b);
  }
  if (!ia && b == INF) REQUIRE(cast_long(x % eint(b)) == a, a << " % inf = " << cast_long(x % eint(b)));
  // conversions
  REQUIRE(x.asLong() == a && cast_long(x) == a && cast_llong(x) == a && cast_double(x) == (double)a && cast_ldouble(x) == (long double)a && (long)cast_int(x) == a && cast_basis(x) == a, "conversion of " << a);
  REQUIRE(cast_double(edouble(x)) == (double)a, "eint to edouble of " << a);
  REQUIRE(cast_long((eint)edouble(x)) == a, "eint to edouble to eint of " << a);
  { std::stringstream io; io << x; eint y; io >> y; REQUIRE(y == x, "stream round trip of " << a << " via " << io.str()); }
  REQUIRE(EUROPA::finite(x) == !ia && EUROPA::finite(edouble(x)) == !ia, "finite(" << a << ")");
  REQUIRE(cast_long(std::numeric_limits<eint>::infinity()) == INF && cast_long(std::numeric_limits<eint>::minus_infinity()) == -INF &&
          std::numeric_limits<eint>::max() < std::numeric_limits<eint>::infinity() && std::numeric_limits<eint>::min() > std::numeric_limits<eint>::minus_infinity() &&
          cast_double(std::numeric_limits<edouble>::infinity()) == (double)INF && cast_double(std::numeric_limits<edouble>::minus_infinity()) == -(double)INF, "limits");
  if (a >= INT_MIN && a <= INT_MAX) REQUIRE(cast_long(eint((int)a)) == a && cast_double(edouble((int)a)) == a, "from int " << a);
  if (a >= 0) {
    REQUIRE(cast_long(eint((unsigned long)a)) == a && cast_double(edouble((unsigned long)a)) == (double)a, "from unsigned long " << a);
    if (a <= UINT_MAX) REQUIRE(cast_long(eint((unsigned int)a)) == a && cast_double(edouble((unsigned int)a)) == (double)a, "from unsigned " << a);
  }
}
PBT_PROP("U01", "int_unary", intUnary, 1000000, 30, 20000);

#define CMP(L, R, a, b, what)                                                                     \
  REQUIRE(((L) < (R)) == ((a) < (b)) && ((L) <= (R)) == ((a) <= (b)) && ((L) == (R)) == ((a) == (b)) && \
          ((L) >= (R)) == ((a) >= (b)) && ((L) > (R)) == ((a) > (b)) && ((L) != (R)) == ((a) != (b)),   \
          "comparison " what " of " << (double)(a) << " with " << (double)(b))

static void compare(Src& s) {
  long a = genLong(s), b = s.chance(1, 3) ? a + s.draw(-1, 1) : genLong(s);
  if (b > INF) b = INF; if (b < -INF) b = -INF;
  double d = s.chance(1, 3) ? (double)a + s.draw(-4, 4) * 0.25 : genDouble(s);
  if (d > INF) d = INF; if (d < -INF) d = -INF;
  double e = s.chance(1, 3) ? d : genDouble(s);
  s.note() << "compare " << a << "," << b << "," << d << "," << e;
  mark(s, a, b, a);
  eint x(a), y(b); edouble p(d), q(e);
  CMP(x, y, a, b, "eint,eint"); CMP(x, b, a, b, "eint,long"); CMP(a, y, a, b, "long,eint");
  { long long c = b; CMP(x, c, a, b, "eint,long long"); CMP(c, x, b, a, "long long,eint"); CMP(p, c, d, (double)b, "edouble,long long"); CMP(c, p, (double)b, d, "long long,edouble"); }
  { int c = (int)s.draw(-1000, 1000); if (s.flip() && a >= INT_MIN && a <= INT_MAX) c = (int)a; CMP(x, c, a, (long)c, "eint,int"); CMP(c, x, (long)c, a, "int,eint"); CMP(p, c, d, (double)c, "edouble,int"); CMP(c, p, (double)c, d, "int,edouble"); }
  CMP(x, d, (double)a, d, "eint,double"); CMP(d, x, d, (double)a, "double,eint");
  CMP(x, p, (double)a, d, "eint,edouble"); CMP(p, q, d, e, "edouble,edouble");
  CMP(p, e, d, e, "edouble,double"); CMP(e, p, e, d, "double,edouble");
  CMP(p, a, d, (double)a, "edouble,long"); CMP(a, p, (double)a, d, "long,edouble");
  { long double c = e; CMP(x, c, (long double)a, c, "eint,long double"); CMP(c, x, c, (long double)a, "long double,eint"); CMP(p, c, (long double)d, c, "edouble,long double"); CMP(c, p, c, (long double)d, "long double,edouble"); }
  { unsigned c = (unsigned)s.draw(0, 2000); CMP(p, c, d, (double)c, "edouble,unsigned"); CMP(c, p, (double)c, d, "unsigned,edouble"); }
  REQUIRE(cast_double(std::max(p, q)) == std::max(d, e) && cast_double(std::min(p, q)) == std::min(d, e), "min/max of " << d << "," << e);
  REQUIRE(cast_double(std::abs(p)) == std::fabs(d), "abs(" << d << ")");
  REQUIRE(cast_double(std::ceil(p)) == std::ceil(d) && cast_double(std::floor(p)) == std::floor(d), "ceil/floor(" << d << ")");
  REQUIRE(cast_long((eint)p) == (long)d, "edouble to eint of " << d);
  REQUIRE(cast_long(p) == (long)d && cast_llong(p) == (long)d && cast_int(p) == (long)d && cast_ldouble(p) == (long double)d, "casts of " << d);
}
PBT_PROP("U01", "compare", compare, 1500000, 30, 20000);

static void realArith(Src& s) {
  double a = genDouble(s), b = genDouble(s);
  long la = genLong(s), lb = genLong(s);
  char op = "+-*/"[s.draw(0, 3)];
  int combo = (int)s.draw(0, 7);
  s.note().precision(20);
  s.note() << a << " " << op << " " << b << " (" << la << "," << lb << ") types " << combo;
  mark(s, (i128)a, (i128)b, op == '*' ? (i128)((long double)a * b) : op == '+' ? (i128)((long double)a + b) : op == '-' ? (i128)((long double)a - b) : 5);
  edouble p(a), q(b); eint x(la), y(lb);
  switch (combo) {
  case 0: OPS4(a, b, p, q, checkReal, "edouble,edouble"); break;
  case 1: OPS4(a, b, a, q, checkReal, "double,edouble"); break;
  case 2: OPS4((double)la, b, x, q, checkReal, "eint,edouble"); break;
  case 3: OPS4((double)la, b, x, b, checkReal, "eint,double"); break;
  case 4: OPS4(a, (double)lb, p, edouble(y), checkReal, "edouble,edouble(eint)"); break;
  case 5: {
    edouble z(p), ret(0);
    Res<edouble> r = attempt([&] {
      switch (op) { case '+': ret = (z += q); break; case '-': ret = (z -= q); break; case '*': ret = (z *= q); break; default: ret = (z /= q); }
      return z;
    });
    checkReal(op, "compound", a, b, r);
    if (!r.thrown && cast_double(z) == cast_double(z)) REQUIRE(cast_double(ret) == cast_double(z), "compound assignment returned another value than stored");
    break;
  }
  case 6: {
    const double I = (double)INF;
    bool ia = a == I || a == -I;
    REQUIRE(cast_double(-p) == -a && cast_double(+p) == a && (!p) == (a == 0), "unary on " << a);
    auto clamp = [&](double v) { return v > I ? I : v < -I ? -I : v; };
    edouble z(p); ++z; REQUIRE(cast_double(z) == (ia ? a : clamp(a + 1)), "++" << a << " gave " << cast_double(z));
    z = p; --z; REQUIRE(cast_double(z) == (ia ? a : clamp(a - 1)), "--" << a << " gave " << cast_double(z));
    z = p; edouble r = z++; REQUIRE(cast_double(z) == (ia ? a : clamp(a + 1)) && cast_double(r) == a, a << "++ gave " << cast_double(z));
    z = p; r = z--; REQUIRE(cast_double(z) == (ia ? a : clamp(a - 1)) && cast_double(r) == a, a << "-- gave " << cast_double(z));
    break;
  }
  case 7: {
    if (a >= 0) REQUIRE(cast_double(std::sqrt(p)) == (a == (double)INF ? a : std::sqrt(a)), "sqrt(" << a << ")");
    if (b != 0 && a > -INF && a < INF && b > -INF && b < INF) REQUIRE(cast_double(std::fmod(p, q)) == std::fmod(a, b), "fmod(" << a << "," << b << ")");
    double base = s.flip() ? a : (double)s.draw(-40, 40) / 8;
    long ex = s.flip() ? s.draw(-6, 60) : lb;
    double want = std::pow(base, (double)ex);
    Res<edouble> r = attempt([&] { return std::pow(edouble(base), eint(ex)); });
    bool inf = base == INF || base == -INF || ex == INF || ex == -INF;
    if (inf) break;
    if (want > INF || want < -INF) {
      REQUIRE(r.thrown || cast_double(r.v) == (want > 0 ? (double)INF : -(double)INF), "pow(" << base << "," << ex << ") gave " << cast_double(r.v) << " but is out of range");
    } else REQUIRE(!r.thrown && cast_double(r.v) == want, "pow(" << base << "," << ex << ") gave " << cast_double(r.v) << ", expected " << want);
  }
  }
}
PBT_PROP("U01", "real_arith", realArith, 2500000, 30, 20000);
