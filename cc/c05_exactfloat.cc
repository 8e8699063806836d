// C05: ExactFloat against an independent big-integer reference.
#include <limits.h>
#include <cstring>
#include "mc.h"
#include "waymo_open_dataset/math/exactfloat.h"
using waymo::open_dataset::ExactFloat;
using EF = ExactFloat;

// ---- boring unsigned big integer, base 2^32, little endian
struct Big {
  std::vector<uint32_t> d;
  Big() {}
  explicit Big(uint64_t v) { while (v) { d.push_back((uint32_t)v); v >>= 32; } }
  void trim() { while (!d.empty() && !d.back()) d.pop_back(); }
  bool zero() const { return d.empty(); }
  int bits() const { if (d.empty()) return 0; return 32 * (int)(d.size() - 1) + 32 - __builtin_clz(d.back()); }
  bool bit(int i) const { return i >= 0 && i / 32 < (int)d.size() && (d[i / 32] >> (i % 32) & 1); }
  int low() const { int i = 0; while (!bit(i)) ++i; return i; }
};
static int Cmp(const Big& a, const Big& b) {
  if (a.d.size() != b.d.size()) return a.d.size() < b.d.size() ? -1 : 1;
  for (int i = (int)a.d.size() - 1; i >= 0; --i) if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1;
  return 0;
}
static Big Add(const Big& a, const Big& b) {
  Big r; uint64_t c = 0;
  for (size_t i = 0; i < std::max(a.d.size(), b.d.size()) || c; ++i) { c += (i < a.d.size() ? a.d[i] : 0ull) + (i < b.d.size() ? b.d[i] : 0ull); r.d.push_back((uint32_t)c); c >>= 32; }
  r.trim(); return r;
}
static Big Sub(const Big& a, const Big& b) {   // a >= b
  Big r; int64_t c = 0;
  for (size_t i = 0; i < a.d.size(); ++i) { c += (int64_t)a.d[i] - (i < b.d.size() ? b.d[i] : 0); r.d.push_back((uint32_t)c); c >>= 32; }
  r.trim(); return r;
}
static Big Mul(const Big& a, const Big& b) {
  Big r; r.d.assign(a.d.size() + b.d.size() + 1, 0);
  for (size_t i = 0; i < a.d.size(); ++i) { uint64_t c = 0; size_t j = 0; for (; j < b.d.size() || c; ++j) { c += r.d[i + j] + (uint64_t)a.d[i] * (j < b.d.size() ? b.d[j] : 0); r.d[i + j] = (uint32_t)c; c >>= 32; } }
  r.trim(); return r;
}
static Big Shl(const Big& a, int n) {
  Big r; if (a.zero()) return r;
  r.d.assign(n / 32 + a.d.size() + 1, 0);
  for (size_t i = 0; i < a.d.size(); ++i) { uint64_t v = (uint64_t)a.d[i] << (n % 32); r.d[i + n / 32] |= (uint32_t)v; r.d[i + n / 32 + 1] |= (uint32_t)(v >> 32); }
  r.trim(); return r;
}
static Big Shr(const Big& a, int n) {
  Big r;
  for (int i = 0; i < a.bits() - n; i += 32) { uint32_t w = 0; for (int k = 0; k < 32; ++k) w |= (uint32_t)a.bit(n + i + k) << k; r.d.push_back(w); }
  r.trim(); return r;
}
static std::string Dec(Big a) {
  if (a.zero()) return "0";
  std::string s;
  while (!a.zero()) { uint64_t rem = 0; for (int i = (int)a.d.size() - 1; i >= 0; --i) { rem = rem << 32 | a.d[i]; a.d[i] = (uint32_t)(rem / 1000000000); rem %= 1000000000; } a.trim(); for (int k = 0; k < 9; ++k) { s += '0' + rem % 10; rem /= 10; } }
  while (s.back() == '0') s.pop_back();
  std::reverse(s.begin(), s.end()); return s;
}

// ---- reference value: sign * m * 2^e, m odd or a special
enum Kind { ZERO, NUM, INF, NAN_ };
struct R { Kind k = ZERO; int s = 1; Big m; int64_t e = 0; };
static R Norm(R r) {
  if (r.k != NUM) return r;
  if (r.m.zero()) { r.k = ZERO; r.e = 0; return r; }
  int l = r.m.low(); r.m = Shr(r.m, l); r.e += l;
  int64_t ex = r.e + r.m.bits();
  if (ex < -200000000) { r = R{ZERO, r.s}; } else if (ex > 200000000) r = R{INF, r.s};
  return r;
}
static R FromD(double v) {
  R r; r.s = std::signbit(v) ? -1 : 1;
  if (v != v) { r.k = NAN_; r.s = 1; return r; }
  if (std::isinf(v)) { r.k = INF; return r; }
  if (v == 0) return r;
  uint64_t b; memcpy(&b, &v, 8);
  uint64_t f = b & ((1ull << 52) - 1); int ex = b >> 52 & 2047;
  r.k = NUM; r.m = Big(ex ? f | 1ull << 52 : f); r.e = (ex ? ex : 1) - 1075;
  return Norm(r);
}
static R RAdd(const R& a, const R& b, int bs) {   // a + bs*b
  const int sb = b.s * bs;
  if (a.k == NAN_) return a; if (b.k == NAN_) return b;
  if (a.k == INF) { if (b.k == INF && a.s != sb) return R{NAN_, 1}; return a; }
  if (b.k == INF) return R{INF, sb};
  if (a.k == ZERO && b.k == ZERO) return R{ZERO, a.s == sb ? a.s : 1};
  if (a.k == ZERO) { R r = b; r.s = sb; return r; }
  if (b.k == ZERO) return a;
  int64_t e = std::min(a.e, b.e);
  Big x = Shl(a.m, a.e - e), y = Shl(b.m, b.e - e);
  R r; r.k = NUM; r.e = e;
  if (a.s == sb) { r.s = a.s; r.m = Add(x, y); return Norm(r); }
  int c = Cmp(x, y);
  if (c == 0) return R{ZERO, 1};
  r.s = c > 0 ? a.s : sb; r.m = c > 0 ? Sub(x, y) : Sub(y, x);
  return Norm(r);
}
static R RMul(const R& a, const R& b) {
  if (a.k == NAN_) return a; if (b.k == NAN_) return b;
  const int s = a.s * b.s;
  if (a.k == INF || b.k == INF) return a.k == ZERO || b.k == ZERO ? R{NAN_, 1} : R{INF, s};
  if (a.k == ZERO || b.k == ZERO) return R{ZERO, s};
  R r; r.k = NUM; r.s = s; r.m = Mul(a.m, b.m); r.e = a.e + b.e; return Norm(r);
}
static int RCmp(const R& a, const R& b) {   // no NaN
  auto v = [](const R& r) { return r.k == ZERO ? 0 : r.s * (r.k == INF ? 2 : 1); };
  if (v(a) != v(b)) return v(a) < v(b) ? -1 : 1;
  if (a.k != NUM) return 0;
  int64_t ea = a.e + a.m.bits(), eb = b.e + b.m.bits();
  int c = ea != eb ? (ea < eb ? -1 : 1) : Cmp(Shl(a.m, a.e > b.e ? a.e - b.e : 0), Shl(b.m, b.e > a.e ? b.e - a.e : 0));
  return c * a.s;
}
// rounds to a multiple of 2^be; modes as in ExactFloat::RoundingMode
static R RRound(const R& a, int64_t be, int mode) {
  if (a.k != NUM || a.e >= be) return a;
  int64_t sh = be - a.e;
  Big q = sh > a.m.bits() + 2 ? Big() : Shr(a.m, sh);
  // compare remainder with half: remainder nonzero always (m odd, sh >= 1)
  int half;   // -1 below, 0 tie, 1 above
  if (sh > a.m.bits() + 2) half = -1; else { Big rem = Sub(a.m, Shl(q, sh)); half = Cmp(rem, Shl(Big(1), sh - 1)); }
  bool up;
  switch (mode) {
    case ExactFloat::kRoundTiesToEven: up = half > 0 || (half == 0 && q.bit(0)); break;
    case ExactFloat::kRoundTiesAwayFromZero: up = half >= 0; break;
    case ExactFloat::kRoundTowardZero: up = false; break;
    case ExactFloat::kRoundAwayFromZero: up = true; break;
    case ExactFloat::kRoundTowardPositive: up = a.s > 0; break;
    default: up = a.s < 0;
  }
  R r; r.k = NUM; r.s = a.s; r.e = be; r.m = up ? Add(q, Big(1)) : q;
  return Norm(r);
}
static double ToD(const R& a) {
  if (a.k == NAN_) return NAN; if (a.k == INF) return a.s * INFINITY; if (a.k == ZERO) return a.s < 0 ? -0.0 : 0.0;
  int64_t top = a.e + a.m.bits();
  R r = RRound(a, std::max<int64_t>(top - 53, -1074), ExactFloat::kRoundTiesToEven);
  if (r.k == ZERO) return a.s < 0 ? -0.0 : 0.0;
  if (r.e + r.m.bits() > 1024) return a.s * INFINITY;
  uint64_t m = 0; for (int i = 0; i < 64; ++i) m |= (uint64_t)r.m.bit(i) << i;
  return a.s * std::ldexp((double)m, (int)r.e);
}
static bool SameD(double a, double b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
// printf("%.{n}g") of the exact value, with the exponent printed without padding
static std::string RStr(const R& a, int n) {
  if (a.k == NAN_) return "nan"; if (a.k == INF) return a.s < 0 ? "-inf" : "inf"; if (a.k == ZERO) return a.s < 0 ? "-0" : "0";
  Big m = a.m; int64_t e10 = 0;
  if (a.e >= 0) m = Shl(m, a.e); else { for (int64_t i = 0; i < -a.e;) { int64_t k = std::min<int64_t>(13, -a.e - i); uint64_t p = 1; for (int j = 0; j < k; ++j) p *= 5; m = Mul(m, Big(p)); i += k; } e10 = a.e; }
  std::string s = Dec(m);
  if ((int)s.size() > n) {
    bool tail = s.find_first_not_of('0', n + 1) != std::string::npos;
    bool up = s[n] > '5' || (s[n] == '5' && (tail || (s[n - 1] - '0') % 2));
    e10 += s.size() - n; s.resize(n);
    if (up) { int i = n - 1; while (i >= 0 && s[i] == '9') s[i--] = '0'; if (i >= 0) ++s[i]; else s = "1" + s; }
  }
  while (s.size() > 1 && s.back() == '0') { s.pop_back(); ++e10; }
  int64_t x = e10 + (int64_t)s.size() - 1;   // exponent of the leading digit
  std::string o = a.s < 0 ? "-" : "";
  if (x < -4 || x >= n) { o += s[0]; if (s.size() > 1) o += "." + s.substr(1); o += std::string("e") + (x < 0 ? "-" : "+") + std::to_string(std::llabs(x)); }
  else if (x < 0) o += "0." + std::string(-x - 1, '0') + s;
  else if (x + 1 >= (int64_t)s.size()) o += s + std::string(x + 1 - s.size(), '0');
  else o += s.substr(0, x + 1) + "." + s.substr(x + 1);
  return o;
}
// exponent without zero padding
static std::string CanonE(std::string s) { size_t p = s.find('e'); if (p == std::string::npos) return s; size_t q = p + 2; while (q + 1 < s.size() && s[q] == '0') s.erase(q, 1); return s; }

static std::string Desc(const R& r) { return RStr(r, 25) + "{" + (r.k == NUM ? std::to_string(r.m.bits()) + "b,2^" + std::to_string(r.e) : std::string("special")) + "}"; }

// Full comparison of a computed value with the reference.
static std::string Diff(const EF& x, const R& r, bool strings) {
  if (x.is_nan() != (r.k == NAN_) || x.is_inf() != (r.k == INF) || x.is_zero() != (r.k == ZERO) || x.is_normal() != (r.k == NUM) || x.is_finite() != (r.k == NUM || r.k == ZERO)) return "class";
  if (r.k == NAN_) return x == x || x < x || x <= x || x >= x || x > x || !(x != x) || x.sgn() != 0 ? "nan compares" : "";
  if (x.sign_bit() != (r.s < 0)) return "sign";
  if (x.sgn() != (r.k == ZERO ? 0 : r.s)) return "sgn";
  if (r.k == NUM && (x.prec() != r.m.bits() || x.exp() != r.e + r.m.bits())) return "precision or exponent " + std::to_string(x.prec()) + "," + std::to_string(x.exp());
  if (r.k == NUM && r.m.bits() <= 20000 && std::llabs(r.e) < 20000) {
    // peel the mantissa into 32-bit pieces through public operations only
    EF y = abs(ldexp(x, (int)-r.e)); Big m = r.m;
    for (int i = (int)m.d.size() - 1; i >= 0; --i) y -= ldexp(EF((double)m.d[i]), 32 * i);
    if (!y.is_zero()) return "mantissa";
  }
  if (r.k != NUM || std::llabs(r.e) < 20000) { double d = x.ToDouble(), w = ToD(r); if (!SameD(d, w)) { char b[100]; snprintf(b, 100, "to double %a want %a", d, w); return b; } }
  if (strings && r.m.bits() + std::llabs(r.e) < 4000) {
    for (int n : {1, 2, 6, 10, 17}) if (CanonE(x.ToStringWithMaxDigits(n)) != RStr(r, n)) return "printed with " + std::to_string(n) + " digits as " + x.ToStringWithMaxDigits(n) + " want " + RStr(r, n);
    int need = r.k == NUM ? std::max(10, EF::NumSignificantDigitsForPrec(x.prec())) : 10;
    if (CanonE(x.ToString()) != RStr(r, need)) return "ToString " + x.ToString();
  }
  return "";
}
static const double kA[] = {0.0, 1, -1, 2, .5, -.5, 1.5, -2.5, 3.5, 0.1, 1e5, 123456789, -1e-5, 9.5, 99999.5, 9007199254740993e0, 1e16, 4.9e-324, -4.9e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 1 + 2.220446049250313e-16, 1 - 1.1102230246251565e-16, 8.6736e-19, 4611686018427387904.0, 9223372036854775808.0, -9223372036854775808.0, 18446744073709551616.0, 1.2345e-300, -0.0, INFINITY, -INFINITY, NAN, 3.0e-310, 6.02e23};
static const int kNA = sizeof(kA) / sizeof(*kA);

int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool th = m.thorough();
  // unary: x is an operand or the sum/difference/product of two operands
  auto unary = [](mc::Ctx& c, const EF& x, const R& r, const std::string& d) {
    auto chk = [&](const char* n, const EF& y, const R& w) { std::string e = Diff(y, w, false); if (!e.empty()) c.fail(n, d + ": " + e + " want " + Desc(w)); };
    std::string e = Diff(x, r, true);
    if (!e.empty()) c.fail("value", d + ": " + e + " want " + Desc(r));
    c.step(30);
    R neg = r; if (r.k != NAN_) neg.s = -r.s; R ab = r; ab.s = 1;
    if (r.k != NAN_) { chk("negate", -x, neg); chk("abs", fabs(x), ab); chk("abs", abs(x), ab); chk("copysign", copysign(x, EF(-2)), [&] { R t = ab; t.s = -1; return t; }()); chk("copysign", copysign(x, EF::SignedZero(1)), ab); }
    chk("plus", +x, r);
    chk("ceil", ceil(x), RRound(r, 0, EF::kRoundTowardPositive)); chk("floor", floor(x), RRound(r, 0, EF::kRoundTowardNegative));
    chk("trunc", trunc(x), RRound(r, 0, EF::kRoundTowardZero)); chk("round", round(x), RRound(r, 0, EF::kRoundTiesAwayFromZero)); chk("rint", rint(x), RRound(r, 0, EF::kRoundTiesToEven));
    for (int mode = 0; mode < 6; ++mode) for (int p : {2, 3, 4, 10, 24, 52, 53, 60}) {
      R w = r.k == NUM && r.m.bits() > p ? RRound(r, r.e + r.m.bits() - p, mode) : r;
      std::string e2 = Diff(x.RoundToMaxPrec(p, (EF::RoundingMode)mode), w, false);
      if (!e2.empty()) c.fail("round-to-precision", d + " bits " + std::to_string(p) + " mode " + std::to_string(mode) + ": " + e2 + " want " + Desc(w));
    }
    auto toint = [&](int mode) -> long long {
      R w = RRound(r, 0, mode);
      if (w.k == NAN_) return LLONG_MAX; if (w.k == ZERO) return 0;
      if (w.k == INF || w.e + w.m.bits() > 63) return w.s < 0 ? LLONG_MIN : LLONG_MAX;
      Big b = Shl(w.m, w.e); unsigned long long v = 0; for (int i = 0; i < 64; ++i) v |= (unsigned long long)b.bit(i) << i;
      return w.s < 0 ? -(long long)v : (long long)v;
    };
    if (lrint(x) != toint(0) || llrint(x) != toint(0) || lround(x) != toint(1) || llround(x) != toint(1)) c.fail("to-integer", d);
    int ex = 77; EF fr = frexp(x, &ex);
    if (r.k == NUM) { R w = r; w.e = -r.m.bits(); if (ex != r.e + r.m.bits()) c.fail("frexp", d); chk("frexp", fr, w); chk("logb", logb(x), FromD((double)(r.e + r.m.bits() - 1))); if (ilogb(x) != r.e + r.m.bits() - 1) c.fail("ilogb", d); }
    else { chk("frexp", fr, r); if (ex != 0) c.fail("frexp", d); if (ilogb(x) != (r.k == ZERO ? FP_ILOGB0 : r.k == INF ? INT_MAX : FP_ILOGBNAN)) c.fail("ilogb", d); chk("logb", logb(x), r.k == ZERO ? R{INF, -1} : r.k == INF ? R{INF, 1} : r); }
    for (int s : {0, 1, -1, 100, -1074, 2000}) { R w = r; if (r.k == NUM) w.e += s; chk("ldexp", ldexp(x, s), Norm(w)); chk("ldexp", scalbln(x, (long)s), Norm(w)); chk("ldexp", scalbn(x, s), Norm(w)); }
    const EF copy(x); EF as(3.0); as = x; as = as;
    chk("copy", copy, r); chk("assign", as, r);
    c.outcome(r.k == NUM ? (r.m.bits() > 53 ? "more than 53 bits" : "fits a double") : r.k == ZERO ? "zero" : r.k == INF ? "infinity" : "nan");
    c.state(d); c.sample([&] { return d + " = " + Desc(r); });
  };
  auto expr = [](int o, const EF& a, const EF& b) { return o == 0 ? a + b : o == 1 ? a - b : a * b; };
  auto rexpr = [](int o, const R& a, const R& b) { return o == 0 ? RAdd(a, b, 1) : o == 1 ? RAdd(a, b, -1) : RMul(a, b); };
  static const char* O = "+-*";
  m.family("operands", "36 doubles (specials, denormals, powers of two, ties) and ints incl. INT_MIN: classification, conversions, roundings, printing", [=](mc::Ctx& c) {
    int k = c.choose(kNA + 8);
    if (!c.go()) return;
    char b[64];
    if (k < kNA) { snprintf(b, 64, "%a", kA[k]); unary(c, EF(kA[k]), FromD(kA[k]), b); return; }
    const int iv[8] = {0, 1, -1, 7, -1000000, INT_MAX, INT_MIN, INT_MIN + 1};
    snprintf(b, 64, "int %d", iv[k - kNA]); unary(c, EF(iv[k - kNA]), FromD((double)iv[k - kNA]), b);
  });
  m.family("binary", "all ordered pairs of the 36 operands: + - *, in-place and aliased forms, comparisons, min/max/dim, and every unary operation on the result", [=](mc::Ctx& c) {
    int i = c.choose(kNA), j = c.choose(kNA), o = c.choose(3);
    if (!c.go()) return;
    char b[100]; snprintf(b, 100, "%a %c %a", kA[i], O[o], kA[j]);
    EF x(kA[i]), y(kA[j]); R rx = FromD(kA[i]), ry = FromD(kA[j]);
    EF z = expr(o, x, y); R rz = rexpr(o, rx, ry);
    unary(c, z, rz, b);
    EF w(kA[i]); if (o == 0) w += y; else if (o == 1) w -= y; else w *= y;
    std::string e = Diff(w, rz, false); if (!e.empty()) c.fail("in-place", std::string(b) + ": " + e);
    if (i == j) { EF v(kA[i]); if (o == 0) v += v; else if (o == 1) v -= v; else v *= v; e = Diff(v, rz, false); if (!e.empty()) c.fail("in-place", std::string(b) + " aliased: " + e); }
    if (!SameD(x.ToDouble(), kA[i]) || !SameD(y.ToDouble(), kA[j])) c.fail("operand-changed", b);
    if (o == 0) {
      bool nan = rx.k == NAN_ || ry.k == NAN_; int cm = nan ? 9 : RCmp(rx, ry);
      if ((x == y) != (cm == 0) || (x != y) != (cm != 0) || (x < y) != (cm == -1) || (x > y) != (cm == 1) || (x <= y) != (cm == 0 || cm == -1) || (x >= y) != (cm == 0 || cm == 1)) c.fail("compare", b);
      R mx = rx.k == NAN_ ? ry : ry.k == NAN_ ? rx : cm < 0 ? ry : cm > 0 ? rx : (rx.s > 0 ? rx : ry), mn = rx.k == NAN_ ? ry : ry.k == NAN_ ? rx : cm < 0 ? rx : cm > 0 ? ry : (rx.s < 0 ? rx : ry);
      std::string e1 = Diff(fmax(x, y), mx, false), e2 = Diff(fmin(x, y), mn, false), e3 = Diff(fdim(x, y), nan ? R{NAN_, 1} : cm <= 0 ? R{} : RAdd(rx, ry, -1), false);
      if (!e1.empty() || !e2.empty() || !e3.empty()) c.fail("min-max-dim", std::string(b) + " " + e1 + "/" + e2 + "/" + e3);
    }
  });
  static const double kB[] = {1, -3, 0.1, 4.9e-324, 1.7976931348623157e308, 1 + 2.220446049250313e-16, -1e16, 0.0, -INFINITY, 6.5, -0.0};
  const int nb = th ? 11 : 8;
  m.family("expressions", "(a op b) op (c op d) over 8 (thorough 11) operands and all operators: value, comparison of the halves, rounding to double", [=](mc::Ctx& c) {
    int i = c.choose(nb), j = c.choose(nb), k = c.choose(nb), l = c.choose(nb), o1 = c.choose(3), o2 = c.choose(3), o3 = c.choose(3);
    if (!c.go()) return;
    EF x = expr(o1, kB[i], kB[j]), y = expr(o3, kB[k], kB[l]); R rx = rexpr(o1, FromD(kB[i]), FromD(kB[j])), ry = rexpr(o3, FromD(kB[k]), FromD(kB[l]));
    EF z = expr(o2, x, y); R rz = rexpr(o2, rx, ry);
    c.step(4);
    auto d = [&] { char b[200]; snprintf(b, 200, "(%a %c %a) %c (%a %c %a)", kB[i], O[o1], kB[j], O[o2], kB[k], O[o3], kB[l]); return std::string(b); };
    std::string e = Diff(z, rz, false); if (!e.empty()) c.fail("value", d() + ": " + e + " want " + Desc(rz));
    if (rx.k != NAN_ && ry.k != NAN_) {
      int cm = RCmp(rx, ry);
      if ((x == y) != (cm == 0) || (x < y) != (cm < 0) || (x > y) != (cm > 0) || (x <= y) != (cm <= 0) || (x >= y) != (cm >= 0)) c.fail("compare", d());
      if (o1 == 0 && o2 == 0 && rx.m.bits() + std::llabs(rx.e) < 2300 && ry.m.bits() + std::llabs(ry.e) < 2300) {
        bool same = cm == 0 && rx.s == ry.s;
        if ((x.ToUniqueString() == y.ToUniqueString()) != same) c.fail("unique-string", d() + " " + x.ToUniqueString() + " " + y.ToUniqueString());
      }
    }
    c.outcome(rz.k == NUM ? "number" : rz.k == ZERO ? "zero" : rz.k == INF ? "infinity" : "nan"); c.state(d()); c.sample([&] { return d() + " = " + Desc(rz); });
  });
  m.family("dense rounding", "every mantissa of up to 9 bits (thorough 12) times 2^{-6,-3,0,2}, both signs: rounding to 2..6 bits and to integers in all modes, printing", [=](mc::Ctx& c) {
    int v = 1 + c.choose(th ? 4095 : 511), s = c.choose(2), e = c.choose(4);
    if (!c.go()) return;
    const int ex[4] = {-6, -3, 0, 2};
    double d = (s ? -1 : 1) * std::ldexp((double)v, ex[e]); char b[64]; snprintf(b, 64, "%g", d);
    EF x(d); R r = FromD(d);
    unary(c, x, r, b);
    for (int mode = 0; mode < 6; ++mode) for (int p = 2; p <= 6; ++p) { R w = r.m.bits() > p ? RRound(r, r.e + r.m.bits() - p, mode) : r; std::string e2 = Diff(x.RoundToMaxPrec(p, (EF::RoundingMode)mode), w, false); if (!e2.empty()) c.fail("round-to-precision", std::string(b) + " " + std::to_string(p) + " " + std::to_string(mode)); }
    for (int n = 1; n <= 6; ++n) { char t[64]; snprintf(t, 64, "%.*g", n, d); if (CanonE(x.ToStringWithMaxDigits(n)) != CanonE(t)) c.fail("printf", std::string(b) + " digits " + std::to_string(n) + " got " + x.ToStringWithMaxDigits(n) + " want " + t); }
  });
  m.family("double neighbourhood", "values a hair (2^-70, half an ulp, half an ulp +- a hair) off a double, normal and subnormal: conversion rounds once, to nearest even", [=](mc::Ctx& c) {
    int base = c.choose(8), k = c.choose(9), sg = c.choose(2);
    if (!c.go()) return;
    const double B[8] = {1, 1 + 2.220446049250313e-16, 4.9e-324, 9.9e-324, 2.2250738585072014e-308, 2.2250738585072009e-308, 1.7976931348623157e308, 3};
    double b = B[base], n = std::nextafter(b, INFINITY);
    R ulp = std::isinf(n) ? R{NUM, 1, Big(1), 971} : RAdd(FromD(n), FromD(b), -1); EF U = ldexp(EF(1), (int)ulp.e);
    R half = ulp; half.e -= 1; R hair = half; hair.e -= 70;
    R r = FromD(b); EF x(b); EF H = ldexp(U, -1), h = ldexp(U, -71);
    static const int A[9][2] = {{0, 1}, {0, -1}, {1, 0}, {1, 1}, {1, -1}, {-1, 0}, {-1, 1}, {-1, -1}, {0, 0}};
    if (A[k][0]) { r = RAdd(r, half, A[k][0]); x = A[k][0] > 0 ? x + H : x - H; }
    if (A[k][1]) { r = RAdd(r, hair, A[k][1]); x = A[k][1] > 0 ? x + h : x - h; }
    if (sg) { x = -x; r.s = -r.s; }
    c.step(6);
    char d[100]; snprintf(d, 100, "%a %+d/2ulp %+d hair sign %d", b, A[k][0], A[k][1], sg);
    std::string e = Diff(x, r, false); if (!e.empty()) c.fail(e.rfind("to double", 0) == 0 ? "to-double" : "value", std::string(d) + ": " + e);
    c.state(d); c.sample([&] { return std::string(d) + " " + Desc(r); });
  });
  m.family("extreme exponents", "two successive ldexp/scalbln by up to +-2^31 (and long) from 4 starting values, products at the overflow/underflow limits", [=](mc::Ctx& c) {
    const std::vector<long> E = {0, 50, -50, 199999990, -199999990, 100000000, -100000000, 150000000, -150000000, 300000000, -300000000, INT_MAX, INT_MIN, INT_MIN + 1L, 1L << 40, -(1L << 40)};
    int v = c.choose(5); long e1 = c.pick(E), e2 = c.pick(E); int mode = c.choose(3);
    if (!c.go()) return;
    const double B[5] = {1, -1.5, 5e-300, 1.1e15, 0};
    EF x(B[v]); R r = FromD(B[v]);
    auto sc = [&](long e) { x = (e >= INT_MIN && e <= INT_MAX && mode == 0) ? ldexp(x, (int)e) : scalbln(x, e); if (r.k == NUM) { r.e += std::max<long>(-3000000000L, std::min<long>(3000000000L, e)); r = Norm(r); } };
    sc(e1);
    if (mode == 2) { EF y = ldexp(EF(1.25), (int)std::max<long>(INT_MIN, std::min<long>(INT_MAX, e2))); R q = FromD(1.25); q.e += std::max<long>(INT_MIN, std::min<long>(INT_MAX, e2)); q = Norm(q); x = x * y; r = RMul(r, q); } else sc(e2);
    c.step(3);
    char d[100]; snprintf(d, 100, "%g 2^%ld %s 2^%ld", B[v], e1, mode == 2 ? "*" : "", e2);
    std::string e = Diff(x, r, false); if (!e.empty()) c.fail("extreme-exponent", std::string(d) + ": " + e + " want class " + std::to_string(r.k) + " exp " + std::to_string(r.e));
    c.outcome(r.k == NUM ? "number" : r.k == ZERO ? "zero" : "infinity"); c.state(std::string(d) + std::to_string(mode)); c.sample([&] { return std::string(d); });
  });
  return m.run();
}
