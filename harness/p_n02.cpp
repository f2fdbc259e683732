// N02: half precision and 128-bit integers, against independent exact references.
#include "dv.hpp"
#include <cfloat>
#include <dynd/float16.hpp>
using namespace dynd;
using vf::Ctx;
using dv::i128;
using dv::u128;

// ------------------------------------------------------------ half precision
static double half_value(uint16_t h) { return (double)dv::f16_to_float(h); }

// nearest-even rounding of a finite double to half, independent of the library: try the two neighbours
static uint16_t round_half(double d) {
  uint16_t sgn = std::signbit(d) ? 0x8000 : 0;
  double a = std::fabs(d);
  if (std::isnan(d))
    return 0x7e00;
  if (a >= 65520.0)
    return sgn | 0x7c00;
  // largest half <= a by binary search on the (monotonic) bit patterns
  uint16_t lo = 0, hi = 0x7bff;
  while (lo < hi) {
    uint16_t mid = (lo + hi + 1) / 2;
    if (half_value(mid) <= a)
      lo = mid;
    else
      hi = mid - 1;
  }
  double below = half_value(lo), above = lo == 0x7bff ? 65536.0 : half_value(lo + 1);
  double x = a - below, y = above - a; // exact: all are multiples of a tiny power of two within range
  uint16_t r = x < y ? lo : x > y ? lo + 1 : (lo & 1 ? lo + 1 : lo);
  return sgn | r;
}

static void sweep(Ctx &c) { // every half
  for (uint32_t k = 0; k < 1024; ++k) {
    uint16_t b = (uint16_t)(c.idx * 1024 + k);
    c.describe(vf::cat("float16 bits ", b));
    float16 h = float16_from_bits(b);
    double want = half_value(b);
    c.check(dv::same_double((double)(float)h, want), "half-to-float", [&] { return vf::cat(b, " gives ", (float)h); });
    c.check(dv::same_double((double)h, want), "half-to-double", [&] { return vf::cat(b, " gives ", (double)h); });
    c.check(h.bits() == b, "bits", [&] { return vf::cat(b); });
    c.check(h.isnan_() == (want != want) && h.isinf_() == (bool)std::isinf(want) && h.isfinite_() == (bool)std::isfinite(want) &&
                h.signbit_() == (b >> 15) && h.iszero() == (want == 0),
            "classification", [&] { return vf::cat(b); });
    bool is_nan = want != want;
    uint16_t back, backd;
    auto o1 = dv::attempt([&] { back = float_to_halfbits((float)h); });
    auto o2 = dv::attempt([&] { backd = double_to_halfbits((double)h); });
    c.check(o1.ok && (is_nan ? (back & 0x7c00) == 0x7c00 && (back & 0x3ff) && (back >> 15) == (b >> 15) : back == b),
            "float-round-trip", [&] { return vf::cat(b, " -> ", back); });
    c.check(o2.ok && (is_nan ? (backd & 0x7c00) == 0x7c00 && (backd & 0x3ff) && (backd >> 15) == (b >> 15) : backd == b),
            "double-round-trip", [&] { return vf::cat(b, " -> ", backd); });
    if (!is_nan) {
      c.check((-h).bits() == (b ^ 0x8000), "negation", [&] { return vf::cat(b); });
      c.check(!h == (want == 0), "logical-not", [&] { return vf::cat(b); });
      c.check((bool)h == (want != 0), "to-bool", [&] { return vf::cat(b); });
    }
    if (std::isfinite(want)) {
      c.check((int64_t)h == (int64_t)want && (int32_t)h == (int32_t)want, "half-to-int", [&] { return vf::cat(b); });
      int128 i(h);
      i128 wi = (i128)want;
      c.check(!memcmp(&i, &wi, 16), "half-to-int128", [&] { return vf::cat(b); });
      c.check(dv::same_double((double)(float)floor(h), std::floor(want)), "floor", [&] { return vf::cat(b); });
    }
    c.saw("half", b);
  }
}

// Where the library refuses: a value whose magnitude rounds up to 65536, and one too small to be exact as a subnormal.
static bool may_refuse(double d) {
  double a = std::fabs(d);
  return (a >= 65520 && a < 65536) || (a < std::ldexp(1.0, -14) && half_value(round_half(a)) != a);
}
static void check_round(Ctx &c, double d) {
  c.describe(vf::cat("to half: ", d));
  uint16_t want = round_half(d), got = 0;
  auto o = dv::attempt([&] { got = float16(d).bits(); });
  c.saw("double-to-half", vf::hash_bytes(&d, 8));
  if (!o.ok)
    c.check(may_refuse(d), "half-conversion-refused", [&] { return vf::cat(d, ": ", o.msg); });
  else if (std::isnan(d))
    c.check((got & 0x7c00) == 0x7c00 && (got & 0x3ff), "nan-lost", [&] { return vf::cat(got); });
  else
    c.check(got == want, "double-to-half", [&] { return vf::cat(d, " gives bits ", got, " instead of ", want); });
  float f = (float)d;
  want = round_half(f);
  auto p = dv::attempt([&] { got = float16(f).bits(); });
  if (!p.ok)
    c.check(may_refuse(f), "half-conversion-refused", [&] { return vf::cat(f, ": ", p.msg); });
  else if (std::isnan(f))
    c.check((got & 0x7c00) == 0x7c00 && (got & 0x3ff), "nan-lost", [&] { return vf::cat(got); });
  else
    c.check(got == want, "float-to-half", [&] { return vf::cat(f, " gives bits ", got, " instead of ", want); });
}
// around every half and every midpoint between halves
static void boundaries(Ctx &c) {
  for (int k = 0; k < 256; ++k) {
    uint16_t b = (uint16_t)((c.idx * 256 + k) % 0x7c00);
    double lo = half_value(b), hi = b == 0x7bff ? 65536.0 : half_value(b + 1), mid = (lo + hi) / 2;
    double s = c.rng.coin() ? 1 : -1;
    check_round(c, s * mid);
    check_round(c, s * std::nextafter(mid, 0));
    check_round(c, s * std::nextafter(mid, 1e9));
    check_round(c, s * (double)std::nextafterf((float)mid, 0));
    check_round(c, s * (double)std::nextafterf((float)mid, 1e9f));
    check_round(c, s * std::nextafter(lo, 0));
    check_round(c, s * std::nextafter(lo, 1e9));
    check_round(c, s * (lo + (hi - lo) * c.rng.unit()));
  }
  static const double sp[] = {65504, 65519.999, 65520, 65536, 1e300, INFINITY, -INFINITY, NAN, 0.0, -0.0, 5.9604644775390625e-08};
  for (double d : sp)
    check_round(c, d);
  uint64_t bits = c.rng.next();
  double d;
  memcpy(&d, &bits, 8);
  check_round(c, d);
  uint16_t x = c.rng.next(), y = c.rng.next();
  if (c.rng.chance(1, 4))
    y = x ^ (c.rng.coin() ? 0x8000 : 1);
  float16 hx = float16_from_bits(x), hy = float16_from_bits(y);
  double vx = half_value(x), vy = half_value(y);
  c.describe(vf::cat("compare halves ", x, " ", y));
  c.check((hx < hy) == (vx < vy) && (hx <= hy) == (vx <= vy) && (hx == hy) == (vx == vy) && (hx != hy) == (vx != vy) &&
              (hx >= hy) == (vx >= vy) && (hx > hy) == (vx > vy),
          "half-comparison", [&] { return vf::cat(x, " ", y); });
  if (!std::isnan(vx) && !std::isnan(vy))
    c.check(hx.less_nonan(hy) == (vx < vy) && hx.less_equal_nonan(hy) == (vx <= vy), "half-less-nonan",
            [&] { return vf::cat(x, " ", y); });
  c.check((hx == 1.0f) == (vx == 1.0) && (2 < hy) == (2 < vy), "half-mixed-comparison", [&] { return vf::cat(x, " ", y); });
}

// ------------------------------------------------------------ 128-bit integers
static u128 operand(vf::Rng &r) {
  u128 v;
  switch (r.below(6)) {
  case 0: v = r.below(4); break;
  case 1: v = (u128)1 << r.below(128); break;
  case 2: v = ((u128)r.next() << 64) | r.next(); break;
  case 3: v = ((u128)r.next() << 64); break; // low half zero
  case 4: v = ((u128)r.next() << 64) | 0xffffffffffffffffull; break;
  default: v = (((u128)r.next() << 64) | r.next()) >> r.below(128);
  }
  if (r.coin())
    v += (u128)(i128)r.range(-2, 2);
  if (r.coin())
    v = (u128)0 - v;
  return v;
}
static int128 S(u128 v) { return int128((uint64_t)(v >> 64), (uint64_t)v); }
static uint128 U(u128 v) { return uint128((uint64_t)(v >> 64), (uint64_t)v); }
static u128 X(const int128 &v) { return ((u128)v.m_hi << 64) | v.m_lo; }
static u128 X(const uint128 &v) { return ((u128)v.m_hi << 64) | v.m_lo; }
static std::string u128s(u128 v) {
  if (!v)
    return "0";
  std::string s;
  while (v)
    s.insert(s.begin(), char('0' + (int)(v % 10))), v /= 10;
  return s;
}
template <class T>
static std::string str(const T &t) {
  std::stringstream ss;
  ss << t;
  return ss.str();
}
static bool near1(double a, double b) {
  return a == b || std::nextafter(a, b) == b;
}
static bool near1f(float a, float b) {
  return a == b || std::nextafterf(a, b) == b;
}
static void int128s(Ctx &c) {
  for (int rep = 0; rep < 20; ++rep) {
    u128 x = operand(c.rng), y = c.rng.chance(1, 6) ? x : operand(c.rng);
    uint32_t k = c.rng.coin() ? (uint32_t)c.rng.below(20) : (uint32_t)c.rng.next();
    i128 sx = (i128)x, sy = (i128)y;
    std::string head = vf::cat("x=", u128s(x), " y=", u128s(y), " k=", k);
    c.describe(head);
    c.saw("pair", vf::mix(vf::hash_bytes(&x, 16), vf::hash_bytes(&y, 16)));
    auto ck = [&](const char *op, u128 got, u128 want) {
      c.check(got == want, op, [&] { return vf::cat(head, " gives ", u128s(got), " instead of ", u128s(want)); });
    };
    int128 a = S(x), b = S(y);
    ck("int128 +", X(a + b), x + y);
    ck("int128 -", X(a - b), x - y);
    ck("int128 unary -", X(-a), (u128)0 - x);
    ck("int128 unary +", X(+a), x);
    ck("int128 ~", X(~a), ~x);
    ck("int128 *", X(a * k), x * k);
    {
      int128 t = a;
      t += b;
      ck("int128 +=", X(t), x + y);
      t = a;
      t.negate();
      ck("int128 negate", X(t), (u128)0 - x);
    }
    ck("int128 !", !a, x == 0);
    ck("int128 bool", (bool)a, x != 0);
    ck("int128 <", a < b, sx < sy);
    ck("int128 <=", a <= b, sx <= sy);
    ck("int128 >", a > b, sx > sy);
    ck("int128 >=", a >= b, sx >= sy);
    ck("int128 ==", a == b, x == y);
    ck("int128 !=", a != b, x != y);
    ck("int128 is_negative", a.is_negative(), sx < 0);
    int iv = c.rng.coin() ? (int)c.rng.range(-2, 2) : (c.rng.coin() ? (int)sx : (int)c.rng.next());
    ck("int128 == int", a == iv, sx == iv);
    ck("int128 != int", a != iv, sx != iv);
    ck("int128 < int", a < iv, sx < iv);
    ck("int128 > int", a > iv, sx > iv);
    ck("int < int128", iv < a, iv < sx);
    ck("int > int128", iv > a, iv > sx);
    uint128 p = U(x), q = U(y);
    ck("uint128 +", X(p + q), x + y);
    ck("uint128 -", X(p - q), x - y);
    ck("uint128 + u64", X(p + (uint64_t)y), x + (uint64_t)y);
    ck("uint128 - u64", X(p - (uint64_t)y), x - (uint64_t)y);
    ck("uint128 + u32", X(p + k), x + k);
    ck("uint128 unary -", X(-p), (u128)0 - x);
    ck("uint128 ~", X(~p), ~x);
    ck("uint128 !", !p, x == 0);
    ck("uint128 bool", (bool)p, x != 0);
    ck("uint128 *", X(p * k), x * k);
    ck("uint128 <", p < q, x < y);
    ck("uint128 <=", p <= q, x <= y);
    ck("uint128 >", p > q, x > y);
    ck("uint128 >=", p >= q, x >= y);
    ck("uint128 ==", p == q, x == y);
    ck("uint128 !=", p != q, x != y);
    ck("uint128 == u64", p == (uint64_t)y, x == (uint64_t)y);
    ck("uint128 != u64", p != (uint64_t)x, x != (uint64_t)x);
    if (k) {
      ck("uint128 /", X(p / k), x / k);
      uint128 t = p;
      uint32_t rem;
      t.divrem(k, rem);
      ck("uint128 divrem quotient", X(t), x / k);
      ck("uint128 divrem remainder", rem, x % k);
    }
    // conversions
    ck("uint128 from int128", X(uint128(a)), x);
    ck("int128 from uint128", X(int128(p)), x);
#define FROM(T) \
  ck("int128 from " #T, X(int128((T)x)), (u128)(i128)(T)x); \
  ck("uint128 from " #T, X(uint128((T)x)), (u128)(i128)(T)x);
    FROM(signed char)
    FROM(unsigned char)
    FROM(short)
    FROM(unsigned short)
    FROM(int)
    FROM(unsigned int)
    FROM(long)
    FROM(long long)
#undef FROM
    ck("int128 from unsigned long", X(int128((unsigned long)x)), (unsigned long)x);
    ck("uint128 from unsigned long", X(uint128((unsigned long)x)), (unsigned long)x);
    ck("int128 from bool", X(int128(bool1(x & 1))), x & 1);
    ck("uint128 from bool", X(uint128(bool1(x & 1))), x & 1);
#define TO(T) \
  ck("int128 to " #T, (u128)(i128)(T)a, (u128)(i128)(T)x); \
  ck("uint128 to " #T, (u128)(i128)(T)p, (u128)(i128)(T)x);
    TO(signed char)
    TO(unsigned char)
    TO(short)
    TO(unsigned short)
    TO(int)
    TO(unsigned int)
    TO(long)
    TO(unsigned long)
#undef TO
    c.check(near1((double)a, (double)sx), "int128 to double", [&] { return vf::cat(head, " ", (double)a); });
    c.check(near1((double)p, (double)x), "uint128 to double", [&] { return vf::cat(head, " ", (double)p); });
    c.check(near1f((float)a, (float)sx), "int128 to float", [&] { return vf::cat(head, " ", (float)a); });
    c.check(near1f((float)p, (float)x), "uint128 to float", [&] { return vf::cat(head, " ", (float)p); });
    // from floating point: a value with at most 53 (24) significant bits, truncated
    double d = (double)(x >> c.rng.below(128));
    if (c.rng.coin())
      d += 0.5;
    if (d < 1.7e38) {
      ck("int128 from double", X(int128(d)), (u128)(i128)d);
      ck("int128 from -double", X(int128(-d)), (u128)(i128)-d);
    }
    if (d < 3.4e38) {
      ck("uint128 from double", X(uint128(d)), (u128)d);
      float f = (float)d;
      if (f < 1.7e38f) {
        ck("int128 from float", X(int128(f)), (u128)(i128)f);
        ck("int128 from -float", X(int128(-f)), (u128)(i128)-f);
      }
      if (f < 3.4e38f)
        ck("uint128 from float", X(uint128(f)), (u128)f);
    }
    // printing
    c.check(str(p) == u128s(x), "uint128 print", [&] { return str(p) + " for " + u128s(x); });
    c.check(str(a) == (sx < 0 ? "-" + u128s((u128)0 - x) : u128s(x)), "int128 print", [&] { return str(a) + " for " + u128s(x); });
  }
}

// numeric limits and arrays of these types
static void limits(Ctx &c) {
  c.describe("numeric limits");
  c.check(X(std::numeric_limits<int128>::max()) == ((u128)1 << 127) - 1, "int128 max", [] { return ""; });
  c.check(X(std::numeric_limits<int128>::min()) == (u128)1 << 127, "int128 min", [] { return ""; });
  c.check(X(std::numeric_limits<uint128>::max()) == ~(u128)0, "uint128 max", [] { return ""; });
  c.check(X(std::numeric_limits<uint128>::min()) == 0, "uint128 min", [] { return ""; });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "N02",
                 "all 65536 halves; every midpoint between neighbouring halves with its float and double neighbours; "
                 "128-bit operand pairs biased to carries, zero halves and sign boundaries; distinct = distinct halves, "
                 "rounded values and operand pairs",
                 {{"sweep", 64, 64, sweep},
                  {"boundaries", 124, 124 * 40, boundaries},
                  {"int128", 1500, 200000, int128s},
                  {"limits", 1, 1, limits}});
}
