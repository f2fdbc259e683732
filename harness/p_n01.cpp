// N01: assigning a number keeps the value or reports.  Every pair of built-in numeric types in every error mode, on
// boundary-biased values, against a reference that decides representability exactly (128-bit integers, floats split into
// an exact mantissa and exponent).
#include "dv.hpp"
#include <cfloat>
using namespace dynd;
using vf::Ctx;
using dv::i128;
using dv::u128;

static const ndt::type &tp(type_id_t t) { return dv::builtin(t); }
static const type_id_t TYPES[] = {bool_id,   int8_id,   int16_id,   int32_id,   int64_id,   int128_id,  uint8_id,
                                  uint16_id, uint32_id, uint64_id,  uint128_id, float32_id, float64_id, complex_float32_id,
                                  complex_float64_id};
static const int NT = sizeof(TYPES) / sizeof(TYPES[0]);
static const assign_error_mode MODES[] = {assign_error_nocheck, assign_error_overflow, assign_error_fractional,
                                          assign_error_inexact};
static const char *MODE_NAMES[] = {"nocheck", "overflow", "fractional", "inexact"};

static bool is_int(type_id_t t) { return t <= uint128_id && t != uninitialized_id; }
static bool is_cplx(type_id_t t) { return t == complex_float32_id || t == complex_float64_id; }
static bool is_flt(type_id_t t) { return t == float32_id || t == float64_id; }
static bool narrow_flt(type_id_t t) { return t == float32_id || t == complex_float32_id; }

struct IR { // integer range of a type; magnitudes
  bool sgn;
  int bits;
};
static IR int_range(type_id_t t) {
  switch (t) {
  case bool_id: return {false, 1};
  case int8_id: return {true, 8};
  case int16_id: return {true, 16};
  case int32_id: return {true, 32};
  case int64_id: return {true, 64};
  case int128_id: return {true, 128};
  case uint8_id: return {false, 8};
  case uint16_id: return {false, 16};
  case uint32_id: return {false, 32};
  case uint64_id: return {false, 64};
  case uint128_id: return {false, 128};
  default: return {false, 0};
  }
}

// A number: integers carry sign and 128-bit magnitude, floats are doubles, complex two doubles.
struct Num {
  bool isint = true, neg = false;
  u128 mag = 0;
  double re = 0, im = 0;
};
static std::string show(const Num &n) {
  if (n.isint)
    return (n.neg ? "-" : "") + (n.mag >> 127 ? vf::cat("0x", vf::hex(&n.mag, 16)) : dv::i128s((i128)n.mag));
  return n.im != 0 || std::signbit(n.im) ? vf::cat("(", n.re, ",", n.im, ")") : vf::cat(n.re);
}
static Num of_int(bool neg, u128 mag) {
  Num n;
  n.neg = neg && mag != 0;
  n.mag = mag;
  return n;
}
static Num of_dbl(double re, double im = 0) {
  Num n;
  n.isint = false;
  n.re = re;
  n.im = im;
  return n;
}
static bool int_fits(bool neg, u128 mag, IR r) {
  if (neg && mag)
    return r.sgn && mag <= ((u128)1 << (r.bits - 1));
  int b = r.sgn ? r.bits - 1 : r.bits;
  return b == 128 || mag < ((u128)1 << b);
}
// exact integer part of |d|; false if it does not fit 128 bits
static bool int_part(double d, bool &neg, u128 &mag, bool &frac) {
  neg = std::signbit(d);
  double a = std::fabs(d);
  if (!(a < 340282366920938463463374607431768211456.0))
    return false;
  double fl = std::floor(a);
  frac = fl != a;
  mag = (u128)fl; // exact: fl is an integer below 2^128 with at most 53 bits
  return true;
}
static bool mag_exact_in(u128 mag, int bits) {
  if (!mag)
    return true;
  while (!(mag & 1))
    mag >>= 1;
  return bits == 128 || mag < ((u128)1 << bits);
}

static double as_double(const Num &n) { return n.neg ? -(double)n.mag : (double)n.mag; }

// What the destination must hold if the value is representable; `lost` collects what is lost otherwise.
enum Lost { NONE = 0, RANGE = 1, FRAC = 2, PREC = 4, IMAG = 8, AMBIG = 16 };
struct Expect {
  int lost = NONE;
  Num value; // meaningful when lost has none of RANGE (then the truncated/rounded value)
};
static Expect expect(const Num &s, type_id_t d) {
  Expect e;
  if (is_int(d)) {
    IR r = int_range(d);
    if (s.isint) {
      e.value = s;
      if (d == bool_id)
        e.value = of_int(false, s.mag != 0);
      if (!int_fits(s.neg, s.mag, r))
        e.lost |= RANGE;
      return e;
    }
    if (s.im != 0) // (NaN too)
      e.lost |= IMAG;
    bool neg, frac;
    u128 mag;
    if (std::isnan(s.re) || !int_part(s.re, neg, mag, frac)) {
      e.lost |= RANGE;
      return e;
    }
    if (frac)
      e.lost |= FRAC;
    e.value = of_int(neg, mag);
    if (d == bool_id && (s.re != 0 || s.im != 0))
      e.value = of_int(false, 1); // any value but zero is true
    if (d == bool_id && frac)
      e.lost |= AMBIG;
    if (!int_fits(neg && mag, mag, r))
      e.lost |= RANGE;
    else if (frac && (neg ? !int_fits(true, mag + 1, r) : !int_fits(false, mag + 1, r)))
      e.lost |= AMBIG; // 255.5 as uint8, -0.5 as unsigned: out of range, or in range once truncated
    return e;
  }
  // floating or complex destination
  if (s.isint) {
    e.value = of_dbl(0);
    int bits = narrow_flt(d) ? 24 : 53;
    double x = as_double(s);
    e.value.re = narrow_flt(d) ? (double)(s.neg ? -(float)s.mag : (float)s.mag) : x;
    if (!mag_exact_in(s.mag, bits))
      e.lost |= PREC;
    if (std::isinf(e.value.re))
      e.lost |= RANGE;
    return e;
  }
  e.value = of_dbl(s.re, s.im);
  if (is_flt(d) && s.im != 0)
    e.lost |= IMAG;
  if (is_flt(d))
    e.value.im = 0;
  if (narrow_flt(d)) {
    for (double *p : {&e.value.re, &e.value.im}) {
      double x = *p;
      float f = (float)x;
      if (std::isfinite(x) && std::isinf(f))
        e.lost |= RANGE;
      if (std::isfinite(x) && std::isfinite(f) && (double)f != x)
        e.lost |= PREC;
      // The value is out of range from half an ulp above the largest float; the library draws the line at the largest
      // float itself.  Both are right.
      if (std::isfinite(f) && std::fabs(x) > FLT_MAX)
        e.lost |= AMBIG;
      *p = f;
    }
  }
  return e;
}

static void store(char *p, type_id_t t, const Num &n) {
  if (is_int(t)) {
    u128 m = n.neg ? (u128)0 - n.mag : n.mag;
    int sz = int_range(t).bits == 1 ? 1 : int_range(t).bits / 8;
    memcpy(p, &m, sz);
  } else if (t == float32_id) {
    float f = n.re;
    memcpy(p, &f, 4);
  } else if (t == float64_id) {
    memcpy(p, &n.re, 8);
  } else if (t == complex_float32_id) {
    float f[2] = {(float)n.re, (float)n.im};
    memcpy(p, f, 8);
  } else {
    memcpy(p, &n.re, 8);
    memcpy(p + 8, &n.im, 8);
  }
}
static Num load(const char *p, type_id_t t) {
  if (is_int(t)) {
    IR r = int_range(t);
    u128 m = 0;
    memcpy(&m, p, r.bits == 1 ? 1 : r.bits / 8);
    bool neg = r.sgn && (m >> (r.bits - 1)) & 1;
    if (neg) {
      m = (u128)0 - m;
      if (r.bits < 128)
        m &= ((u128)1 << r.bits) - 1;
    }
    return of_int(neg, m);
  }
  switch (t) {
  case float32_id: return of_dbl(dv::ld<float>(p));
  case float64_id: return of_dbl(dv::ld<double>(p));
  case complex_float32_id: return of_dbl(dv::ld<float>(p), dv::ld<float>(p + 4));
  default: return of_dbl(dv::ld<double>(p), dv::ld<double>(p + 8));
  }
}
static bool eq(const Num &a, const Num &b) {
  if (a.isint != b.isint)
    return false;
  if (a.isint)
    return a.neg == b.neg && a.mag == b.mag;
  return dv::same_double(a.re, b.re) && dv::same_double(a.im, b.im);
}
static bool near1(double a, double b, bool narrow) { // within one unit in the last place
  if (dv::same_double(a, b))
    return true;
  if (std::isnan(a) || std::isnan(b))
    return false;
  if (narrow)
    return std::nextafterf((float)a, (float)b) == (float)b;
  return std::nextafter(a, b) == b;
}

static double rdouble(vf::Rng &r) {
  switch (r.below(12)) {
  case 0: return 0.0;
  case 1: return -0.0;
  case 2: return (double)r.range(-300, 300) + (r.coin() ? 0.5 : 0.0);
  case 3: { // powers of two with neighbours
    double d = std::ldexp(1.0, (int)r.range(-5, 130));
    int k = (int)r.range(-2, 2);
    for (int i = 0; i < std::abs(k); ++i)
      d = std::nextafter(d, k > 0 ? INFINITY : 0);
    return r.coin() ? d : -d;
  }
  case 4: { // integer boundaries, plus or minus something small
    static const int bits[] = {7, 8, 15, 16, 31, 32, 53, 63, 64, 127, 128};
    double d = std::ldexp(1.0, bits[r.below(11)]) + (double)r.range(-2, 2);
    if (r.chance(1, 3))
      d += r.coin() ? 0.5 : -0.5;
    return r.coin() ? d : -d;
  }
  case 5: return r.coin() ? INFINITY : -INFINITY;
  case 6: return std::nan("");
  case 7: { // around the float range
    double d = r.coin() ? FLT_MAX : (r.coin() ? FLT_MIN : 1.401298464324817e-45);
    d *= r.coin() ? 1.0 : (0.5 + r.unit());
    return r.coin() ? d : -d;
  }
  case 8: { // float neighbours
    float f = (float)(r.unit() * 1000);
    double d = f;
    if (r.coin())
      d = std::nextafter(d, r.coin() ? 1e9 : -1e9);
    return d;
  }
  case 9: { // any bits
    uint64_t b = r.next();
    double d;
    memcpy(&d, &b, 8);
    return d;
  }
  case 10: return (double)(int64_t)(r.next() >> r.below(64)) * (r.coin() ? 1 : -1);
  default: return r.unit() * 10 - 5;
  }
}
static Num rnum(vf::Rng &r, type_id_t t) {
  if (is_int(t)) {
    IR q = int_range(t);
    if (q.bits == 1)
      return of_int(false, r.below(2));
    for (;;) {
      u128 m;
      bool neg = r.coin();
      switch (r.below(4)) {
      case 0: m = r.below(4); break;
      case 1: { // around a power of two
        m = (u128)1 << r.below(128);
        m += (u128)(i128)r.range(-2, 2);
        break;
      }
      case 2: m = (((u128)r.next() << 64) | r.next()) >> r.below(128); break;
      default: { // few significant bits
        m = (u128)r.below(1 << 24) << r.below(104);
        m += (u128)(i128)r.range(-1, 1);
      }
      }
      if (int_fits(neg && m, m, q))
        return of_int(neg, m);
    }
  }
  double a = rdouble(r), b = 0;
  if (is_cplx(t)) {
    b = r.chance(2, 3) ? 0.0 : rdouble(r);
  }
  if (narrow_flt(t)) {
    a = (float)a;
    b = (float)b;
  }
  return of_dbl(a, b);
}

static bool must_throw(const Expect &e, int mode) {
  if (mode == 0)
    return false;
  if (e.lost & (RANGE | IMAG))
    return true;
  if (mode >= 2 && (e.lost & FRAC))
    return true;
  if (mode == 3 && (e.lost & PREC))
    return true;
  return false;
}
static bool may_throw(const Expect &e, int mode) { return must_throw(e, mode) || (mode != 0 && (e.lost & AMBIG)); }

static void verify_value(Ctx &c, const Num &s, type_id_t st, type_id_t dt, const Expect &e, const Num &got,
                         const std::function<std::string()> &what) {
  if (e.lost & RANGE)
    return; // nocheck only: nothing is promised about the value
  if ((e.lost & IMAG) && is_int(dt) && !std::isfinite(s.re))
    return;
  if (!is_int(dt) && (e.lost & PREC) && s.isint) {
    c.check(near1(got.re, e.value.re, narrow_flt(dt)) && got.im == 0, "rounded-too-far", what);
    return;
  }
  c.check(eq(got, e.value), e.lost ? "truncated-value-wrong" : "value-changed", what);
}


static void pairs(Ctx &c) {
  type_id_t st = TYPES[c.idx % NT], dt = TYPES[c.idx / NT % NT];
  int mode = c.idx / (NT * NT) % 4;
  for (int rep = 0; rep < 14; ++rep) {
    Num s = rnum(c.rng, st);
    Expect e = expect(s, dt);
    std::string head = vf::cat(tp(st), " ", show(s), " to ", tp(dt), " mode ", MODE_NAMES[mode]);
    c.describe(head);
    nd::array a = nd::empty(tp(st)), d = nd::empty(tp(dt));
    store(a.data(), st, s);
    Num zero = is_int(dt) ? of_int(false, 1) : of_dbl(1);
    store(d.data(), dt, zero);
    bool as_default = mode == 2 && c.rng.coin();
    auto o = dv::attempt([&] {
      if (as_default)
        d.assign(a);
      else
        d.assign(a, MODES[mode]);
    });
    c.saw("conversion", vf::mix(vf::hash_str(head), o.ok));
    if (rep == 0)
      c.sample(head + (o.ok ? " -> " + show(load(d.cdata(), dt)) : " throws"));
    if (!o.ok) {
      c.check(may_throw(e, mode), mode == 0 ? "nocheck-throws" : "representable-value-refused",
              [&] { return head + ": " + o.msg; });
      continue;
    }
    if (!c.check(!must_throw(e, mode), "loss-not-reported",
                 [&] { return head + " gave " + show(load(d.cdata(), dt)); }))
      continue;
    verify_value(c, s, st, dt, e, load(d.cdata(), dt), [&] { return head + " gave " + show(load(d.cdata(), dt)); });
    c.check(eq(load(a.cdata(), st), s), "source-changed", [&] { return head; });
  }
}

// Strided arrays: every element converted, none beyond; one bad element anywhere must be reported
static void strided(Ctx &c) {
  type_id_t st = TYPES[c.idx % NT], dt = TYPES[c.idx / NT % NT];
  int mode = c.rng.below(4);
  int n = 1 + c.rng.below(c.thorough ? 300 : 40), ss = 1 + c.rng.below(3), ds = 1 + c.rng.below(3);
  bool rev = c.rng.coin(), bcast = c.rng.chance(1, 6);
  bool with_bad = c.rng.chance(1, 3) && mode != 0;
  std::string head = vf::cat(n, " * ", tp(st), " step ", rev ? "-" : "", ss, bcast ? " broadcast" : "", " to ",
                             tp(dt), " step ", ds, " mode ", MODE_NAMES[mode]);
  c.describe(head);
  nd::array a = nd::empty(n * ss, tp(st)), d = nd::empty(n * ds, tp(dt));
  size_t ssz = tp(st).get_data_size(), dsz = tp(dt).get_data_size();
  memset(a.data(), 0, n * ss * ssz);
  memset(d.data(), dt == bool_id ? 1 : 0x5a, n * ds * dsz);
  std::vector<Num> in;
  std::vector<Expect> ex;
  bool any_must = false, any_may = false;
  for (int i = 0; i < (bcast ? 1 : n); ++i) {
    Num s;
    Expect e;
    int tries = 0;
    bool want_bad = with_bad && c.rng.chance(1, n);
    do {
      s = rnum(c.rng, st);
      e = expect(s, dt);
    } while (++tries < 200 && (want_bad ? !must_throw(e, mode) : (may_throw(e, mode) || (e.lost & (RANGE | IMAG)))));
    if (tries == 200)
      s = is_int(st) ? of_int(false, 1) : of_dbl(1), e = expect(s, dt);
    any_must |= must_throw(e, mode);
    any_may |= may_throw(e, mode);
    in.push_back(s);
    ex.push_back(e);
    int at = rev ? (n - 1 - i) * ss : i * ss;
    if (bcast)
      at = 0;
    store(a.data() + at * ssz, st, s);
  }
  nd::array av = a;
  if (bcast)
    av = a(0);
  else if (rev)
    av = a(irange((n - 1) * ss, -1 - n * ss, -ss)); // from the last used element down to 0
  else
    av = a(irange(0, n * ss, ss));
  nd::array dvw = d(irange(0, n * ds, ds));
  auto o = dv::attempt([&] { dvw.assign(av, MODES[mode]); });
  c.saw("array-conversion", vf::mix(vf::hash_str(head), vf::mix(o.ok, with_bad)));
  if (!o.ok) {
    c.check(any_may, "representable-value-refused", [&] { return head + ": " + o.msg; });
  } else if (c.check(!any_must, "loss-not-reported", [&] { return head; })) {
    for (int i = 0; i < n; ++i) {
      int k = bcast ? 0 : i;
      Num got = load(d.cdata() + i * ds * dsz, dt);
      verify_value(c, in[k], st, dt, ex[k], got,
                   [&] { return vf::cat(head, " element ", i, " ", show(in[k]), " gave ", show(got)); });
    }
  }
  for (int i = 0; i < n * ds; ++i)
    if (i % ds)
      for (size_t b = 0; b < dsz; ++b)
        if (d.cdata()[i * dsz + b] != (dt == bool_id ? 1 : 0x5a)) {
          c.check(false, "neighbour-overwritten", [&] { return head; });
          return;
        }
}

// C++ values through as<T>() and construction
template <class S, class D>
static void as_one(Ctx &c, S s, type_id_t st, type_id_t dt) {
  Num n = load((const char *)&s, st);
  Expect e = expect(n, dt);
  std::string head = vf::cat("array(", tp(st), " ", show(n), ").as<", tp(dt), ">()");
  c.describe(head);
  D d = D();
  auto o = dv::attempt([&] { d = nd::array(s).template as<D>(); });
  c.saw("as", vf::mix(vf::hash_str(head), o.ok));
  if (!o.ok)
    c.check(may_throw(e, 2), "representable-value-refused", [&] { return head + ": " + o.msg; });
  else if (c.check(!must_throw(e, 2), "loss-not-reported", [&] { return head; }))
    verify_value(c, n, st, dt, e, load((const char *)&d, dt), [&] { return head + " gave " + show(load((const char *)&d, dt)); });
}
template <class S>
static void as_all(Ctx &c, S s, type_id_t st) {
  as_one<S, bool1>(c, s, st, bool_id);
  as_one<S, int8_t>(c, s, st, int8_id);
  as_one<S, int16_t>(c, s, st, int16_id);
  as_one<S, int32_t>(c, s, st, int32_id);
  as_one<S, int64_t>(c, s, st, int64_id);
  as_one<S, uint8_t>(c, s, st, uint8_id);
  as_one<S, uint16_t>(c, s, st, uint16_id);
  as_one<S, uint32_t>(c, s, st, uint32_id);
  as_one<S, uint64_t>(c, s, st, uint64_id);
  as_one<S, float>(c, s, st, float32_id);
  as_one<S, double>(c, s, st, float64_id);
}
template <class S>
static S rs(Ctx &c, type_id_t t) {
  S s;
  Num n = rnum(c.rng, t);
  store((char *)&s, t, n);
  return s;
}
static void as_cpp(Ctx &c) {
  switch (c.idx % 10) {
  case 0: as_all(c, rs<int8_t>(c, int8_id), int8_id); break;
  case 1: as_all(c, rs<int16_t>(c, int16_id), int16_id); break;
  case 2: as_all(c, rs<int32_t>(c, int32_id), int32_id); break;
  case 3: as_all(c, rs<int64_t>(c, int64_id), int64_id); break;
  case 4: as_all(c, rs<uint8_t>(c, uint8_id), uint8_id); break;
  case 5: as_all(c, rs<uint16_t>(c, uint16_id), uint16_id); break;
  case 6: as_all(c, rs<uint32_t>(c, uint32_id), uint32_id); break;
  case 7: as_all(c, rs<uint64_t>(c, uint64_id), uint64_id); break;
  case 8: as_all(c, rs<float>(c, float32_id), float32_id); break;
  default: as_all(c, rs<double>(c, float64_id), float64_id); break;
  }
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "N01",
                 "every (source type, destination type, error mode) triple in turn, values biased to powers of two, type "
                 "bounds, fractions, infinities and NaN; distinct = distinct (type, value, mode, outcome) conversions",
                 {{"pairs", NT * NT * 4 * 5, NT * NT * 4 * 400, pairs},
                  {"strided", NT * NT * 8, NT * NT * 800, strided},
                  {"as", 600, 40000, as_cpp}});
}
