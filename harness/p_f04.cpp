// F04: ranges, evenly spaced values and random arrays, against exact integer (and long double) progressions.
#include "arrgen.hpp"
#include <dynd/array_range.hpp>
#include <dynd/callable.hpp>
#include <dynd/random.hpp>
#include <dynd/range.hpp>
using namespace dynd;
using dv::i128;
using dv::Val;
using vf::Ctx;

static const char *k_count = "a range has the wrong number of elements";
static const char *k_value = "a range has an element that is not of the progression";
static const char *k_type = "a generated array has another type or shape than asked for";
static const char *k_throw = "a valid range or random array is refused";
static const char *k_bad = "a range without a progression is made";
static const char *k_lin = "an evenly spaced array has not its end points, or its values are not evenly spaced";
static const char *k_in = "a random element is outside the interval asked for";
static const char *k_reach = "random elements do not reach the whole interval, or repeat";

template <class T>
static T rnd_int(Ctx &c) {
  typedef std::numeric_limits<T> L;
  switch (c.rng.below(6)) {
  case 0: return (T)(L::max() - (T)c.rng.below(20));
  case 1: return (T)(L::min() + (T)c.rng.below(20));
  case 2: return (T)c.rng.next();
  default: return (T)(L::is_signed ? c.rng.range(-60, 60) : (int64_t)c.rng.below(120));
  }
}
static i128 count_of(i128 b, i128 e, i128 s) {
  if (s > 0)
    return e <= b ? 0 : (e - b + s - 1) / s;
  return e >= b ? 0 : (b - e - s - 1) / -s;
}
template <class T>
static void check_int(Ctx &c, const nd::array &a, i128 b, i128 n, i128 s, const ndt::type &tp, const std::string &what) {
  c.check(a.get_ndim() == 1 && a.get_dtype() == tp, k_type, [&] { return vf::cat(what, " gives ", a.get_type().str()); });
  if (!c.check((i128)a.get_dim_size() == n, k_count, [&] { return vf::cat(what, " gives ", a.get_dim_size(), " instead of ", dv::i128s(n)); }))
    return;
  Val v = dv::read(a);
  for (i128 i = 0; i < n; ++i)
    if (!c.check(v.kids[(size_t)i] == Val::I(b + i * s), k_value, [&] { return vf::cat(what, " element ", dv::i128s(i), " is ", dv::show(v.kids[(size_t)i])); }))
      return;
}
template <class T>
static void old_int(Ctx &c) {
  T b = rnd_int<T>(c), e = rnd_int<T>(c), s = rnd_int<T>(c);
  if (c.rng.chance(1, 2))
    e = (T)((typename std::make_unsigned<T>::type)b + (typename std::make_unsigned<T>::type)c.rng.range(std::numeric_limits<T>::is_signed ? -300 : 0, 300));
  i128 n = s ? count_of(b, e, s) : 0;
  if (n > 5000) { // as few as it takes
    s = (T)((i128)e > (i128)b ? std::min<i128>(std::numeric_limits<T>::max(), ((i128)e - b) / (1 + c.rng.below(50)))
                              : std::max<i128>(std::numeric_limits<T>::min(), ((i128)e - b) / (1 + (i128)c.rng.below(50))));
    n = s ? count_of(b, e, s) : 0;
    if (n > 5000)
      return;
  }
  std::string what = vf::cat("old_range of ", ndt::make_type<T>().str(), " ", dv::i128s(b), " to ", dv::i128s(e), " by ", dv::i128s(s));
  c.describe(what);
  nd::array a;
  dv::Outcome oc = dv::attempt([&] { a = nd::old_range(ndt::make_type<T>(), &b, &e, &s); });
  c.saw("old_range of integers", vf::hash_str(what));
  if (s == 0) {
    c.check(!oc.ok, k_bad, [&] { return what; });
    return;
  }
  if (c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.cls, " ", oc.msg); }))
    check_int<T>(c, a, b, n, s, ndt::make_type<T>(), what);
}
static void old_ints(Ctx &c) {
  switch (c.rng.below(8)) {
  case 0: return old_int<int8_t>(c);
  case 1: return old_int<int16_t>(c);
  case 2: return old_int<int32_t>(c);
  case 3: return old_int<int64_t>(c);
  case 4: return old_int<uint8_t>(c);
  case 5: return old_int<uint16_t>(c);
  case 6: return old_int<uint32_t>(c);
  default: return old_int<uint64_t>(c);
  }
}
template <class T>
static void new_int(Ctx &c) {
  T b = rnd_int<T>(c), e = rnd_int<T>(c), s = rnd_int<T>(c);
  if (c.rng.chance(1, 2))
    e = (T)((typename std::make_unsigned<T>::type)b + (typename std::make_unsigned<T>::type)c.rng.range(-300, 300));
  int form = (int)c.rng.below(6);
  if (form != 4) {
    if (form == 0 || form == 1 || form == 5)
      b = 0;
    if (form != 1 && form != 3)
      s = 1;
  }
  i128 n = s ? count_of(b, e, s) : 0;
  if (n > 5000) {
    if (form < 2 || form == 5)
      e = (T)c.rng.below(300), s = form != 1 ? 1 : s;
    else
      e = (T)((typename std::make_unsigned<T>::type)b + (typename std::make_unsigned<T>::type)c.rng.range(0, 300));
    n = s ? count_of(b, e, s) : 0;
    if (n > 5000)
      return;
  }
  std::string what = vf::cat("range of ", ndt::make_type<T>().str(), " form ", form, " ", dv::i128s(b), " to ", dv::i128s(e), " by ", dv::i128s(s));
  c.describe(what);
  nd::array a;
  dv::Outcome oc = dv::attempt([&] {
    switch (form) {
    case 0: a = nd::range({}, {{"start", e}}); break; // one number alone is where it stops
    case 1: a = nd::range({}, {{"stop", e}, {"step", s}}); break;
    case 2: a = nd::range({}, {{"start", b}, {"stop", e}}); break;
    case 5: a = nd::range({}, {{"stop", e}}); break;
    default: a = nd::range({}, {{"start", b}, {"stop", e}, {"step", s}});
    }
  });
  c.saw("range of integers", vf::hash_str(what));
  if (s == 0) {
    c.check(!oc.ok, k_bad, [&] { return what; });
    return;
  }
  if (c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.cls, " ", oc.msg); }))
    check_int<T>(c, a, b, n, s, ndt::make_type<T>(), what);
}
// floating point: the distance is a whole number of steps, near enough
template <class T>
static void flt(Ctx &c) {
  T b = (T)(c.rng.coin() ? c.rng.range(-100, 100) / 4.0 : (c.rng.unit() - 0.5) * std::ldexp(1.0, (int)c.rng.range(-6, 6)));
  T s = (T)((c.rng.coin() ? (double)(1 + c.rng.below(40)) / 8 : c.rng.unit() + 0.01) * (c.rng.coin() ? -1 : 1));
  intptr_t n = c.rng.chance(1, 8) ? 0 : (intptr_t)c.rng.below(200);
  int form = (int)c.rng.below(8); // 0 and 1: only where it stops
  if (form < 2)
    b = 0, s = 1;
  bool back = c.rng.chance(1, 8);
  T e = (T)((long double)b + (back ? -(long double)n : (long double)n) * s);
  bool zero = c.rng.chance(1, 30), nan = c.rng.chance(1, 40);
  if (zero)
    form = 2, s = 0;
  if (nan)
    form = 2, (c.rng.coin() ? e : s) = c.rng.coin() ? std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::infinity();
  if (std::isnan(e) || std::isnan(s) || std::isinf(e) || std::isinf(s))
    nan = true;
  bool old = c.rng.coin();
  std::string what = vf::cat(old ? "old_range of " : "range of ", ndt::make_type<T>().str(), " ", (double)b, " to ", (double)e, " by ", (double)s);
  c.describe(what);
  nd::array a;
  dv::Outcome oc = dv::attempt([&] {
    if (old)
      a = nd::old_range(ndt::make_type<T>(), &b, &e, &s);
    else if (form < 2)
      a = nd::range({}, {{form ? "start" : "stop", e}});
    else
      a = nd::range({}, {{"start", b}, {"stop", e}, {"step", s}});
  });
  c.saw(old ? "old_range of floats" : "range of floats", vf::hash_str(what));
  if (nan) { // anything but a crash, or an array of nonsense
    bool ok = !oc.ok || a.get_dim_size() <= 1;
    c.check(ok, k_bad, [&] { return vf::cat(what, " gives ", a.get_type().str()); });
    return;
  }
  if (zero) {
    c.check(!oc.ok, k_bad, [&] { return vf::cat(what, " gives ", a.get_type().str()); });
    return;
  }
  if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.cls, " ", oc.msg); }))
    return;
  intptr_t want = back || e == b ? 0 : n;
  c.check(a.get_ndim() == 1 && a.get_dtype() == ndt::make_type<T>(), k_type, [&] { return vf::cat(what, " gives ", a.get_type().str()); });
  if (!c.check(a.get_dim_size() == want, k_count, [&] { return vf::cat(what, " gives ", a.get_dim_size(), " instead of ", want); }))
    return;
  Val v = dv::read(a);
  for (intptr_t i = 0; i < want; ++i) {
    long double x = (long double)b + (long double)i * s, tol = 4 * std::numeric_limits<T>::epsilon() * (fabsl((long double)b) + fabsl((long double)i * s));
    if (!c.check(fabsl(v.kids[i].d - x) <= tol, k_value, [&] { return vf::cat(what, " element ", i, " is ", v.kids[i].d); }))
      return;
  }
}
static void ranges(Ctx &c) {
  switch (c.rng.below(4)) {
  case 0: return new_int<int32_t>(c);
  case 1: return new_int<int64_t>(c);
  case 2: return flt<float>(c);
  default: return flt<double>(c);
  }
}
static void linspace(Ctx &c) {
  int t = (int)c.rng.below(4);
  intptr_t n = c.rng.chance(1, 10) ? c.rng.range(-2, 2) : 2 + (intptr_t)c.rng.below(100);
  double b[2], e[2];
  for (int i = 0; i < 2; ++i)
    b[i] = c.rng.range(-1000, 1000) / 8.0, e[i] = c.rng.coin() ? c.rng.range(-1000, 1000) / 8.0 : (double)(float)(c.rng.unit() * 1e6);
  std::string what = vf::cat("linspace kind ", t, " of ", n, " from ", b[0], " to ", e[0]);
  c.describe(what);
  nd::array a;
  dv::Outcome oc = dv::attempt([&] {
    switch (t) {
    case 0: a = nd::old_linspace((float)b[0], (float)e[0], n); break;
    case 1: a = nd::old_linspace(b[0], e[0], n); break;
    case 2: a = nd::old_linspace(nd::array(b[0]), nd::array(e[0]), n, ndt::type("float64")); break;
    default: a = nd::old_linspace(nd::array(dynd::complex<double>(b[0], b[1])), nd::array(dynd::complex<double>(e[0], e[1])), n);
    }
  });
  c.saw("linspace", vf::hash_str(what));
  if (n < 2) {
    c.check(!oc.ok, k_bad, [&] { return what; });
    return;
  }
  if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.msg); }))
    return;
  c.check(a.get_ndim() == 1 && a.get_dim_size() == n, k_type, [&] { return vf::cat(what, " gives ", a.get_type().str()); });
  Val v = dv::read(a);
  bool ok = (intptr_t)v.kids.size() == n;
  double eps = t == 0 ? 1e-6 : 1e-14;
  for (intptr_t i = 0; ok && i < n; ++i)
    for (int p = 0; p < (t == 3 ? 2 : 1); ++p) {
      double x = p ? v.kids[i].d2 : v.kids[i].d, w = (double)(((long double)(n - 1 - i) * b[p] + (long double)i * e[p]) / (n - 1));
      ok = ok && std::fabs(x - w) <= eps * (std::fabs(b[p]) + std::fabs(e[p]) + 1);
      if (i == 0 || i == n - 1)
        ok = ok && x == (i ? e[p] : b[p]);
    }
  c.check(ok, k_lin, [&] { return vf::cat(what, " gives ", dv::show(v)); });
}

template <class T>
static void uni_int(Ctx &c) {
  typedef std::numeric_limits<T> L;
  T a = rnd_int<T>(c), b = rnd_int<T>(c);
  if (c.rng.coin())
    b = (T)(a + (T)std::min<i128>((i128)L::max() - a, c.rng.below(6)));
  bool swap = b < a;
  if (swap && !c.rng.chance(1, 4))
    std::swap(a, b), swap = false;
  int given = (int)c.rng.below(4); // which ends are given
  if (given == 0 || given == 2)
    a = 0;
  if (given == 0 || given == 1)
    b = L::max();
  swap = b < a;
  std::vector<intptr_t> sh = ag::gen_shape(c, 3, 8);
  std::string dims;
  size_t n = 1;
  for (intptr_t x : sh)
    dims += vf::cat(x, " * "), n *= x;
  ndt::type tp(dims + ndt::make_type<T>().str());
  std::string what = vf::cat("uniform ", tp.str(), " from ", dv::i128s(a), " to ", dv::i128s(b), " given ", given);
  c.describe(what);
  nd::array r;
  dv::Outcome oc = dv::attempt([&] {
    switch (given) {
    case 0: r = nd::random::uniform({}, {{"dst_tp", tp}}); break;
    case 1: r = nd::random::uniform({}, {{"a", a}, {"dst_tp", tp}}); break;
    case 2: r = nd::random::uniform({}, {{"b", b}, {"dst_tp", tp}}); break;
    default: r = nd::random::uniform({}, {{"a", a}, {"b", b}, {"dst_tp", tp}});
    }
  });
  c.saw("uniform of integers", vf::hash_str(what));
  if (swap) {
    c.check(!oc.ok, k_in, [&] { return what + ", an empty interval, gives " + dv::show(dv::read(r)); });
    return;
  }
  if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.cls, " ", oc.msg); }))
    return;
  c.check(r.get_type() == tp, k_type, [&] { return vf::cat(what, " gives ", r.get_type().str()); });
  std::vector<const ag::Node *> lv;
  ag::Node t = ag::tree(r);
  ag::leaves(t, lv);
  bool in = lv.size() == n;
  for (auto *x : lv) {
    i128 v = dv::read(x->tp, nullptr, x->at).i;
    in = in && v >= (i128)a && v <= (i128)b;
  }
  c.check(in, k_in, [&] { return vf::cat(what, " gives ", dv::show(dv::read(r))); });
}
template <class T>
static void uni_flt(Ctx &c) {
  T a = (T)(c.rng.range(-100, 100) / 4.0), b = (T)(a + c.rng.below(1000) / 8.0);
  if (c.rng.chance(1, 8))
    a = (T)-std::ldexp(1, (int)c.rng.range(20, 100)), b = -a;
  if (c.rng.chance(1, 12))
    a = -std::numeric_limits<T>::max(), b = std::numeric_limits<T>::max();
  int given = (int)c.rng.below(4);
  if (given == 0 || given == 2)
    a = 0;
  if (given == 0 || given == 1)
    b = 1;
  size_t n = c.rng.below(40);
  ndt::type tp(vf::cat(n, " * ") + ndt::make_type<T>().str());
  std::string what = vf::cat("uniform ", tp.str(), " from ", (double)a, " to ", (double)b, " given ", given);
  c.describe(what);
  nd::array r;
  dv::Outcome oc = dv::attempt([&] {
    switch (given) {
    case 0: r = nd::random::uniform({}, {{"dst_tp", tp}}); break;
    case 1: r = nd::random::uniform({}, {{"a", a}, {"dst_tp", tp}}); break;
    case 2: r = nd::random::uniform({}, {{"b", b}, {"dst_tp", tp}}); break;
    default: r = nd::random::uniform({}, {{"a", a}, {"b", b}, {"dst_tp", tp}});
    }
  });
  c.saw("uniform of floats", vf::hash_str(what));
  if (b < a || (double)b - (double)a > (double)std::numeric_limits<T>::max() || std::isinf((double)b - (double)a)) {
    if (!oc.ok)
      return;
  } else if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.cls, " ", oc.msg); }))
    return;
  Val v = dv::read(r);
  bool in = v.kids.size() == n;
  for (const Val &x : v.kids)
    in = in && x.d >= std::min(a, b) && x.d <= std::max(a, b); // ends given the other way round are taken as they are
  c.check(in, k_in, [&] { return vf::cat(what, " gives ", dv::show(v)); });
}
template <class T>
static void uni_cplx(Ctx &c) {
  typedef dynd::complex<T> C;
  T v[4];
  for (T &x : v)
    x = (T)(c.rng.range(-100, 100) / 4.0);
  if (v[2] < v[0])
    std::swap(v[0], v[2]);
  if (v[3] < v[1])
    std::swap(v[1], v[3]);
  size_t n = c.rng.below(30);
  ndt::type tp(vf::cat(n, " * ") + ndt::make_type<C>().str());
  bool given = c.rng.chance(3, 4);
  if (!given)
    v[0] = v[1] = 0, v[2] = v[3] = 1;
  std::string what = vf::cat("uniform ", tp.str(), " from ", v[0], ",", v[1], " to ", v[2], ",", v[3]);
  c.describe(what);
  nd::array r;
  dv::Outcome oc = dv::attempt([&] {
    r = given ? nd::random::uniform({}, {{"a", C(v[0], v[1])}, {"b", C(v[2], v[3])}, {"dst_tp", tp}}) : nd::random::uniform({}, {{"dst_tp", tp}});
  });
  c.saw("uniform of complex", vf::hash_str(what));
  if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.cls, " ", oc.msg); }))
    return;
  Val x = dv::read(r);
  bool in = x.kids.size() == n;
  for (const Val &z : x.kids)
    in = in && z.d >= v[0] && z.d <= v[2] && z.d2 >= v[1] && z.d2 <= v[3];
  c.check(in, k_in, [&] { return vf::cat(what, " gives ", dv::show(x)); });
}
static void uniform(Ctx &c) {
  switch (c.rng.below(8)) {
  case 0: return uni_int<int32_t>(c);
  case 1: return uni_int<int64_t>(c);
  case 2: return uni_int<uint32_t>(c);
  case 3: return uni_int<uint64_t>(c);
  case 4: return uni_flt<float>(c);
  case 5: return uni_flt<double>(c);
  case 6: return uni_cplx<float>(c);
  default: return uni_cplx<double>(c);
  }
}
// 600 draws from an interval of k numbers miss one of them with probability < k * (1 - 1/k)^600 < 1e-24 for k <= 10;
// 64 draws of 62 bits or 2000 of real numbers leave half of the interval empty with probability 2^-60 and less
static void reach(Ctx &c) {
  int what = (int)c.rng.below(5);
  c.describe(vf::cat("reach ", what));
  c.saw("reach", vf::mix(what, c.idx));
  if (what < 2) {
    int k = 1 + (int)c.rng.below(10);
    int64_t a = c.rng.range(-5, 5);
    nd::array r = what ? nd::random::uniform({}, {{"a", (int64_t)a}, {"b", (int64_t)(a + k - 1)}, {"dst_tp", ndt::type("600 * int64")}})
                       : nd::random::uniform({}, {{"a", (int32_t)a}, {"b", (int32_t)(a + k - 1)}, {"dst_tp", ndt::type("600 * int32")}});
    std::set<int64_t> seen;
    for (const Val &v : dv::read(r).kids)
      seen.insert((int64_t)v.i);
    c.check((int)seen.size() == k, k_reach, [&] { return vf::cat("600 draws from ", k, " numbers give ", seen.size()); });
  } else if (what == 2) {
    nd::array r = nd::random::uniform({}, {{"dst_tp", ndt::type("64 * uint64")}});
    std::set<dv::i128> seen;
    int high = 0;
    for (const Val &v : dv::read(r).kids)
      seen.insert(v.i), high += v.i >> 63 != 0;
    c.check(seen.size() == 64 && high > 0 && high < 64, k_reach, [&] { return vf::cat("64 draws of uint64: ", seen.size(), " values, ", high, " in the upper half"); });
  } else {
    bool f = what == 3;
    double a = c.rng.range(-10, 10), b = a + 1 + c.rng.below(10);
    nd::array r = f ? nd::random::uniform({}, {{"a", (float)a}, {"b", (float)b}, {"dst_tp", ndt::type("10 * 40 * float32")}})
                    : nd::random::uniform({}, {{"a", a}, {"b", b}, {"dst_tp", ndt::type("10 * 40 * float64")}});
    int part[8] = {0};
    std::set<double> seen;
    for (const Val &row : dv::read(r).kids)
      for (const Val &v : row.kids) {
        int k = (int)((v.d - a) / (b - a) * 8);
        ++part[k < 0 ? 0 : k > 7 ? 7 : k];
        seen.insert(v.d);
      }
    bool ok = seen.size() > 200;
    for (int k : part)
      ok = ok && k > 0;
    c.check(ok, k_reach, [&] { return vf::cat("400 draws from ", a, " to ", b, ": ", seen.size(), " values, eighths ", part[0], " ", part[1], " ", part[2], " ", part[3], " ", part[4], " ", part[5], " ", part[6], " ", part[7]); });
  }
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "F04",
                 "integer ranges of every width and sign at the limits of the type, floating ranges of whole numbers of steps, evenly spaced values, random arrays of any shape and interval",
                 {{"old_ints", 40000, 1000000, old_ints}, {"ranges", 20000, 500000, ranges}, {"linspace", 5000, 100000, linspace}, {"uniform", 20000, 400000, uniform}, {"reach", 600, 20000, reach}});
}
