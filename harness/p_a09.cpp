// A09: C++ values go into arrays and come back unchanged; arrays are made with the type and shape that was asked for.
#include "arrgen.hpp"
#include <dynd/callable.hpp>
#include <array>
#include <tuple>
using namespace dynd;
using vf::Ctx;
using dv::Val;
typedef std::vector<intptr_t> ivec;

// ---- C++ types, their dynd types and the values they hold -------------------------------------------------------------
template <class T> struct Cpp;

template <class T> static T bits_int(Ctx &c) {
  switch (c.rng.below(6)) {
  case 0:
    return (T)c.rng.below(10);
  case 1:
    return std::numeric_limits<T>::max();
  case 2:
    return std::numeric_limits<T>::min();
  case 3:
    return (T)(0 - (T)c.rng.below(10));
  case 4:
    return (T)(std::numeric_limits<T>::max() - (T)c.rng.below(4));
  default:
    return (T)c.rng.next();
  }
}
static double hostile_double(Ctx &c) {
  static const double v[] = {0.0, -0.0, 1.0, -1.5, 0.1, 1e308, -1e308, 5e-324, INFINITY, -INFINITY, NAN, 16777217.0, 1e-40, 123456789.0};
  return c.rng.coin() ? v[c.rng.below(sizeof(v) / sizeof(*v))] : ((double)c.rng.below(2000001) - 1e6) / 64;
}
static float hostile_float(Ctx &c) {
  static const float v[] = {0.0f, -0.0f, 1.0f, -1.5f, 0.1f, 3e38f, -3e38f, 1e-45f, INFINITY, -INFINITY, NAN, 16777216.0f};
  return c.rng.coin() ? v[c.rng.below(sizeof(v) / sizeof(*v))] : (float)((int)c.rng.below(20001) - 10000) / 8;
}

#define INT_CPP(T, NAME)                                                                                                \
  template <> struct Cpp<T> {                                                                                           \
    static const char *tp() { return NAME; }                                                                            \
    static T make(Ctx &c) { return bits_int<T>(c); }                                                                    \
    static Val val(const T &v) { return Val::I(v); }                                                                    \
    static Val back(const T &v) { return val(v); }                                                                      \
  };
INT_CPP(signed char, "int8")
INT_CPP(short, "int16")
INT_CPP(int, "int32")
INT_CPP(long, "int64")
INT_CPP(long long, "int64")
INT_CPP(unsigned char, "uint8")
INT_CPP(unsigned short, "uint16")
INT_CPP(unsigned int, "uint32")
INT_CPP(unsigned long, "uint64")
INT_CPP(unsigned long long, "uint64")

template <> struct Cpp<bool> {
  static const char *tp() { return "bool"; }
  static bool make(Ctx &c) { return c.rng.coin(); }
  static Val val(bool v) { return Val::I(v); }
};
template <> struct Cpp<float> {
  static const char *tp() { return "float32"; }
  static float make(Ctx &c) { return hostile_float(c); }
  static Val val(float v) { return Val::F(v); }
};
template <> struct Cpp<double> {
  static const char *tp() { return "float64"; }
  static double make(Ctx &c) { return hostile_double(c); }
  static Val val(double v) { return Val::F(v); }
};
template <> struct Cpp<dynd::complex<float>> {
  typedef dynd::complex<float> T;
  static const char *tp() { return "complex[float32]"; }
  static T make(Ctx &c) {
    float re = hostile_float(c), im = hostile_float(c);
    return T(re, im);
  }
  static Val val(const T &v) { return Val::C(v.real(), v.imag()); }
};
template <> struct Cpp<dynd::complex<double>> {
  typedef dynd::complex<double> T;
  static const char *tp() { return "complex[float64]"; }
  static T make(Ctx &c) {
    double re = hostile_double(c), im = hostile_double(c);
    return T(re, im);
  }
  static Val val(const T &v) { return Val::C(v.real(), v.imag()); }
};
static std::string hostile_string(Ctx &c) {
  static const size_t lens[] = {0, 1, 2, 7, 14, 15, 16, 17, 31, 64, 200};
  size_t n = c.rng.coin() ? lens[c.rng.below(11)] : c.rng.below(20);
  std::string s;
  for (size_t i = 0; i < n; ++i)
    s += c.rng.chance(1, 8) ? '\0' : (char)(32 + c.rng.below(95));
  return s;
}
template <> struct Cpp<std::string> {
  static const char *tp() { return "string"; }
  static std::string make(Ctx &c) { return hostile_string(c); }
  static Val val(const std::string &v) { return Val::S(v); }
};
template <> struct Cpp<bytes> {
  static const char *tp() { return "bytes"; }
  static bytes make(Ctx &c) {
    std::string s = hostile_string(c);
    return bytes(s.data(), s.size());
  }
  static Val val(const bytes &v) {
    Val r = Val::S(std::string(v.begin(), v.end()));
    r.k = Val::Raw;
    return r;
  }
};
template <> struct Cpp<ndt::type> {
  static const char *tp() { return "type"; }
  static ndt::type make(Ctx &c) {
    static const char *const t[] = {"int32", "bool", "3 * float64", "var * {a: int32, b: string}", "(int8, ?int16)", "Fixed * M", "string"};
    return ndt::type(t[c.rng.below(7)]);
  }
  static Val val(const ndt::type &v) { return Val::S(v.str()); }
};

template <class T> static std::vector<T> make_n(Ctx &c, size_t n) {
  std::vector<T> v;
  for (size_t i = 0; i < n; ++i)
    v.push_back(Cpp<T>::make(c));
  return v;
}

// What a container holds, and the sizes seen at each level of nesting
struct Shape {
  std::vector<std::vector<intptr_t>> sizes; // per level
  std::string elem;
  void add(size_t level, intptr_t n) {
    if (sizes.size() <= level)
      sizes.resize(level + 1);
    sizes[level].push_back(n);
  }
};
template <class T> struct Held {
  static const int ndim = 0;
  static Val val(const T &v, Shape &s, size_t) {
    s.elem = Cpp<T>::tp();
    return Cpp<T>::val(v);
  }
  static void elem(Shape &s) { s.elem = Cpp<T>::tp(); }
};
template <class V, class X> static Val held_seq(const V &v, Shape &s, size_t level) {
  s.add(level, v.size());
  Held<X>::elem(s);
  std::vector<Val> r;
  for (auto it = v.begin(); it != v.end(); ++it)
    r.push_back(Held<X>::val(*it, s, level + 1));
  return Val::L(r);
}
template <class X> struct Held<std::vector<X>> {
  static const int ndim = 1 + Held<X>::ndim;
  static Val val(const std::vector<X> &v, Shape &s, size_t level) { return held_seq<std::vector<X>, X>(v, s, level); }
  static void elem(Shape &s) { Held<X>::elem(s); }
};
template <class X> struct Held<std::initializer_list<X>> {
  static const int ndim = 1 + Held<X>::ndim;
  static Val val(const std::initializer_list<X> &v, Shape &s, size_t level) {
    return held_seq<std::initializer_list<X>, X>(v, s, level);
  }
  static void elem(Shape &s) { Held<X>::elem(s); }
};
template <class X, size_t N> struct Held<std::array<X, N>> {
  static const int ndim = 1 + Held<X>::ndim;
  static Val val(const std::array<X, N> &v, Shape &s, size_t level) { return held_seq<std::array<X, N>, X>(v, s, level); }
  static void elem(Shape &s) { Held<X>::elem(s); }
};

// The type of `a` must be able to hold exactly the container: the leading dimension is fixed, one where all the rows agree
// is fixed, one where they do not is var.
static void check_dims(Ctx &c, const nd::array &a, const Shape &s, int ndim, const char *what) {
  ndt::type t = a.get_type();
  for (int d = 0; d < ndim; ++d) {
    intptr_t n = 0;
    bool same = true, unknown = false;
    if ((int)s.sizes.size() > d && !s.sizes[d].empty()) {
      n = s.sizes[d][0];
      for (intptr_t x : s.sizes[d])
        same &= x == n;
    } else
      unknown = true;
    // an empty container says nothing about the levels below it
    for (int e = 0; e < d && e < (int)s.sizes.size(); ++e)
      for (intptr_t x : s.sizes[e])
        unknown |= x == 0;
    bool ok;
    if (t.get_id() == fixed_dim_id)
      ok = (same || unknown) && (unknown || t.extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == n);
    else
      ok = t.get_id() == var_dim_id && (!same || unknown);
    c.check(ok, vf::cat("dims:", what), [&] { return vf::cat("dimension ", d, " of ", a.get_type(), " for rows of sizes from ", n); });
    if (!ok || t.get_ndim() == 0)
      return;
    t = t.extended<ndt::base_dim_type>()->get_element_type();
  }
  c.check(t.str() == s.elem, vf::cat("dtype:", what), [&] { return vf::cat(t, " for elements of ", s.elem); });
}

template <class V> static void check_held(Ctx &c, const nd::array &a, const V &v, const char *what) {
  Shape s;
  Val want = Held<V>::val(v, s, 0);
  check_dims(c, a, s, Held<V>::ndim, what);
  Val got = dv::read(a);
  c.check(got == want, vf::cat("value:", what, ":", s.elem),
          [&] { return vf::cat(a.get_type(), " holds ", dv::show(got), ", made from ", dv::show(want)); });
  c.check(a.get_flags() == (uint64_t)nd::readwrite_access_flags, vf::cat("flags:", what),
          [&] { return vf::cat("flags ", a.get_flags()); });
  c.saw("container", vf::mix(vf::hash_str(what), dv::hash(want)));
}

// ---- scalars ----------------------------------------------------------------------------------------------------------
template <class T> struct Same {
  static bool eq(const T &a, const T &b) { return Cpp<T>::val(a) == Cpp<T>::val(b); }
};
template <class T> static void scalar_of(Ctx &c) {
  T v = Cpp<T>::make(c);
  c.describe(vf::cat(Cpp<T>::tp(), " ", dv::show(Cpp<T>::val(v))));
  nd::array a(v);
  Val want = Cpp<T>::val(v);
  c.check(a.get_type().str() == Cpp<T>::tp(), "scalar-type", [&] { return vf::cat(a.get_type(), " for a C++ ", Cpp<T>::tp()); });
  c.check(ndt::make_type<T>().str() == Cpp<T>::tp(), "make_type", [&] { return vf::cat(ndt::make_type<T>()); });
  c.check(dv::read(a) == want, "scalar-value", [&] { return vf::cat(dv::show(dv::read(a)), " from ", dv::show(want)); });
  T back = a.template as<T>();
  c.check(Cpp<T>::val(back) == want, "as", [&] { return vf::cat(dv::show(Cpp<T>::val(back)), " from ", dv::show(want)); });
  // Scalars are immutable values: no way to write through the array
  c.check(a.is_immutable() && !dv::attempt([&] { a.data(); }).ok, "scalar-immutable", [&] { return vf::cat("flags ", a.get_flags()); });
  c.check(a.is_scalar() && a.get_ndim() == 0, "scalar-ndim", [&] { return std::string(); });
  nd::array copy = a;
  nd::array moved(std::move(a));
  c.check(copy.get() == moved.get() && a.is_null(), "move", [&] { return std::string("moving an array"); });
  c.check(dv::read(moved) == want, "scalar-value", [&] { return std::string("after the move"); });
  // With another type: the same as an assignment to it
  static const char *const tps[] = {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "complex[float64]", "string"};
  ndt::type tp(c.rng.chance(1, 4) ? Cpp<T>::tp() : tps[c.rng.below(13)]);
  if (moved.get_type().get_id() != type_id && moved.get_type().get_id() != bytes_id) {
    nd::array x, y = nd::empty(tp);
    auto o1 = dv::attempt([&] { x = nd::array(moved, tp); });
    auto o2 = dv::attempt([&] { y.assign(moved); });
    c.check(o1.ok == o2.ok && o1.cls == o2.cls, "with-type-outcome",
            [&] { return vf::cat("array(", dv::show(want), ", ", tp, "): ", o1.ok ? "ok" : o1.msg, "; assigning: ", o2.ok ? "ok" : o2.msg); });
    if (o1.ok && o2.ok) {
      c.check(x.get_type() == tp, "with-type-type", [&] { return vf::cat(x.get_type(), " for ", tp); });
      c.check(dv::read(x) == dv::read(y), "with-type-value", [&] { return vf::cat(dv::show(dv::read(x)), " vs ", dv::show(dv::read(y))); });
      if (tp.str() == Cpp<T>::tp())
        c.check(dv::read(x) == want, "with-same-type", [&] { return vf::cat(dv::show(dv::read(x)), " vs ", dv::show(want)); });
    }
  }
  c.saw("scalar", vf::mix(vf::hash_str(Cpp<T>::tp()), dv::hash(want)));
}

// as<U>(mode) is the assignment to a U in that mode
template <class T, class U> static void as_of(Ctx &c) {
  T v = Cpp<T>::make(c);
  nd::array a(v);
  static const assign_error_mode modes[] = {assign_error_nocheck, assign_error_overflow, assign_error_fractional, assign_error_inexact};
  // unchecked conversions of values that do not fit have no defined result
  assign_error_mode m = modes[1 + c.rng.below(3)];
  c.describe(vf::cat(dv::show(Cpp<T>::val(v)), " as ", Cpp<U>::tp(), " mode ", (int)m));
  U got = U();
  nd::array y = nd::empty(ndt::type(Cpp<U>::tp()));
  auto o1 = dv::attempt([&] { got = a.template as<U>(m); });
  auto o2 = dv::attempt([&] { y.assign(a, m); });
  c.check(o1.ok == o2.ok && o1.cls == o2.cls, "as-outcome", [&] {
    return vf::cat("as<", Cpp<U>::tp(), ">(", dv::show(Cpp<T>::val(v)), "), mode ", (int)m, ": ", o1.ok ? "ok" : o1.msg, "; assigning: ",
                   o2.ok ? "ok" : o2.msg);
  });
  if (o1.ok && o2.ok)
    c.check(Cpp<U>::val(got) == dv::read(y), "as-value",
            [&] { return vf::cat(dv::show(Cpp<U>::val(got)), " vs ", dv::show(dv::read(y))); });
  c.saw("as", vf::mix(vf::hash_str(vf::cat(Cpp<T>::tp(), Cpp<U>::tp(), (int)m)), dv::hash(Cpp<T>::val(v))));
}
template <class T> static void as_from(Ctx &c) {
  switch (c.rng.below(9)) {
  case 0:
    return as_of<T, signed char>(c);
  case 1:
    return as_of<T, int>(c);
  case 2:
    return as_of<T, long>(c);
  case 3:
    return as_of<T, unsigned char>(c);
  case 4:
    return as_of<T, unsigned long long>(c);
  case 5:
    return as_of<T, float>(c);
  case 6:
    return as_of<T, double>(c);
  case 7:
    return as_of<T, bool>(c);
  default:
    return as_of<T, std::string>(c);
  }
}
static void char_literals(Ctx &c) {
  std::string s = hostile_string(c);
  s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
  const char *p = s.c_str();
  nd::array a(p);
  c.check(a.get_type().get_id() == string_id && dv::read(a) == Val::S(s), "const-char", [&] { return vf::cat(dv::show(dv::read(a)), " from ", vf::quote(s)); });
  // writing over the source does not show in the array
  std::string want = s;
  for (char &x : s)
    x = '#';
  c.check(dv::read(a) == Val::S(want), "const-char-copied", [&] { return dv::show(dv::read(a)); });
  nd::array b("a literal"), e("");
  c.check(dv::read(b) == Val::S("a literal") && dv::read(e) == Val::S(""), "literal", [&] { return dv::show(dv::read(b)); });
  std::vector<std::string> keep = make_n<std::string>(c, c.rng.below(6));
  std::vector<const char *> ps;
  std::vector<Val> vals;
  for (std::string &k : keep) {
    k.erase(std::remove(k.begin(), k.end(), '\0'), k.end());
    ps.push_back(k.c_str());
    vals.push_back(Val::S(k));
  }
  nd::array v(ps), q(ps.data(), ps.size());
  for (std::string &k : keep)
    for (char &x : k)
      x = '#';
  c.check(dv::read(v) == Val::L(vals) && dv::read(q) == Val::L(vals), "const-chars",
          [&] { return vf::cat(dv::show(dv::read(v)), " ", dv::show(dv::read(q)), " from ", dv::show(Val::L(vals))); });
  nd::array il = {"x", "yy", "zzz"};
  c.check(dv::read(il) == Val::L({Val::S("x"), Val::S("yy"), Val::S("zzz")}), "const-chars", [&] { return dv::show(dv::read(il)); });
  c.saw("text", vf::hash_str(want));
}
static void scalars(Ctx &c) {
  switch (c.rng.below(18)) {
  case 0: return scalar_of<bool>(c);
  case 1: return scalar_of<signed char>(c);
  case 2: return scalar_of<short>(c);
  case 3: return scalar_of<int>(c);
  case 4: return scalar_of<long>(c);
  case 5: return scalar_of<long long>(c);
  case 6: return scalar_of<unsigned char>(c);
  case 7: return scalar_of<unsigned short>(c);
  case 8: return scalar_of<unsigned int>(c);
  case 9: return scalar_of<unsigned long>(c);
  case 10: return scalar_of<unsigned long long>(c);
  case 11: return scalar_of<float>(c);
  case 12: return scalar_of<double>(c);
  case 13: return scalar_of<dynd::complex<float>>(c);
  case 14: return scalar_of<dynd::complex<double>>(c);
  case 15: return scalar_of<std::string>(c);
  case 16: return scalar_of<bytes>(c);
  default: return scalar_of<ndt::type>(c);
  }
}
static void as_scalars(Ctx &c) {
  switch (c.rng.below(8)) {
  case 0: return as_from<short>(c);
  case 1: return as_from<int>(c);
  case 2: return as_from<long>(c);
  case 3: return as_from<unsigned char>(c);
  case 4: return as_from<unsigned long>(c);
  case 5: return as_from<float>(c);
  case 6: return as_from<double>(c);
  default: return char_literals(c);
  }
}

// ---- containers -------------------------------------------------------------------------------------------------------
template <class T> static std::vector<std::vector<T>> make_rows(Ctx &c, int mode) {
  size_t n = c.rng.below(5), w = c.rng.below(4);
  std::vector<std::vector<T>> v;
  for (size_t i = 0; i < n; ++i)
    v.push_back(make_n<T>(c, mode == 0 ? w : c.rng.below(5)));
  return v;
}
template <class T> static void clobber(std::vector<T> &v) { v.clear(); }

template <class T> static void containers_of(Ctx &c) {
  switch (c.rng.below(6)) {
  case 0: {
    std::vector<T> v = make_n<T>(c, c.rng.below(12));
    nd::array a(v), p(v.data(), v.size());
    check_held(c, a, v, "vector");
    check_held(c, p, v, "pointer");
    for (size_t i = 0; i < v.size(); ++i) {
      T x = a((intptr_t)i).template as<T>();
      c.check(Cpp<T>::val(x) == Cpp<T>::val(v[i]), "element-as", [&] { return vf::cat("element ", i, ": ", dv::show(Cpp<T>::val(x))); });
    }
    std::vector<T> keep = v;
    v.assign(v.size(), T());
    check_held(c, a, keep, "vector");
    break;
  }
  case 1: {
    std::vector<std::vector<T>> v = make_rows<T>(c, 0);
    nd::array a(v);
    check_held(c, a, v, "vector2");
    break;
  }
  case 2: {
    std::vector<std::vector<T>> v = make_rows<T>(c, 1);
    nd::array a(v);
    check_held(c, a, v, "vector2");
    break;
  }
  case 3: {
    std::vector<std::vector<std::vector<T>>> v;
    size_t n = c.rng.below(4);
    int m = c.rng.below(3);
    size_t rows = c.rng.below(3), cols = c.rng.below(3);
    for (size_t i = 0; i < n; ++i) {
      std::vector<std::vector<T>> r;
      size_t nr = m == 1 ? c.rng.below(4) : rows;
      for (size_t j = 0; j < nr; ++j)
        r.push_back(make_n<T>(c, m == 2 ? c.rng.below(4) : cols));
      v.push_back(r);
    }
    nd::array a(v);
    check_held(c, a, v, "vector3");
    break;
  }
  case 4: {
    std::initializer_list<T> l1 = {Cpp<T>::make(c), Cpp<T>::make(c), Cpp<T>::make(c)};
    nd::array a(l1);
    check_held(c, a, l1, "list");
    auto two = [&](const std::initializer_list<std::initializer_list<T>> &l) {
      nd::array b(l);
      check_held(c, b, l, "list2");
    };
#define G Cpp<T>::make(c)
    two({{G, G}, {G, G}, {G, G}});
    two({{G, G}, {G}, {}});
    two({{}, {G, G, G}});
    two({{G}});
    two({{}, {}});
    break;
  }
  default: {
    auto three = [&](const std::initializer_list<std::initializer_list<std::initializer_list<T>>> &l) {
      nd::array b(l);
      check_held(c, b, l, "list3");
    };
    three({{{G, G}, {G, G}}, {{G, G}, {G, G}}, {{G, G}, {G, G}}});
    three({{{G, G}, {G}}, {{G, G, G}, {G, G}}});
    three({{{G, G}, {G, G}}, {{G, G}}});
    three({{{G}, {G, G}}, {{G, G}}, {}});
    three({{{G, G, G}}, {{}}, {{G}, {G, G}}});
#undef G
  }
  }
}
template <class T> static void plain_of(Ctx &c) {
  // C arrays and std::array, one, two and three levels deep
  T a1[5], a2[2][3], a3[2][1][4];
  std::array<T, 4> s1;
  std::array<std::array<T, 3>, 2> s2;
  std::array<std::array<std::array<T, 2>, 2>, 3> s3;
  std::vector<T> v1;
  std::vector<std::vector<T>> v2;
  std::vector<std::vector<std::vector<T>>> v3;
  for (T &x : a1)
    v1.push_back(x = Cpp<T>::make(c));
  for (auto &r : a2) {
    v2.emplace_back();
    for (T &x : r)
      v2.back().push_back(x = Cpp<T>::make(c));
  }
  for (auto &q : a3) {
    v3.emplace_back();
    for (auto &r : q) {
      v3.back().emplace_back();
      for (T &x : r)
        v3.back().back().push_back(x = Cpp<T>::make(c));
    }
  }
  for (T &x : s1)
    x = Cpp<T>::make(c);
  for (auto &r : s2)
    for (T &x : r)
      x = Cpp<T>::make(c);
  for (auto &q : s3)
    for (auto &r : q)
      for (T &x : r)
        x = Cpp<T>::make(c);
  nd::array b1(a1), b2(a2), b3(a3), t1(s1), t2(s2), t3(s3);
  for (T &x : a1)
    x = T();
  check_held(c, b1, v1, "c-array");
  check_held(c, b2, v2, "c-array2");
  check_held(c, b3, v3, "c-array3");
  check_held(c, t1, s1, "std-array");
  check_held(c, t2, s2, "std-array2");
  check_held(c, t3, s3, "std-array3");
  std::array<T, 1> one = {{s1[0]}};
  check_held(c, nd::array(one), one, "std-array");
}
static void containers(Ctx &c) {
  switch (c.rng.below(9)) {
  case 0: return containers_of<signed char>(c);
  case 1: return containers_of<int>(c);
  case 2: return containers_of<long>(c);
  case 3: return containers_of<unsigned short>(c);
  case 4: return containers_of<double>(c);
  case 5: return containers_of<dynd::complex<float>>(c);
  case 6: return containers_of<std::string>(c);
  case 7: return containers_of<bytes>(c);
  default: return containers_of<ndt::type>(c);
  }
}
static void plain(Ctx &c) {
  switch (c.rng.below(7)) {
  case 0: return plain_of<bool>(c);
  case 1: return plain_of<signed char>(c);
  case 2: return plain_of<short>(c);
  case 3: return plain_of<unsigned int>(c);
  case 4: return plain_of<long>(c);
  case 5: return plain_of<double>(c);
  default: return plain_of<dynd::complex<double>>(c);
  }
}

// ---- tuples -----------------------------------------------------------------------------------------------------------
static Val arr_val(const std::array<short, 3> &x) { return Val::L({Val::I(x[0]), Val::I(x[1]), Val::I(x[2])}); }
static void tuples(Ctx &c) {
  auto i8 = Cpp<signed char>::make(c);
  auto i = Cpp<int>::make(c);
  auto l = Cpp<long>::make(c);
  auto d = Cpp<double>::make(c);
  auto f = Cpp<float>::make(c);
  auto z = Cpp<dynd::complex<double>>::make(c);
  std::array<short, 3> s = {{Cpp<short>::make(c), Cpp<short>::make(c), Cpp<short>::make(c)}};
  std::array<std::array<short, 3>, 2> ss = {{s, {{1, 2, Cpp<short>::make(c)}}}};
  Val vi8 = Val::I(i8), vi = Val::I(i), vl = Val::I(l), vd = Val::F(d), vf_ = Val::F(f), vs = arr_val(s),
      vss = Val::L({arr_val(ss[0]), arr_val(ss[1])}), vz = Val::C(z.real(), z.imag());
  auto ck = [&](const nd::array &a, const char *tp, const Val &want) {
    c.check(a.get_type().str() == tp, "tuple-type", [&] { return vf::cat(a.get_type(), " for ", tp); });
    Val got = dv::read(a);
    c.check(got == want, vf::cat("tuple-value:", tp), [&] { return vf::cat(dv::show(got), " from ", dv::show(want)); });
    c.saw("tuple", vf::mix(vf::hash_str(tp), dv::hash(want)));
  };
  ck(nd::array(std::make_tuple(i)), "(int32)", Val::L({vi}));
  ck(nd::array(std::make_tuple(i8, d, i)), "(int8, float64, int32)", Val::L({vi8, vd, vi}));
  ck(nd::array(std::make_tuple(d, i8, l, i8, f)), "(float64, int8, int64, int8, float32)", Val::L({vd, vi8, vl, vi8, vf_}));
  ck(nd::array(std::make_tuple(s, i)), "(3 * int16, int32)", Val::L({vs, vi}));
  ck(nd::array(std::make_tuple(i8, s, ss, d)), "(int8, 3 * int16, 2 * 3 * int16, float64)", Val::L({vi8, vs, vss, vd}));
  ck(nd::array(std::make_tuple(ss, i8, s, z)), "(2 * 3 * int16, int8, 3 * int16, complex[float64])", Val::L({vss, vi8, vs, vz}));
  ck(nd::array(std::make_tuple(std::make_tuple(i8, d), i)), "((int8, float64), int32)", Val::L({Val::L({vi8, vd}), vi}));
  ck(nd::array(std::make_tuple(std::make_tuple(i8, d), s, i)), "((int8, float64), 3 * int16, int32)",
     Val::L({Val::L({vi8, vd}), vs, vi}));
  ck(nd::array(std::make_tuple(s, std::make_tuple(ss, std::make_tuple(f, i8, s)), ss)),
     "(3 * int16, (2 * 3 * int16, (float32, int8, 3 * int16)), 2 * 3 * int16)",
     Val::L({vs, Val::L({vss, Val::L({vf_, vi8, vs})}), vss}));
}

// ---- made with a type -------------------------------------------------------------------------------------------------
static std::string dims(const ivec &sh, const std::vector<bool> &var) {
  std::string s;
  for (size_t i = 0; i < sh.size(); ++i)
    s += var[i] ? "var * " : vf::cat(sh[i], " * ");
  return s;
}
static void with_type(Ctx &c) {
  ivec shape = ag::gen_shape(c, 3, 4, true);
  static const char *const from[] = {"int8", "int16", "uint8", "bool"};
  static const char *const to[] = {"int16", "int32", "int64", "float32", "float64", "complex[float64]", "int128", "string"};
  std::string ft = from[c.rng.below(4)], tt = to[c.rng.below(8)];
  ag::View v = ag::make_view(c, ndt::type(ft), shape, ag::gen_layout(c, true));
  nd::array a = v.a;
  intptr_t nd = shape.size();
  // the last `k` dimensions are spelled out, sometimes as var
  intptr_t k = c.rng.below(nd + 1);
  ivec tail(shape.end() - k, shape.end());
  std::vector<bool> var(k);
  for (intptr_t i = 0; i < k; ++i)
    var[i] = c.rng.chance(1, 3);
  std::string tp = dims(tail, var) + tt;
  ivec head(shape.begin(), shape.end() - k);
  std::string want = dims(head, std::vector<bool>(head.size())) + tp;
  c.describe(vf::cat("array(", v.str(), ", ", tp, ")"));
  Val before = dv::read(a);
  nd::array r, y;
  auto o = dv::attempt([&] { r = nd::array(a, ndt::type(tp)); });
  auto o2 = dv::attempt([&] {
    y = nd::empty(ndt::type(want));
    y.assign(a);
  });
  c.check(o.ok == o2.ok, "with-type", [&] { return vf::cat("array(", a.get_type(), ", ", tp, "): ", o.msg, "; assigning: ", o2.msg); });
  c.check(dv::read(a) == before, "with-type-source", [&] { return std::string("the source changed"); });
  if (!o.ok || !o2.ok)
    return;
  c.check(r.get_type().str() == want, "with-type-type", [&] { return vf::cat(r.get_type(), " for ", want); });
  c.check(dv::read(r) == dv::read(y), "with-type-value", [&] { return vf::cat(dv::show(dv::read(r)), " vs ", dv::show(dv::read(y))); });
  if (tt != "string" && tt[0] != 'c') {
    // numbers that fit are the same numbers
    std::vector<Val> l1, l2;
    ag::each(shape, [&](const ivec &ix) {
      nd::array e = a, g = r;
      for (intptr_t i : ix) {
        e = e(i);
        g = g(i);
      }
      double x = e.as<double>(), z = g.as<double>();
      c.check(x == z, "with-type-number", [&] { return vf::cat(x, " became ", z); });
    });
  }
  // a copy: writing to the source does not show
  Val got = dv::read(r);
  if (v.size() && (v.a.get_flags() & nd::write_access_flag)) {
    nd::array one(c.rng.coin() ? 1 : 0);
    dv::attempt([&] { a.assign(one); });
    c.check(dv::read(r) == got, "with-type-copy", [&] { return std::string("writing to the source shows in the result"); });
  }
  c.saw("with", vf::mix(vf::hash_str(want), dv::hash(got)));
}

// ---- empty, zeros, ones -----------------------------------------------------------------------------------------------
static void allocs(Ctx &c) {
  static const char *const elems[] = {"int8", "int32", "float64", "bool", "complex[float32]", "int128", "float32", "uint64"};
  std::string e = elems[c.rng.below(8)];
  ndt::type et(e);
  size_t nd = c.rng.below(4);
  ivec sh(nd);
  std::vector<bool> var(nd), none(nd);
  for (size_t i = 0; i < nd; ++i) {
    sh[i] = c.rng.chance(1, 4) ? -1 - (intptr_t)c.rng.below(2) : (intptr_t)c.rng.below(5);
    var[i] = sh[i] < 0;
  }
  std::string want = dims(sh, var) + e;
  c.describe(want);
  auto fresh = [&](const nd::array &a, const char *what) {
    c.check(a.get_type().str() == want, vf::cat("empty-type:", what), [&] { return vf::cat(a.get_type(), " for ", want); });
    c.check(a.get_flags() == (uint64_t)nd::readwrite_access_flags, vf::cat("empty-flags:", what), [&] { return vf::cat(a.get_flags()); });
    c.check((uintptr_t)a.cdata() % a.get_type().get_data_alignment() == 0, "empty-aligned", [&] { return vf::cat((void *)a.cdata()); });
  };
  fresh(nd::dtyped_empty(nd, sh.data(), et), "dtyped");
  fresh(nd::dtyped_empty(sh, et), "dtyped-vector");
  fresh(nd::empty(ndt::type(want)), "type");
  c.check(ndt::make_type(nd, sh.data(), et).str() == want, "make_type-shape", [&] { return vf::cat(ndt::make_type(nd, sh.data(), et), " for ", want); });
  bool any = false, has_var = false;
  for (bool b : var)
    has_var |= b;
  ndt::type t2 = ndt::make_type(nd, sh.data(), et, any);
  c.check(t2.str() == want && any == has_var, "make_type-anyvar", [&] { return vf::cat(t2, " any ", any); });
  if (nd == 0)
    fresh(nd::empty(et), "0");
  if (nd == 1)
    fresh(nd::empty(sh[0], et), "1");
  if (nd == 2)
    fresh(nd::empty(sh[0], sh[1], et), "2");
  if (nd == 3)
    fresh(nd::empty(sh[0], sh[1], sh[2], et), "3");
  if (!has_var) {
    auto filled = [&](const nd::array &a, double x, const char *what) {
      fresh(a, what);
      size_t n = 0;
      
      std::function<void(const Val &)> walk = [&](const Val &v) {
        if (v.k == Val::Seq) {
          for (const Val &k : v.kids)
            walk(k);
          return;
        }
        ++n;
        Val w = v.k == Val::Int ? Val::I((long)x) : v.k == Val::Flt ? Val::F(x) : Val::C(x, 0);
        c.check(v == w, vf::cat("fill:", what), [&] { return vf::cat(dv::show(v), " in ", want, " filled with ", x); });
      };
      walk(dv::read(a));
      size_t m = 1;
      for (intptr_t s : sh)
        m *= s;
      c.check(n == m, vf::cat("fill-count:", what), [&] { return vf::cat(n, " elements in ", want); });
    };
    filled(nd::dtyped_zeros(nd, sh.data(), et), 0, "dtyped_zeros");
    filled(nd::dtyped_ones(nd, sh.data(), et), 1, "dtyped_ones");
    if (nd == 1) {
      filled(nd::zeros(sh[0], et), 0, "zeros1");
      filled(nd::ones(sh[0], et), 1, "ones1");
    }
    if (nd == 2) {
      filled(nd::zeros(sh[0], sh[1], et), 0, "zeros2");
      filled(nd::ones(sh[0], sh[1], et), 1, "ones2");
    }
  }
  static const char *const sym[] = {"Fixed * int32", "M", "3 * T", "Dims... * int32", "Scalar", "{x: T}", "var * Any"};
  std::string s = sym[c.rng.below(7)];
  c.check(!dv::attempt([&] { nd::empty(ndt::type(s)); }).ok, "empty-symbolic", [&] { return vf::cat("an array of type ", s); });
  c.saw("alloc", vf::hash_str(want));
}

// ---- shape and strides of arrays --------------------------------------------------------------------------------------
static void shapes(Ctx &c) {
  if (c.rng.coin()) {
    ivec shape = ag::gen_shape(c, 4, 4, true);
    static const char *const elems[] = {"int8", "int32", "float64", "string", "(int8, int64)", "{a: int16, b: 3 * int8}"};
    ag::View v = ag::make_view(c, ndt::type(elems[c.rng.below(6)]), shape, ag::gen_layout(c, true));
    const nd::array &a = v.a;
    c.describe(v.str());
    intptr_t n = shape.size(), es = v.elem.get_default_data_size();
    c.check(a.get_ndim() == n && (n == 0) == a.is_scalar(), "ndim", [&] { return vf::cat(a.get_ndim()); });
    c.check(a.get_shape() == shape, "get_shape", [&] { return v.str(); });
    ivec st = a.get_strides();
    for (intptr_t i = 0; i < n; ++i) {
      c.check(shape[i] <= 1 || st[i] == v.stride[i] * es, "get_strides", [&] { return vf::cat("axis ", i, ": ", st[i], " in ", v.str()); });
      c.check(a.get_dim_size(i) == shape[i], "get_dim_size", [&] { return vf::cat("axis ", i, ": ", a.get_dim_size(i)); });
    }
    if (n)
      c.check(a.get_dim_size() == shape[0], "get_dim_size", [&] { return vf::cat(a.get_dim_size()); });
    c.check(a.get_dtype() == v.elem, "get_dtype", [&] { return vf::cat(a.get_dtype()); });
    intptr_t bad = c.rng.coin() ? n + c.rng.below(3) : -1 - (intptr_t)c.rng.below(3);
    c.check(!dv::attempt([&] { a.get_dim_size(bad); }).ok, "get_dim_size-range", [&] { return vf::cat("axis ", bad, " of ", v.str()); });
    c.check(!dv::attempt([&] { a.get_dtype(n + 1 + c.rng.below(2)); }).ok, "get_dtype-range", [&] { return v.str(); });
    for (intptr_t k = 0; k <= n; ++k) {
      std::string w;
      for (intptr_t i = n - k; i < n; ++i)
        w += vf::cat(shape[i], " * ");
      w += v.elem.str();
      c.check(a.get_dtype(k).str() == w, "get_dtype-ndim", [&] { return vf::cat(a.get_dtype(k), " for ", w); });
    }
    if (n == 1 && v.elem.str() == "int32")
      for (intptr_t i = 0; i < shape[0]; ++i)
        c.check(Val::I(ndt::unchecked_fixed_dim_get<int>(a, i)) == v.val({i}), "unchecked_get", [&] { return vf::cat(i); });
    c.saw("shape", vf::hash_str(v.str()));
    return;
  }
  // var dimensions: a size is known only if there is one
  ag::FillOpts fo;
  fo.small = true;
  ivec sh(1 + c.rng.below(3));
  std::vector<bool> var(sh.size());
  for (size_t i = 0; i < sh.size(); ++i) {
    sh[i] = c.rng.below(4);
    var[i] = c.rng.coin();
  }
  std::string ts = dims(sh, var) + "int32";
  nd::array a = ag::filled(c, ndt::type(ts), fo);
  Val t = dv::read(a);
  c.describe(vf::cat(ts, " ", dv::show(t)));
  std::vector<std::vector<intptr_t>> sizes(sh.size());
  std::function<void(const Val &, size_t)> walk = [&](const Val &v, size_t d) {
    if (d == sh.size())
      return;
    sizes[d].push_back(v.kids.size());
    for (const Val &k : v.kids)
      walk(k, d + 1);
  };
  walk(t, 0);
  ivec got = a.get_shape();
  for (size_t d = 0; d < sh.size(); ++d) {
    bool one = sizes[d].size() == 1;
    if (!var[d])
      c.check(got[d] == sh[d], "var-shape", [&] { return vf::cat("axis ", d, ": ", got[d], " of ", ts); });
    else {
      bool ok = got[d] == -1;
      if (!ok && !sizes[d].empty()) {
        ok = true;
        for (intptr_t s : sizes[d])
          ok &= s == got[d];
      }
      ok |= sizes[d].empty(); // no rows to have a size
      if (d == 0)
        ok = one && got[d] == sizes[d][0];
      c.check(ok, "var-shape", [&] { return vf::cat("axis ", d, ": ", got[d], " of ", ts, " ", dv::show(t)); });
    }
    intptr_t g = a.get_dim_size(d);
    c.check(g == got[d], "var-dim-size", [&] { return vf::cat("axis ", d, ": ", g, " and ", got[d]); });
  }
  c.saw("shape", vf::mix(vf::hash_str(ts), dv::hash(t)));
}

// ---- vals, vals_at ----------------------------------------------------------------------------------------------------
static void vals(Ctx &c) {
  ivec shape = ag::gen_shape(c, 3, 5, false);
  if (shape.empty())
    shape.push_back(3);
  ag::View v = ag::make_view(c, ndt::type("int32"), shape, ag::gen_layout(c, false));
  const nd::array &a = v.a;
  // model: every element by index
  std::map<ivec, int> m;
  ag::each(shape, [&](const ivec &ix) { m[ix] = (int)(long)v.val(ix).i; });
  auto same = [&](const char *what) {
    ag::each(shape, [&](const ivec &ix) {
      c.check(v.val(ix) == Val::I(m[ix]), vf::cat("vals:", what), [&] { return vf::cat("element of ", v.str(), ": ", dv::show(v.val(ix)), " for ", m[ix]); });
    });
  };
  int nstep = 1 + c.rng.below(4);
  for (int s = 0; s < nstep; ++s) {
    int x = Cpp<int>::make(c);
    if (c.rng.chance(1, 5)) {
      if (c.rng.coin())
        a.vals() = x;
      else
        a.vals() = nd::array(x);
      for (auto &kv : m)
        kv.second = x;
      same("all");
      continue;
    }
    size_t k = 1 + c.rng.below(shape.size());
    std::vector<irange> ir;
    std::vector<std::vector<intptr_t>> picks;
    for (size_t d = 0; d < k; ++d) {
      intptr_t n = shape[d];
      std::vector<intptr_t> p;
      switch (c.rng.below(3)) {
      case 0: {
        intptr_t i = c.rng.below(n);
        p.push_back(i);
        ir.push_back(irange(c.rng.coin() ? i : i - n));
        break;
      }
      case 1: {
        intptr_t lo = c.rng.below(n), hi = lo + 1 + c.rng.below(n - lo);
        for (intptr_t i = lo; i < hi; ++i)
          p.push_back(i);
        ir.push_back(irange(lo, hi));
        break;
      }
      default:
        for (intptr_t i = 0; i < n; i += 2)
          p.push_back(i);
        ir.push_back(irange().by(2));
      }
      picks.push_back(p);
    }
    auto set = [&](const nd::array &w) {
      if (k == 1)
        a.vals_at(ir[0]) = w;
      else if (k == 2)
        a.vals_at(ir[0], ir[1]) = w;
      else
        a.vals_at(ir[0], ir[1], ir[2]) = w;
    };
    if (c.rng.coin() && k == 1)
      a.vals_at(ir[0]) = x;
    else
      set(nd::array(x));
    for (auto &kv : m) {
      bool in = true;
      for (size_t d = 0; d < k; ++d)
        in &= std::find(picks[d].begin(), picks[d].end(), kv.first[d]) != picks[d].end();
      if (in)
        kv.second = x;
    }
    same("at");
  }
  c.saw("vals", vf::hash_str(v.str()));
}

// ---- concatenate, reshape ---------------------------------------------------------------------------------------------
static void joins(Ctx &c) {
  static const char *const elems[] = {"int8", "int32", "float64", "string", "(int8, int64)", "complex[float32]", "bytes"};
  std::string e = elems[c.rng.below(7)];
  ndt::type et(e);
  if (c.rng.coin()) {
    auto one = [&]() {
      if (c.rng.chance(1, 4)) {
        ag::FillOpts fo;
        return ag::filled(c, ndt::type("var * " + e), fo);
      }
      return ag::make_view(c, et, {(intptr_t)c.rng.below(5)}, ag::gen_layout(c, true)).a;
    };
    nd::array x = one(), y = one();
    Val vx = dv::read(x), vy = dv::read(y);
    std::vector<Val> w = vx.kids;
    w.insert(w.end(), vy.kids.begin(), vy.kids.end());
    c.describe(vf::cat(dv::show(vx), " + ", dv::show(vy)));
    nd::array r = nd::concatenate(x, y);
    c.check(dv::read(r) == Val::L(w), "concatenate", [&] { return vf::cat(dv::show(dv::read(r)), " from ", dv::show(vx), " and ", dv::show(vy)); });
    c.check(r.get_type().str() == vf::cat(w.size(), " * ", e), "concatenate-type", [&] { return vf::cat(r.get_type()); });
    c.check(dv::read(x) == vx && dv::read(y) == vy, "concatenate-source", [&] { return std::string(); });
    c.check(!dv::attempt([&] { nd::concatenate(x, nd::array(1)); }).ok, "concatenate-scalar", [&] { return std::string(); });
    c.check(!dv::attempt([&] { nd::concatenate(x, nd::empty(2, ndt::type("uint16"))); }).ok, "concatenate-types", [&] { return std::string(); });
    c.saw("join", vf::mix(dv::hash(vx), dv::hash(vy)));
    return;
  }
  if (e != "int8" && e != "int32" && e != "float64" && e != "complex[float32]")
    e = "int16", et = ndt::type(e);
  ivec shape = ag::gen_shape(c, 3, 4, true);
  ag::View v = ag::make_view(c, et, shape, ag::Contiguous);
  // the same elements as other dimensions
  intptr_t n = v.size(), rest = n;
  ivec to;
  while (to.size() < 4 && (rest != 1 || c.rng.chance(1, 3))) {
    std::vector<intptr_t> f;
    for (intptr_t k = 1; k <= rest; ++k)
      if (rest % k == 0)
        f.push_back(k);
    if (rest == 0) {
      to.push_back(0);
      break;
    }
    intptr_t k = to.size() == 3 ? rest : f[c.rng.below(f.size())];
    to.push_back(k);
    rest /= k;
  }
  if (to.empty())
    to.push_back(1);
  c.describe(vf::cat(v.str(), " to ", to.size(), " dimensions"));
  std::vector<Val> flat;
  ag::each(shape, [&](const ivec &ix) { flat.push_back(v.val(ix)); });
  nd::array r = nd::reshape(v.a, to.size(), to.data());
  c.check(r.get_shape() == to && r.get_dtype() == et, "reshape-type", [&] { return vf::cat(r.get_type()); });
  std::vector<Val> got;
  std::function<void(const Val &)> walk = [&](const Val &x) {
    if (x.k == Val::Seq)
      for (const Val &k : x.kids)
        walk(k);
    else
      got.push_back(x);
  };
  walk(dv::read(r));
  c.check(got == flat, "reshape", [&] { return vf::cat(dv::show(dv::read(r)), " from ", v.str()); });
  c.check(r.cdata() == v.a.cdata() && (r.get_flags() & 2) == (v.a.get_flags() & 2), "reshape-view", [&] { return std::string("not a view"); });
  ivec bad = to;
  bad[c.rng.below(bad.size())] += 1;
  intptr_t bn = 1;
  for (intptr_t x : bad)
    bn *= x;
  if (bn != n)
    c.check(!dv::attempt([&] { nd::reshape(v.a, bad.size(), bad.data()); }).ok, "reshape-size", [&] { return std::string("another number of elements"); });
  if (n) {
    ivec neg = to;
    neg.push_back(-1);
    neg[0] = -neg[0];
    c.check(!dv::attempt([&] { nd::reshape(v.a, neg.size(), neg.data()); }).ok, "reshape-negative", [&] { return std::string("negative sizes"); });
  }
  c.saw("join", vf::mix(vf::hash_str(v.str()), vf::hash_bytes(to.data(), to.size() * 8)));
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "A09",
                 "an array made from C++ values has the type and the shape of those values and holds them unchanged, apart from their "
                 "source; as<T> gives back the value; empty/zeros/ones, concatenate and reshape give what was asked for",
                 {{"scalars", 9000, 200000, scalars, false},
                  {"as", 8000, 200000, as_scalars, false},
                  {"containers", 14000, 300000, containers, false},
                  {"plain", 2000, 40000, plain, false},
                  {"tuples", 1500, 30000, tuples, false},
                  {"with_type", 6000, 150000, with_type, false},
                  {"allocs", 5000, 100000, allocs, false},
                  {"shapes", 8000, 200000, shapes, false},
                  {"vals", 4000, 100000, vals, false},
                  {"joins", 6000, 150000, joins, false}});
}
