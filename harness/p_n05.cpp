// N05: type promotion against the rules of C (computed by the compiler from decltype for the types C has), and the
// lossless relation against actual conversions of extreme and random values.
#include <cfloat>
#include "arrgen.hpp"
#include <dynd/callable.hpp>
#include <dynd/type_promotion.hpp>
using namespace dynd;
using dv::Val;
using vf::Ctx;

static const char *k_sym = "the common type depends on the order of the types";
static const char *k_c = "the common type of two numeric types is not the one C has for their arithmetic";
static const char *k_idem = "promoting a common type again with one of its sides changes it";
static const char *k_hold = "the common type cannot hold a value of one side";
static const char *k_throw = "types with a common type have none";
static const char *k_lossless = "a conversion reported lossless loses a value";
static const char *k_rel = "the lossless relation is not reflexive or not transitive";

static const char *cnames[] = {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"};
template <class A, class B>
struct Arith { typedef decltype(A() + B()) type; };
template <class A, class B>
static ndt::type ref2() {
  return ndt::make_type<typename Arith<A, B>::type>();
}
template <class A>
static ndt::type ref1(int j) {
  switch (j) {
  case 0: return ref2<A, bool>();
  case 1: return ref2<A, int8_t>();
  case 2: return ref2<A, int16_t>();
  case 3: return ref2<A, int32_t>();
  case 4: return ref2<A, int64_t>();
  case 5: return ref2<A, uint8_t>();
  case 6: return ref2<A, uint16_t>();
  case 7: return ref2<A, uint32_t>();
  case 8: return ref2<A, uint64_t>();
  case 9: return ref2<A, float>();
  default: return ref2<A, double>();
  }
}
static ndt::type ref(int i, int j) {
  switch (i) {
  case 0: return ref1<bool>(j);
  case 1: return ref1<int8_t>(j);
  case 2: return ref1<int16_t>(j);
  case 3: return ref1<int32_t>(j);
  case 4: return ref1<int64_t>(j);
  case 5: return ref1<uint8_t>(j);
  case 6: return ref1<uint16_t>(j);
  case 7: return ref1<uint32_t>(j);
  case 8: return ref1<uint64_t>(j);
  case 9: return ref1<float>(j);
  default: return ref1<double>(j);
  }
}
static const char *names[] = {"bool", "int8", "int16", "int32", "int64", "int128", "uint8", "uint16", "uint32", "uint64", "uint128", "float16", "float32", "float64", "complex[float32]", "complex[float64]"};
static const int nn = sizeof names / sizeof *names;

struct Num { int kind; int bits; bool sg; }; // kind 0 bool 1 integer 2 float 3 complex (bits of one part)
static Num num(const ndt::type &t) {
  switch (t.get_id()) {
  case bool_id: return {0, 1, false};
  case float16_id: case float32_id: case float64_id: case float128_id: return {2, (int)t.get_data_size() * 8, true};
  case complex_float32_id: return {3, 32, true};
  case complex_float64_id: return {3, 64, true};
  default: return {1, (int)t.get_data_size() * 8, t.get_base_id() == int_kind_id};
  }
}
// whether r is a sound common type of a and b by the rule stated
static bool sound(const ndt::type &a, const ndt::type &b, const ndt::type &r) {
  Num x = num(a), y = num(b), z = num(r);
  int kind = std::max(x.kind, y.kind);
  if (kind == 0)
    kind = 1;
  if (z.kind != kind)
    return false;
  for (Num w : {x, y}) {
    if (w.kind == z.kind || (w.kind >= 2 && z.kind >= 2)) {
      if (z.bits < w.bits)
        return false;
      if (w.kind == 1 && w.sg && !z.sg && !((&w, x.bits) <= 0) && z.bits < std::max(x.bits, y.bits))
        return false;
    }
  }
  if (kind == 1) { // unsigned only if an unsigned side has that width
    if (!z.sg && !((x.kind == 1 && !x.sg && x.bits == z.bits) || (y.kind == 1 && !y.sg && y.bits == z.bits)))
      return false;
    if (z.sg) // every unsigned side is narrower
      for (Num w : {x, y})
        if (w.kind == 1 && !w.sg && w.bits >= z.bits)
          return false;
    if (z.bits < 32)
      return false;
  }
  return true;
}

static bool promote(const ndt::type &a, const ndt::type &b, ndt::type &r, std::string &err) {
  dv::Outcome oc = dv::attempt([&] { r = promote_types_arithmetic(a, b); });
  err = oc.msg;
  return oc.ok;
}

static void pairs(Ctx &c) { // exhaustive over the numeric types
  int i = (int)(c.idx % nn), j = (int)(c.idx / nn % nn);
  ndt::type a(names[i]), b(names[j]), r, q;
  std::string what = vf::cat("promotion of ", a.str(), " and ", b.str()), err;
  c.describe(what);
  c.saw("numeric pair", c.idx % (nn * nn));
  bool ok = promote(a, b, r, err), ok2 = promote(b, a, q, err);
  if (!c.check(ok && ok2, k_throw, [&] { return what + ": " + err; }))
    return;
  c.check(r == q, k_sym, [&] { return vf::cat(what, " gives ", r.str(), " or ", q.str()); });
  c.check(sound(a, b, r), k_hold, [&] { return vf::cat(what, " gives ", r.str()); });
  ndt::type s;
  c.check(promote(r, a, s, err) && s == r && promote(r, b, q, err) && q == r && promote(b, r, q, err) && q == r, k_idem, [&] { return vf::cat(what, " gives ", r.str(), ", then ", s.str(), " and ", q.str()); });
  int ci = -1, cj = -1;
  for (int k = 0; k < 11; ++k) {
    if (a == ndt::type(cnames[k])) ci = k;
    if (b == ndt::type(cnames[k])) cj = k;
  }
  if (ci >= 0 && cj >= 0)
    c.check(r == ref(ci, cj), k_c, [&] { return vf::cat(what, " gives ", r.str(), " instead of ", ref(ci, cj).str()); });
  // with arrays: the type of a sum is the common type
  if (num(a).bits <= 64 && num(b).bits <= 64 && ci >= 0 && cj >= 0) {
    ag::FillOpts fo;
    fo.small = true;
    nd::array x = ag::filled(c, a, fo), y = ag::filled(c, b, fo), z;
    dv::Outcome oc = dv::attempt([&] { z = x + y; });
    if (oc.ok)
      c.check(z.get_type() == r, k_c, [&] { return vf::cat(a.str(), " + ", b.str(), " has type ", z.get_type().str(), " instead of ", r.str()); });
  }
}
static void wrapped(Ctx &c) { // option, dimension and string types
  static const char *str[] = {"string", "fixed_string[5]", "fixed_string[3, 'utf16']", "string"};
  std::string b0 = names[c.rng.below(nn)], b1 = names[c.rng.below(nn)];
  ndt::type r, q, s;
  std::string err;
  int how = (int)c.rng.below(4);
  ndt::type a, b, want;
  bool known = true;
  ndt::type base;
  promote(ndt::type(b0), ndt::type(b1), base, err);
  switch (how) {
  case 0: { // option
    bool o0 = c.rng.coin(), o1 = !o0 || c.rng.coin();
    a = o0 ? ndt::make_type<ndt::option_type>(ndt::type(b0)) : ndt::type(b0);
    b = o1 ? ndt::make_type<ndt::option_type>(ndt::type(b1)) : ndt::type(b1);
    want = ndt::make_type<ndt::option_type>(base);
    break;
  }
  case 1:
    a = ndt::type(str[c.rng.below(4)]), b = ndt::type(str[c.rng.below(4)]);
    want = ndt::type("string");
    break;
  case 2:
    a = ndt::type("void"), b = ndt::type(c.rng.coin() ? b0 : std::string(str[c.rng.below(4)]));
    want = b;
    break;
  default: {
    int d = 1 + (int)c.rng.below(2);
    std::string p0, p1, pw;
    for (int k = 0; k < d; ++k) {
      p0 += "var * ";
      p1 += c.rng.coin() ? "var * " : vf::cat(1 + c.rng.below(4), " * ");
    }
    if (d == 2 && p1.find("var") != 0 && c.rng.coin())
      p0 = "var * var * ";
    for (int k = 0; k < d; ++k)
      pw += "var * ";
    a = ndt::type(p0 + b0), b = ndt::type(p1 + b1), want = ndt::type(pw + base.str());
  }
  }
  if (c.rng.coin())
    std::swap(a, b);
  std::string what = vf::cat("promotion of ", a.str(), " and ", b.str());
  c.describe(what);
  c.saw(vf::cat("wrapped ", how).c_str(), vf::hash_str(what));
  bool ok = promote(a, b, r, err);
  if (!c.check(ok, k_throw, [&] { return what + ": " + err; }))
    return;
  c.check(promote(b, a, q, err) && q == r, k_sym, [&] { return vf::cat(what, " gives ", r.str(), " or ", q.str()); });
  c.check(!known || r == want, k_hold, [&] { return vf::cat(what, " gives ", r.str(), " instead of ", want.str()); });
  if (how == 2)
    return;
  c.check(promote(r, a, s, err) && s == r, k_idem, [&] { return vf::cat(what, " gives ", r.str(), ", then ", s.str()); });
}

// ---------------------------------------------------------------- the lossless relation
static std::string gen_any(Ctx &c) {
  static const char *other[] = {"string", "fixed_string[4]", "fixed_string[8]", "fixed_string[4, 'utf16']", "fixed_string[6, 'A']", "fixed_string[4, 'utf32']", "fixed_bytes[4]", "fixed_bytes[4, align=4]",
                                "bytes", "char", "type", "fixed_bytes[5]"};
  std::string s = c.rng.chance(2, 3) ? names[c.rng.below(nn)] : other[c.rng.below(12)];
  if (c.rng.chance(1, 6) && s != "char" && s != "float16")
    s = "?" + s;
  if (c.rng.chance(1, 6))
    s = vf::cat(c.rng.coin() ? "2 * " : c.rng.coin() ? "var * " : "3 * ", s);
  if (c.rng.chance(1, 8))
    s = c.rng.coin() ? "{a: " + s + "}" : "(" + s + ", int8)";
  return s;
}
static void extreme(Ctx &c, const ndt::type &t, char *p) {
  switch (t.get_id()) {
  case int8_id: case int16_id: case int32_id: case int64_id: case int128_id: {
    dv::i128 v = c.rng.coin() ? ((dv::i128)1 << (t.get_data_size() * 8 - 2)) - 1 + ((dv::i128)1 << (t.get_data_size() * 8 - 2)) : -((dv::i128)1 << (t.get_data_size() * 8 - 2)) * 2;
    v += c.rng.coin() ? 0 : v > 0 ? -(dv::i128)c.rng.below(100) : (dv::i128)c.rng.below(100);
    memcpy(p, &v, t.get_data_size());
    break;
  }
  case uint8_id: case uint16_id: case uint32_id: case uint64_id: case uint128_id: {
    dv::u128 v = ~(dv::u128)0;
    if (c.rng.coin())
      v -= c.rng.below(200);
    memcpy(p, &v, t.get_data_size());
    break;
  }
  case float32_id: {
    float f[] = {FLT_MAX, -FLT_MAX, FLT_MIN, 1e-45f, HUGE_VALF, 1.0f + FLT_EPSILON, -0.0f, 0.1f};
    memcpy(p, &f[c.rng.below(8)], 4);
    break;
  }
  case float64_id: {
    double f[] = {DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, HUGE_VAL, 1.0 + DBL_EPSILON, -0.0, 0.1};
    memcpy(p, &f[c.rng.below(8)], 8);
    break;
  }
  default: break;
  }
}
static Val same_num(const Val &v) { // one spelling of a number
  Val r = v;
  if (v.k == Val::Flt && v.d == std::floor(v.d) && std::fabs(v.d) < 1e30)
    r = Val::I((dv::i128)v.d);
  if (v.k == Val::Cplx && v.d2 == 0)
    return same_num(Val::F(v.d));
  for (Val &k : r.kids)
    k = same_num(k);
  return r;
}
static void lossless(Ctx &c) {
  ndt::type s(gen_any(c)), d(c.rng.chance(1, 8) ? s.str() : gen_any(c));
  std::string what = vf::cat(s.str(), " to ", d.str());
  c.describe(what);
  bool yes = false, self = false;
  dv::Outcome oc = dv::attempt([&] { yes = is_lossless_assignment(d, s); });
  dv::Outcome o2 = dv::attempt([&] { self = is_lossless_assignment(s, s); });
  c.saw(!oc.ok ? "lossless: refused" : yes ? "lossless: yes" : "lossless: no", vf::hash_str(what));
  if (o2.ok && (s.is_builtin() || (s.get_id() == option_id && s.extended<ndt::option_type>()->get_value_type().is_builtin())))
    c.check(self, k_rel, [&] { return s.str() + " to itself"; });
  if (!oc.ok || !yes)
    return;
  for (int turn = 0; turn < 6; ++turn) {
    ag::FillOpts fo;
    fo.ascii = false;
    nd::array a = ag::filled(c, s, fo);
    if (s.is_builtin() && c.rng.coin())
      extreme(c, s, a.data());
    Val v = dv::read(a), b;
    bool na = v.k == Val::NA;
    if (d.get_id() == option_id && s.get_id() != option_id) { // a value that reads as missing there
      Val m = v;
      if (m.k == Val::Int && (m.i == INT8_MIN || m.i == INT16_MIN || m.i == INT32_MIN || m.i == INT64_MIN || m.i == (dv::i128)1 << 127))
        continue;
      if (m.k == Val::Int && (m.i == UINT8_MAX || m.i == UINT16_MAX || m.i == UINT32_MAX || m.i == (dv::i128)UINT64_MAX || m.i == -1))
        continue;
      if (m.k == Val::Str && m.s.empty())
        continue;
    }
    nd::array x, y;
    dv::Outcome o = dv::attempt([&] {
      x = nd::empty(d);
      x.assign(a);
    });
    if (!o.ok && (o.cls.find("type_error") != std::string::npos || o.msg.find("signature not found") != std::string::npos))
      return; // no such assignment at all
    if (!c.check(o.ok, k_lossless, [&] { return vf::cat(what, " of ", dv::show(v), ": ", o.cls, " ", o.msg); }))
      return;
    b = dv::read(x);
    if (b.k == Val::Raw || v.k == Val::Raw || (b.k == Val::Seq && v.k == Val::Seq)) { // through the library and back
      o = dv::attempt([&] {
        y = nd::empty(s);
        y.assign(x);
      });
      if (!o.ok)
        continue;
      b = dv::read(y);
    }
    c.check(same_num(b) == same_num(v) || (na && b.k == Val::NA), k_lossless, [&] { return vf::cat(what, " of ", dv::show(v), " gives ", dv::show(b)); });
  }
}
static void chain(Ctx &c) { // numeric types: transitive, and lossless implies a wider type
  int i = (int)(c.idx % nn), j = (int)(c.idx / nn % nn), k = (int)(c.idx / nn / nn % nn);
  ndt::type a(names[i]), b(names[j]), d(names[k]);
  c.describe(vf::cat(a.str(), " to ", b.str(), " to ", d.str()));
  c.saw("chain", c.idx % (nn * nn * nn));
  bool ab, bd, ad;
  dv::Outcome oc = dv::attempt([&] { ab = is_lossless_assignment(b, a), bd = is_lossless_assignment(d, b), ad = is_lossless_assignment(d, a); });
  if (!c.check(oc.ok, k_rel, [&] { return oc.msg; }))
    return;
  c.check(!(ab && bd) || ad, k_rel, [&] { return vf::cat(a.str(), " to ", b.str(), " to ", d.str()); });
  Num x = num(a), y = num(b);
  bool can = x.kind == 0 || (x.kind == 1 && y.kind == 1 && (x.sg == y.sg ? y.bits >= x.bits : !x.sg && y.bits > x.bits)) ||
             (x.kind == 1 && y.kind >= 2 && (y.bits == 16 ? 11 : y.bits == 32 ? 24 : 53) >= x.bits - (x.sg ? 1 : 0)) || (x.kind >= 2 && y.kind >= x.kind && y.bits >= x.bits);
  c.check(!ab || can, k_lossless, [&] { return vf::cat(a.str(), " to ", b.str(), " is reported lossless"); });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "N05",
                 "all ordered pairs of the 16 numeric types, the same wrapped in options and dimensions, strings; conversions reported lossless tried with random and extreme values",
                 {{"pairs", nn * nn, nn * nn * 20, pairs}, {"wrapped", 6000, 100000, wrapped}, {"lossless", 30000, 600000, lossless}, {"chain", nn * nn * nn, nn * nn * nn, chain}});
}
