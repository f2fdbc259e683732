// A06: assignment from, to and between optional values, testing for and assigning missing values, and operators on
// optional operands, against a model that reads presence and value from memory.
#include "arrgen.hpp"
#include <dynd/arithmetic.hpp>
#include <dynd/callable.hpp>
#include <dynd/comparison.hpp>
#include <dynd/io.hpp>
#include <dynd/json_formatter.hpp>
#include <dynd/eval/eval_context.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/math.hpp>
#include <dynd/option.hpp>
using namespace dynd;
using dv::Val;
using vf::Ctx;
typedef std::vector<intptr_t> ivec;

static const char *k_assign = "assigning between optional types changed what is present or a value";
static const char *k_throw = "a valid operation on optional values throws";
static const char *k_na_to_value = "a missing value is assigned to a type that has none";
static const char *k_value = "assigning present optional values to a plain type changed a value";
static const char *k_from = "assigning plain values to an optional type changed what is present or a value";
static const char *k_isna = "is_na does not tell exactly the missing elements";
static const char *k_assign_na = "assign_na does not make the value missing";
static const char *k_op = "an operation on optional operands is not missing exactly where an operand is, or has another value";
static const char *k_text = "missing values and text do not correspond";
static const char *k_canary = "an operation on optional values changed something else";
static const char *k_over = "a present value that the destination cannot hold is not refused";
static const char *k_string = "optional-string";

static const type_id_t ids[] = {bool_id,  int8_id,   int16_id,  int32_id,   int64_id,   int128_id,          uint8_id,          uint16_id,
                                uint32_id, uint64_id, uint128_id, float32_id, float64_id, complex_float32_id, complex_float64_id};
static const int nids = 15;
static bool is_sint(type_id_t t) { return t >= int8_id && t <= int128_id; }
static bool is_flt(type_id_t t) { return t == float32_id || t == float64_id; }
static bool is_cplx(type_id_t t) { return t == complex_float32_id || t == complex_float64_id; }

// ---------------------------------------------------------------- values
static bool missing(type_id_t id, const char *p) {
  switch (id) {
  case uint8_id: return dv::ld<uint8_t>(p) == UINT8_MAX;
  case uint16_id: return dv::ld<uint16_t>(p) == UINT16_MAX;
  case uint64_id: return dv::ld<uint64_t>(p) == UINT64_MAX;
  case uint128_id: return dv::ld<dv::u128>(p) == ~(dv::u128)0;
  case float32_id: return std::isnan(dv::ld<float>(p));
  case float64_id: return std::isnan(dv::ld<double>(p));
  default: return dv::na_bits(id, p);
  }
}
static void put_na(Ctx &c, type_id_t id, char *p) {
  size_t n = dv::builtin(id).get_data_size();
  auto st = [&](auto v) { memcpy(p, &v, sizeof v); };
  switch (id) {
  case bool_id: st((uint8_t)(c.rng.coin() ? 2 : 2 + c.rng.below(250))); break;
  case float32_id: st(c.rng.coin() ? 0x7f8007a2u : c.rng.coin() ? 0x7fc00000u : 0xffc12345u); break;
  case float64_id: st((uint64_t)(c.rng.coin() ? 0x7ff00000000007a2ull : c.rng.coin() ? 0x7ff8000000000000ull : 0xfff8000000000001ull)); break;
  case complex_float32_id: st(0x7f8007a2u), p += 4, st(0x7f8007a2u); break;
  case complex_float64_id: st((uint64_t)0x7ff00000000007a2ull), p += 8, st((uint64_t)0x7ff00000000007a2ull); break;
  default:
    if (is_sint(id)) {
      memset(p, 0, n);
      p[n - 1] = (char)0x80;
    } else
      memset(p, 0xff, n);
  }
}
// v is a multiple of a quarter
static void put(type_id_t id, char *p, double v, double im = 0) {
  auto st = [&](auto x) { memcpy(p, &x, sizeof x); };
  switch (id) {
  case bool_id: st((uint8_t)(v != 0)); break;
  case int8_id: st((int8_t)v); break;
  case int16_id: st((int16_t)v); break;
  case int32_id: st((int32_t)v); break;
  case int64_id: st((int64_t)v); break;
  case int128_id: st((dv::i128)v); break;
  case uint8_id: st((uint8_t)v); break;
  case uint16_id: st((uint16_t)v); break;
  case uint32_id: st((uint32_t)v); break;
  case uint64_id: st((uint64_t)v); break;
  case uint128_id: st((dv::u128)v); break;
  case float32_id: st((float)v); break;
  case float64_id: st(v); break;
  case complex_float32_id: st((float)v), p += 4, st((float)im); break;
  default: st(v), p += 8, st(im);
  }
}
static ndt::type opt(type_id_t id) { return ndt::make_type<ndt::option_type>(dv::builtin(id)); }
static Val rd(type_id_t id, const char *p) { return missing(id, p) ? Val::N() : dv::read(dv::builtin(id), nullptr, p); }
static Val conv(const Val &v, type_id_t to) { // of a representable value
  if (v.k == Val::NA)
    return v;
  double re = v.k == Val::Int ? (double)v.i : v.d, im = v.k == Val::Cplx ? v.d2 : 0;
  if (is_cplx(to))
    return Val::C(re, im);
  if (is_flt(to))
    return Val::F(re);
  return Val::I((dv::i128)re);
}
// A value both types can hold, and which neither takes for missing
struct Pick {
  bool b, neg, frac, im;
  Pick(type_id_t s, type_id_t d)
      : b(s == bool_id || d == bool_id), neg((is_sint(s) || is_flt(s) || is_cplx(s)) && (is_sint(d) || is_flt(d) || is_cplx(d))),
        frac((is_flt(s) || is_cplx(s)) && (is_flt(d) || is_cplx(d))), im(is_cplx(s) && is_cplx(d)) {}
  void operator()(Ctx &c, type_id_t id, char *p) const {
    double v = b ? (double)c.rng.below(2) : (double)c.rng.range(neg ? -127 : 0, 127);
    put(id, p, frac && !b ? v / 4 : v, im ? (double)c.rng.range(-9, 9) : 0);
  }
};
// runs of present and missing values
struct Runs {
  double p_na;
  int left = 0;
  bool na = false, any;
  Runs(Ctx &c) { any = !c.rng.chance(1, 8), p_na = c.rng.unit(), step = c.rng.coin() ? 1 : 1 + (int)c.rng.below(200); }
  int step;
  bool operator()(Ctx &c) {
    if (!any)
      return false;
    if (left-- <= 0) {
      na = c.rng.unit() < p_na;
      left = (int)c.rng.below(step);
    }
    return na;
  }
};
static ivec shape(Ctx &c) {
  if (c.rng.chance(1, 4))
    return ivec{(intptr_t)c.rng.below(c.rng.chance(1, 3) ? 600 : 140)};
  if (c.rng.chance(1, 10))
    return ivec{(intptr_t)(1 + c.rng.below(3)), (intptr_t)(100 + c.rng.below(200))};
  return ag::gen_shape(c, 4, 4);
}
static ivec narrow(Ctx &c, ivec s) { // an operand shape that broadcasts to s
  if (c.rng.chance(1, 4))
    s.erase(s.begin(), s.begin() + c.rng.below(s.size() + 1));
  for (intptr_t &x : s)
    if (c.rng.chance(1, 8))
      x = 1;
  return s;
}
static ivec proj(const ivec &ix, const ivec &s) {
  ivec r(ix.end() - s.size(), ix.end());
  for (size_t i = 0; i < r.size(); ++i)
    if (s[i] == 1)
      r[i] = 0;
  return r;
}
static std::vector<std::string> raw(const ag::View &v) {
  std::vector<std::string> r;
  for (size_t k = 0; k < v.count; ++k)
    r.emplace_back(v.at((intptr_t)k), v.elem.get_data_size());
  return r;
}
// every byte of an owner set, so that what is left alone is visible
static void scribble(Ctx &c, const ag::View &v) {
  for (size_t k = 0; k < v.count * v.elem.get_data_size(); ++k)
    v.at(0)[k] = (char)c.rng.next();
}
static const assign_error_mode modes[] = {assign_error_nocheck, assign_error_overflow, assign_error_fractional, assign_error_inexact, assign_error_default};

// checks the destination elements, and that all others still have their bytes
static bool match(Ctx &c, const ag::View &d, type_id_t did, const std::vector<std::string> &before, const std::map<intptr_t, Val> &want,
                  const char *key, const std::string &what) {
  for (size_t k = 0; k < d.count; ++k) {
    auto it = want.find((intptr_t)k);
    if (it == want.end()) {
      if (!c.check(before[k] == std::string(d.at((intptr_t)k), d.elem.get_data_size()), k_canary,
                   [&] { return vf::cat(what, ": element ", k, " of the owner is not part of the destination"); }))
        return false;
    } else {
      Val got = d.elem.get_id() == option_id ? rd(did, d.at((intptr_t)k)) : dv::read(d.elem, nullptr, d.at((intptr_t)k));
      if (!c.check(got == it->second, key,
                   [&] { return vf::cat(what, ": element ", k, " is ", dv::show(got), " and not ", dv::show(it->second)); }))
        return false;
    }
  }
  return true;
}

// ---------------------------------------------------------------- option, value <- option, value
static void assignment(Ctx &c) {
  type_id_t s = ids[c.rng.below(nids)], d = ids[c.rng.below(nids)];
  int kind = (int)c.rng.below(4); // 0, 1: option to option; 2: option to value; 3: value to option
  bool sopt = kind != 3, dopt = kind != 2;
  if (c.rng.chance(1, 4))
    d = s;
  ivec dsh = shape(c), ssh = narrow(c, dsh);
  ag::View dv_ = ag::make_view(c, dopt ? opt(d) : dv::builtin(d), dsh, ag::gen_layout(c, false));
  ag::View sv = ag::make_view(c, sopt ? opt(s) : dv::builtin(s), ssh, ag::gen_layout(c, true));
  Pick pick(s, d);
  Runs runs(c);
  if (kind == 2 && c.rng.coin())
    runs.any = false;
  size_t nna = 0;
  std::vector<intptr_t> present;
  ag::each(ssh, [&](const ivec &ix) { // an element reached twice by a stride of zero keeps the last value put there
    if ((sopt || is_flt(s)) && runs(c))
      put_na(c, s, sv.at(ix));
    else
      pick(c, s, sv.at(ix));
  });
  // one value that does not fit
  bool over = c.rng.chance(1, 12) && (s == int64_id || s == int32_id || s == uint32_id || s == float64_id || s == uint16_id) &&
              (d == int8_id || d == uint8_id) && !ssh.empty() && sv.size() > 0;
  if (over) {
    ivec ix;
    for (intptr_t x : ssh)
      ix.push_back((intptr_t)c.rng.below(x));
    put(s, sv.at(ix), 1000);
  }
  scribble(c, dv_);
  std::vector<std::string> sb = raw(sv), db = raw(dv_);
  std::map<intptr_t, Val> want;
  bool bad_na = false;
  uint64_t h = vf::mix(s * 32 + d, kind);
  bool nothing = true;
  ag::each(dsh, [&](const ivec &ix) {
    Val v = rd(s, sv.at(proj(ix, ssh)));
    nothing = false;
    if (v.k == Val::NA) {
      ++nna;
      if (kind == 2)
        bad_na = true;
    }
    if (!sopt && !is_flt(s)) // nothing is missing in a plain array
      v = dv::read(dv::builtin(s), nullptr, sv.at(proj(ix, ssh)));
    want[dv_.index(ix)] = conv(v, d);
    h = vf::mix(h, v.k);
  });
  bool fits = true;
  assign_error_mode m = over ? assign_error_overflow : modes[c.rng.below(5)];
  std::string what = vf::cat(dv_.str(), " = ", sv.str(), " with ", nna, " missing, mode ", (int)m);
  if (over)
    ag::each(dsh, [&](const ivec &ix) {
      Val v = rd(s, sv.at(proj(ix, ssh)));
      if ((v.k == Val::Int && v.i == 1000) || (v.k == Val::Flt && v.d == 1000))
        fits = false;
    });
  c.describe(what);
  if (kind == 3 && is_flt(s) && nna && c.rng.below(1) == 0 && d == bool_id)
    ; // NaN to ?bool: missing too
  dv::Outcome oc = dv::attempt([&] { dv_.a.assign(sv.a, m); });
  static const char *tags[] = {"option to option", "option to option", "option to value", "value to option"};
  c.saw(tags[kind], h);
  if (nna)
    c.saw("with missing values", h);
  c.check(raw(sv) == sb, k_canary, [&] { return what + ": the source changed"; });
  if (nothing) {
    c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; });
    c.check(raw(dv_) == db, k_canary, [&] { return what + " (nothing to assign)"; });
    return;
  }
  if (bad_na || !fits) {
    c.saw(bad_na ? "missing value refused" : "unfitting value refused", h);
    c.check(!oc.ok, bad_na ? k_na_to_value : k_over, [&] { return what; });
    std::map<intptr_t, Val> none;
    for (size_t k = 0; k < dv_.count; ++k)
      if (!want.count((intptr_t)k))
        c.check(db[k] == std::string(dv_.at((intptr_t)k), dv_.elem.get_data_size()), k_canary, [&] { return what; });
    return;
  }
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  match(c, dv_, d, db, want, kind == 2 ? k_value : kind == 3 ? k_from : k_assign, what);
}

// ---------------------------------------------------------------- is_na, assign_na
static void isna(Ctx &c) {
  type_id_t s = ids[c.rng.below(nids)];
  bool var = c.rng.chance(1, 4);
  std::string what;
  Runs runs(c);
  Pick pick(s, s);
  if (var) {
    ivec sh = ag::gen_shape(c, 1, 4, false);
    std::string ts = "var * ?" + dv::builtin(s).str();
    for (intptr_t x : sh)
      ts = vf::cat(x, " * ") + ts;
    ag::FillOpts fo;
    fo.max_var = c.rng.chance(1, 8) ? 300 : 6;
    nd::array a = ag::filled(c, ndt::type(ts), fo);
    ag::Node n = ag::tree(a);
    std::vector<const ag::Node *> lv;
    ag::leaves(n, lv);
    std::vector<Val> want;
    for (const ag::Node *l : lv) {
      if (runs(c))
        put_na(c, s, l->at);
      else
        pick(c, s, l->at);
      want.push_back(Val::I(missing(s, l->at)));
    }
    what = vf::cat("is_na of ", ts, " with ", lv.size(), " elements");
    c.describe(what);
    nd::array r;
    dv::Outcome oc = dv::attempt([&] { r = nd::is_na(a); });
    c.saw("is_na var", vf::mix(vf::hash_str(ts), lv.size()));
    if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
      return;
    ag::Node rn = ag::tree(r);
    std::vector<const ag::Node *> rl;
    ag::leaves(rn, rl);
    std::vector<Val> got;
    for (const ag::Node *l : rl)
      got.push_back(l->tp.get_id() == bool_id ? Val::I(dv::ld<uint8_t>(l->at)) : Val::S(l->tp.str()));
    c.check(got == want, k_isna, [&] { return vf::cat(what, ": ", dv::show(Val::L(got)), " and not ", dv::show(Val::L(want))); });
    return;
  }
  ivec sh = shape(c);
  ag::View v = ag::make_view(c, opt(s), sh, ag::gen_layout(c, true));
  ag::each(sh, [&](const ivec &ix) {
    if (runs(c))
      put_na(c, s, v.at(ix));
    else if (s == complex_float64_id && c.rng.chance(1, 6)) { // half of a missing complex is not missing
      put(s, v.at(ix), 1, 1);
      uint64_t na = 0x7ff00000000007a2ull;
      memcpy(v.at(ix) + (c.rng.coin() ? 8 : 0), &na, 8);
    } else
      pick(c, s, v.at(ix));
  });
  std::vector<std::string> vb = raw(v);
  bool dst = c.rng.chance(1, 3);
  what = vf::cat("is_na of ", v.str(), dst ? " into a given array" : "");
  c.describe(what);
  c.saw("is_na", vf::hash_str(what));
  if (dst) {
    ag::View d = ag::make_view(c, ndt::make_type<bool1>(), sh, ag::gen_layout(c, false));
    scribble(c, d);
    std::vector<std::string> db = raw(d);
    std::map<intptr_t, Val> want;
    ag::each(sh, [&](const ivec &ix) { want[d.index(ix)] = Val::I(missing(s, v.at(ix))); });
    dv::Outcome oc = dv::attempt([&] { nd::is_na({v.a}, {{"dst", d.a}}); });
    if (c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
      match(c, d, bool_id, db, want, k_isna, what);
  } else {
    nd::array r;
    dv::Outcome oc = dv::attempt([&] { r = nd::is_na(v.a); });
    if (c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; })) {
      std::vector<Val> want, got;
      ag::each(sh, [&](const ivec &ix) { want.push_back(Val::I(missing(s, v.at(ix)))); });
      ag::Node rn = ag::tree(r);
      std::vector<const ag::Node *> rl;
      ag::leaves(rn, rl);
      for (const ag::Node *l : rl)
        got.push_back(l->tp.get_id() == bool_id ? Val::I(dv::ld<uint8_t>(l->at)) : Val::S(l->tp.str()));
      c.check(got == want && r.get_ndim() == (intptr_t)sh.size(), k_isna,
              [&] { return vf::cat(what, ": ", r.get_type().str(), " ", dv::show(Val::L(got)), " and not ", dv::show(Val::L(want))); });
    }
  }
  c.check(raw(v) == vb, k_canary, [&] { return what + ": the operand changed"; });
  // one element made missing, through each way there is
  type_id_t t = ids[c.rng.below(nids)];
  int way = (int)c.rng.below(3);
  ag::View e = ag::make_view(c, opt(t), ivec{(intptr_t)(1 + c.rng.below(5))}, ag::Strided);
  scribble(c, e);
  ivec at{(intptr_t)c.rng.below(e.shape[0])};
  Pick(t, t)(c, t, e.at(at));
  std::vector<std::string> eb = raw(e);
  what = vf::cat("assign_na to element ", at[0], " of ", e.str(), " way ", way);
  c.describe(what);
  c.saw("assign_na", vf::hash_str(what));
  bool r_na = false;
  dv::Outcome oc = dv::attempt([&] {
    if (way == 0)
      e.a(at[0]).assign_na();
    else if (way == 1)
      e.a(at[0]).vals() = nd::assign_na({}, {{"dst_tp", opt(t)}});
    else
      nd::old_assign_na(opt(t), nullptr, e.at(at));
    r_na = nd::is_na(e.a(at[0])).as<bool>() && !nd::old_is_avail(opt(t), nullptr, e.at(at));
  });
  if (c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; })) {
    c.check(r_na, k_isna, [&] { return what; });
    match(c, e, t, eb, {{e.index(at), Val::N()}}, k_assign_na, what);
  }
}

// ---------------------------------------------------------------- operators
static nd::array apply(int op, const nd::array &a, const nd::array &b) {
  switch (op) {
  case 0: return a + b;
  case 1: return a - b;
  case 2: return a * b;
  case 3: return a / b;
  case 4: return a < b;
  case 5: return a <= b;
  case 6: return a == b;
  case 7: return a != b;
  case 8: return a >= b;
  case 9: return a > b;
  case 10: return a % b;
  case 11: return a & b;
  case 12: return a | b;
  default: return nd::pow(a, b);
  }
}
static const char *opn[] = {"+", "-", "*", "/", "<", "<=", "==", "!=", ">=", ">", "%", "&", "|", "pow"};
static void operators(Ctx &c) {
  static const type_id_t t[] = {int8_id, int16_id, int32_id, int64_id, uint32_id, uint8_id, uint16_id, uint64_id, float32_id, float64_id};
  type_id_t ta = t[c.rng.below(10)], tb = t[c.rng.below(10)];
  int op = (int)c.rng.below(14);
  if (op >= 10 && op <= 12)
    ta = t[c.rng.below(4)], tb = t[c.rng.below(4)]; // of integers
  if (op == 13)
    ta = tb = c.rng.coin() ? float32_id : float64_id;
  bool oa = c.rng.coin(), ob = oa ? c.rng.coin() : true;
  ivec sh = c.rng.chance(1, 8) ? ivec{(intptr_t)(120 + c.rng.below(200))} : ag::gen_shape(c, 3, 4, false), sa = narrow(c, sh), sb = sh;
  if (c.rng.coin())
    std::swap(sa, sb);
  ag::View a = ag::make_view(c, oa ? opt(ta) : dv::builtin(ta), sa, ag::gen_layout(c, true)),
           b = ag::make_view(c, ob ? opt(tb) : dv::builtin(tb), sb, ag::gen_layout(c, true));
  // the same without missing values
  nd::array pa = nd::empty(ndt::make_fixed_dim(a.count, dv::builtin(ta))), pb = nd::empty(ndt::make_fixed_dim(b.count, dv::builtin(tb)));
  Runs ra(c), rb(c);
  ag::each(sa, [&](const ivec &ix) {
    if (oa && ra(c))
      put_na(c, ta, a.at(ix));
    else
      put(ta, a.at(ix), (double)c.rng.range(10, 40));
  });
  ag::each(sb, [&](const ivec &ix) {
    if (ob && rb(c))
      put_na(c, tb, b.at(ix));
    else
      put(tb, b.at(ix), (double)c.rng.range(1, 9) + (op > 3 && op < 10 ? 9 : 0));
  });
  std::string what = vf::cat(a.str(), " ", opn[op], " ", b.str());
  c.describe(what);
  c.saw("operator", vf::hash_str(vf::cat(opn[op], (int)ta, " ", (int)tb, oa, ob, sa.size(), sb.size())));
  std::vector<std::string> ab = raw(a), bb = raw(b);
  nd::array r;
  dv::Outcome oc = dv::attempt([&] { r = apply(op, a.a, b.a); });
  if (!oc.ok) { // where the plain operation is not there either
    nd::array xa = nd::empty(dv::builtin(ta)), xb = nd::empty(dv::builtin(tb));
    put(ta, xa.data(), 2);
    put(tb, xb.data(), 2);
    dv::Outcome pl = dv::attempt([&] { apply(op, xa, xb); });
    c.check(!pl.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; });
    return;
  }
  c.check(raw(a) == ab && raw(b) == bb, k_canary, [&] { return what + ": an operand changed"; });
  ag::Node rn = ag::tree(r);
  std::vector<const ag::Node *> rl;
  ag::leaves(rn, rl);
  size_t i = 0, n = 0;
  ag::each(sh, [&](const ivec &) { ++n; });
  if (!c.check(rl.size() == n, k_op, [&] { return vf::cat(what, ": the result is ", r.get_type().str()); }))
    return;
  std::map<std::string, Val> memo; // of scalar results
  ag::each(sh, [&](const ivec &ix) {
    char *x = a.at(proj(ix, sa)), *y = b.at(proj(ix, sb));
    const ag::Node *l = rl[i++];
    bool na = (oa && missing(ta, x)) || (ob && missing(tb, y));
    if (!c.check(l->tp.get_id() == option_id, k_op, [&] { return vf::cat(what, ": the result is ", r.get_type().str()); }))
      return;
    const ndt::type vt = l->tp.extended<ndt::option_type>()->get_value_type();
    Val got = missing(vt.get_id(), l->at) ? Val::N() : dv::read(vt, nullptr, l->at), want = Val::N();
    if (!na) {
      std::string k(x, dv::builtin(ta).get_data_size());
      k.append(y, dv::builtin(tb).get_data_size());
      auto it = memo.find(k);
      if (it == memo.end()) {
        nd::array xa = nd::empty(dv::builtin(ta)), xb = nd::empty(dv::builtin(tb));
        memcpy(xa.data(), x, dv::builtin(ta).get_data_size());
        memcpy(xb.data(), y, dv::builtin(tb).get_data_size());
        nd::array pr = apply(op, xa, xb);
        Val w = pr.get_type() == vt ? dv::read(vt, nullptr, pr.cdata()) : Val::S("of type " + pr.get_type().str());
        it = memo.emplace(k, w).first;
      }
      want = it->second;
    }
    c.check(got == want, k_op, [&] { return vf::cat(what, ": element ", i - 1, " is ", dv::show(got), " and not ", dv::show(want)); });
  });
}

// ---------------------------------------------------------------- records with optional fields, text
static void records(Ctx &c) {
  int n = 1 + (int)c.rng.below(5);
  bool st = c.rng.chance(2, 3);
  std::vector<int> perm(n);
  struct Fd {
    type_id_t s, d;
    int kind; // 0 option to option, 1 value to option, 2 option to value, 3 string to option, 4 string to string option
  };
  std::vector<Fd> f(n);
  for (int i = 0; i < n; ++i) {
    perm[i] = i;
    static const type_id_t strd[] = {bool_id, int8_id, int16_id, int32_id, int64_id, float32_id, float64_id};
    f[i].s = ids[c.rng.below(nids)];
    f[i].d = ids[c.rng.below(nids)];
    f[i].kind = (int)c.rng.below(5);
    if (f[i].kind == 3)
      f[i].d = strd[c.rng.below(7)];
  }
  if (st)
    for (int i = n; i > 1; --i)
      std::swap(perm[i - 1], perm[c.rng.below(i)]);
  auto sname = [&](const Fd &x) { return x.kind >= 3 ? std::string("string") : (x.kind == 1 ? "" : "?") + dv::builtin(x.s).str(); };
  auto dname = [&](const Fd &x) { return x.kind == 4 ? std::string("?string") : (x.kind == 2 ? "" : "?") + dv::builtin(x.d).str(); };
  std::string ss, ds;
  for (int i = 0; i < n; ++i) {
    ss += (i ? ", " : "") + (st ? vf::cat("f", i, ": ") : std::string()) + sname(f[i]);
    ds += (i ? ", " : "") + (st ? vf::cat("f", perm[i], ": ") : std::string()) + dname(f[perm[i]]);
  }
  ndt::type stp(st ? "{" + ss + "}" : "(" + ss + ")"), dtp(st ? "{" + ds + "}" : "(" + ds + ")");
  ivec sh = c.rng.chance(1, 10) ? ivec{150} : ag::gen_shape(c, 2, 5);
  ag::View s = ag::make_view(c, stp, sh, ag::gen_layout(c, false)), d = ag::make_view(c, dtp, sh, ag::gen_layout(c, false));
  auto off = [](const ag::View &v, int i) { // of a field
    auto o = reinterpret_cast<const uintptr_t *>(v.owner.get()->metadata() + sizeof(fixed_dim_type_arrmeta));
    return (intptr_t)o[i];
  };
  std::vector<std::vector<Val>> want;
  ag::each(sh, [&](const ivec &ix) {
    std::vector<Val> row;
    for (int i = 0; i < n; ++i) {
      char *p = s.at(ix) + off(s, i);
      bool na = f[i].kind != 2 && c.rng.chance(1, 3) && (f[i].kind != 1 || is_flt(f[i].s));
      if (f[i].kind >= 3) {
        static const char *nas[] = {"NA", "null", "", "None", "NULL"};
        std::string t = f[i].kind == 4 ? vf::cat("s", c.rng.below(1000000000) * 12345) : vf::cat(f[i].d == bool_id ? c.rng.below(2) : c.rng.below(120));
        if (f[i].kind == 3 && na)
          t = nas[c.rng.below(5)];
        reinterpret_cast<dynd::string *>(p)->assign(t.data(), t.size());
        row.push_back(f[i].kind == 4 ? Val::S(t) : na ? Val::N() : conv(Val::I(atoi(t.c_str())), f[i].d));
      } else {
        if (na)
          put_na(c, f[i].s, p);
        else
          Pick(f[i].s, f[i].d)(c, f[i].s, p);
        row.push_back(na ? Val::N() : conv(dv::read(dv::builtin(f[i].s), nullptr, p), f[i].d));
      }
    }
    want.push_back(row);
  });
  std::string what = vf::cat(d.str(), " = ", s.str());
  c.describe(what);
  c.saw("record", vf::hash_str(ds + ss));
  dv::Outcome oc = dv::attempt([&] { d.a.assign(s.a); });
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  size_t r = 0;
  ag::each(sh, [&](const ivec &ix) {
    const std::vector<Val> &row = want[r++];
    for (int i = 0; i < n; ++i) {
      const Fd &x = f[perm[i]];
      const char *p = d.at(ix) + off(d, i);
      Val got;
      if (x.kind == 4) {
        auto q = reinterpret_cast<const dynd::string *>(p);
        got = Val::S(std::string(q->begin(), q->end()));
      } else
        got = x.kind == 2 ? dv::read(dv::builtin(x.d), nullptr, p) : rd(x.d, p);
      c.check(got == row[perm[i]], k_assign,
              [&] { return vf::cat(what, ": field ", i, " is ", dv::show(got), " and not ", dv::show(row[perm[i]])); });
    }
  });
}

static size_t count(const std::string &s, const std::string &w) {
  size_t n = 0;
  for (size_t p = s.find(w); p != std::string::npos; p = s.find(w, p + w.size()))
    ++n;
  return n;
}
static void text(Ctx &c) {
  static const type_id_t t[] = {bool_id, int8_id, int16_id, int32_id, int64_id, uint8_id, uint16_id, uint32_id, uint64_id, float32_id, float64_id};
  type_id_t id = t[c.rng.below(11)];
  size_t n = c.rng.below(c.rng.chance(1, 10) ? 60 : 9); // longer arrays are abridged when printed
  bool var = c.rng.coin();
  std::string tp = (var ? std::string("var") : vf::cat(n)) + " * ?" + dv::builtin(id).str(), js = "[";
  std::vector<Val> want;
  size_t nna = 0;
  for (size_t i = 0; i < n; ++i) {
    if (i)
      js += c.rng.coin() ? "," : ", ";
    if (c.rng.chance(1, 3)) {
      static const char *nas[] = {"null", "null", "\"NA\"", "\"\"", "\"null\"", "\"None\""};
      js += nas[c.rng.below(6)];
      want.push_back(Val::N());
      ++nna;
    } else if (id == bool_id) {
      bool b = c.rng.coin();
      js += b ? "true" : "false";
      want.push_back(Val::I(b));
    } else {
      int v = (int)c.rng.range(is_sint(id) || is_flt(id) ? -127 : 0, 127);
      js += c.rng.chance(1, 5) ? vf::cat("\"", v, "\"") : vf::cat(v);
      want.push_back(conv(Val::I(v), id));
    }
  }
  js += "]";
  std::string what = tp + " from " + js;
  c.describe(what);
  c.saw("text", vf::hash_str(what));
  nd::array a, b;
  std::string out, pr;
  dv::Outcome oc = dv::attempt([&] {
    a = parse_json(ndt::type(tp), js, &eval::default_eval_context);
    out = format_json(a).as<std::string>();
    std::stringstream ss;
    ss << a;
    pr = ss.str();
    b = parse_json(ndt::type(tp), out, &eval::default_eval_context);
  });
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  for (const nd::array *x : {&a, &b}) {
    ag::Node rn = ag::tree(*x);
    std::vector<const ag::Node *> rl;
    ag::leaves(rn, rl);
    std::vector<Val> got;
    for (const ag::Node *l : rl)
      got.push_back(rd(id, l->at));
    c.check(got == want, k_text, [&] { return vf::cat(what, x == &a ? " gives " : " and back gives ", dv::show(Val::L(got))); });
  }
  c.check(count(out, "null") == nna, k_text, [&] { return what + " formats as " + out; });
  c.check(count(pr, "NA") == nna, k_text, [&] { return what + " prints as " + pr; });
}

// optional strings: present ones keep their text
static void strings(Ctx &c) {
  ivec sh = c.rng.chance(1, 10) ? ivec{(intptr_t)c.rng.below(300)} : ag::gen_shape(c, 3, 4);
  bool so = c.rng.coin(), d_o = so ? c.rng.chance(2, 3) : true;
  ag::FillOpts fo;
  fo.na = false;
  ag::View s = ag::make_view(c, ndt::type(so ? "?string" : "string"), sh, ag::gen_layout(c, false), fo),
           d = ag::make_view(c, ndt::type(d_o ? "?string" : "string"), sh, ag::gen_layout(c, false), fo);
  std::string what = vf::cat(d.str(), " = ", s.str());
  c.describe(what);
  c.saw("optional strings", vf::hash_str(what));
  auto rs = [](const ag::View &v) {
    std::vector<std::string> r;
    for (size_t k = 0; k < v.count; ++k) {
      auto q = reinterpret_cast<const dynd::string *>(v.at((intptr_t)k));
      r.emplace_back(q->begin(), q->end());
    }
    return r;
  };
  std::vector<std::string> want = rs(d), src = rs(s);
  ag::each(sh, [&](const ivec &ix) { want[d.index(ix)] = src[s.index(ix)]; });
  dv::Outcome oc = dv::attempt([&] { d.a.assign(s.a); });
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  c.check(rs(d) == want, k_assign, [&] { return what; });
  if (so) {
    nd::array r;
    oc = dv::attempt([&] { r = nd::is_na(s.a); });
    if (c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; })) {
      ag::Node rn = ag::tree(r);
      std::vector<const ag::Node *> rl;
      ag::leaves(rn, rl);
      size_t i = 0;
      ag::each(sh, [&](const ivec &ix) {
        const ag::Node *l = rl[i++];
        if (!src[s.index(ix)].empty())
          c.check(*l->at == 0, k_isna, [&] { return "is_na of a present string in " + s.str(); });
      });
    }
  }
  if (c.idx == 0) { // a recorded finding
    nd::array a = nd::empty(ndt::type("?string"));
    std::string w = "?string made missing with assign_na";
    c.describe(w);
    bool na = false;
    dv::Outcome o2 = dv::attempt([&] {
      a.assign_na();
      na = nd::is_na(a).as<bool>();
    });
    c.check(o2.ok && na, k_string, [&] { return w + ": is_na says it is there " + o2.msg; });
  }
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "A06",
                 "presence and value of every element, read from memory, follow the missing-value rules; nothing else changes",
                 {{"assignment", 2500, 60000, assignment, false},
                  {"is_na", 1200, 30000, isna, false},
                  {"operators", 1200, 30000, operators, false},
                  {"records", 700, 20000, records, false},
                  {"text", 700, 20000, text, false},
                  {"strings", 400, 8000, strings, false}});
}
