// N04: sum, max, min, all, all_equal and user-made reductions, over any axes and layout, against a fold over the elements
// read from memory; the functions made here also count how often they are given each element.
#include "arrgen.hpp"
#include <dynd/arithmetic.hpp>
#include <dynd/callable.hpp>
#include <dynd/comparison.hpp>
#include <dynd/functional.hpp>
#include <dynd/io.hpp>
#include <dynd/logic.hpp>
#include <dynd/statistics.hpp>
#include <set>
#include <unordered_map>
using namespace dynd;
using dv::Val;
using vf::Ctx;
typedef std::vector<intptr_t> ivec;

static const char *k_value = "a reduced element is not the fold of the elements there";
static const char *k_shape = "a reduction's result has the wrong type or shape";
static const char *k_throw = "a valid reduction throws";
static const char *k_once = "an element was not folded exactly once";
static const char *k_input = "a reduction changed its input";
static const char *k_dst = "a reduction into a given array wrote elsewhere, or not everything";
static const char *k_refuse = "a reduction whose axes or arrays do not fit is not refused";

static std::string list(const ivec &v) {
  std::string s = "(";
  for (intptr_t x : v)
    s += vf::cat(x, ",");
  return s + ")";
}

// ---------------------------------------------------------------- the axes and keywords of one call
struct Call {
  bool all = false, keep = false, has_keep = false;
  std::vector<char> red; // per axis
  std::vector<std::pair<const char *, nd::array>> kwds;
  std::string str;
  ivec shape(const ivec &s) const {
    ivec r;
    for (size_t i = 0; i < s.size(); ++i)
      if (!red[i])
        r.push_back(s[i]);
      else if (keep)
        r.push_back(1);
    return r;
  }
  ivec drop(const ivec &ix) const { // index of the result for an index of the source
    ivec r;
    for (size_t i = 0; i < ix.size(); ++i)
      if (!red[i])
        r.push_back(ix[i]);
      else if (keep)
        r.push_back(0);
    return r;
  }
};
static nd::array int_axes(Ctx &c, const std::vector<int> &ax) {
  ag::View v = ag::make_view(c, ndt::make_type<int>(), ivec{(intptr_t)ax.size()}, c.rng.chance(1, 4) ? ag::Strided : ag::Contiguous);
  for (size_t i = 0; i < ax.size(); ++i)
    *reinterpret_cast<int *>(v.at(ivec{(intptr_t)i})) = ax[i];
  return v.a;
}
static Call gen_call(Ctx &c, size_t nd) {
  Call k;
  k.red.assign(nd, 0);
  k.all = c.rng.chance(1, 4);
  if (k.all) {
    k.red.assign(nd, 1);
    k.str = "all axes";
  } else {
    std::vector<int> ax;
    for (size_t i = 0; i < nd; ++i)
      if (c.rng.coin()) {
        k.red[i] = 1;
        ax.push_back((int)i);
      }
    for (size_t i = ax.size(); i > 1; --i)
      std::swap(ax[i - 1], ax[c.rng.below(i)]);
    k.str = "axes {";
    for (int a : ax)
      k.str += vf::cat(a, ",");
    k.str += "}";
    k.kwds.push_back({"axes", int_axes(c, ax)});
  }
  if (c.rng.coin()) {
    k.keep = c.rng.coin();
    k.str += k.keep ? " keepdims" : " no keepdims";
    k.kwds.push_back({"keepdims", nd::array(k.keep)});
  }
  if (c.rng.coin())
    std::reverse(k.kwds.begin(), k.kwds.end());
  return k;
}
static nd::array run(const nd::callable &f, const std::vector<nd::array> &a, const std::vector<std::pair<const char *, nd::array>> &kw) {
  return f.call(a.size(), a.data(), kw.size(), kw.data());
}

// ---------------------------------------------------------------- element values
// small enough that any order of exact additions agrees
static void put(Ctx &c, type_id_t id, char *p, bool order) {
  static const int lim[] = {-128, 127};
  intptr_t v = c.rng.range(-60, 60);
  bool edge = order && c.rng.chance(1, 8);
  auto flt = [&]() -> double {
    if (edge)
      switch (c.rng.below(5)) {
      case 0: return std::numeric_limits<double>::infinity();
      case 1: return -std::numeric_limits<double>::infinity();
      case 2: return 3.4e38;
      case 3: return -3.4e38;
      default: return 1e-40;
      }
    return v / 4.0;
  };
  switch (id) {
  case bool_id: *reinterpret_cast<bool1 *>(p) = !c.rng.chance(1, 4); break;
  case int8_id: *reinterpret_cast<int8_t *>(p) = edge ? lim[c.rng.below(2)] : v; break;
  case int16_id: *reinterpret_cast<int16_t *>(p) = edge ? lim[c.rng.below(2)] * 258 : v * 100; break;
  case int32_id: *reinterpret_cast<int32_t *>(p) = edge ? (c.rng.coin() ? INT32_MIN : INT32_MAX) : v * 1000; break;
  case int64_id: *reinterpret_cast<int64_t *>(p) = edge ? (c.rng.coin() ? INT64_MIN : INT64_MAX) : v * 10000000000L; break;
  case uint8_id: *reinterpret_cast<uint8_t *>(p) = v; break;
  case uint16_id: *reinterpret_cast<uint16_t *>(p) = v * 100; break;
  case uint32_id: *reinterpret_cast<uint32_t *>(p) = v; break;
  case uint64_id: *reinterpret_cast<uint64_t *>(p) = v; break;
  case float32_id: *reinterpret_cast<float *>(p) = (float)flt(); break;
  case float64_id: *reinterpret_cast<double *>(p) = flt(); break;
  case complex_float32_id: reinterpret_cast<float *>(p)[0] = v / 4.0f, reinterpret_cast<float *>(p)[1] = c.rng.range(-9, 9) / 2.0f; break;
  case complex_float64_id: reinterpret_cast<double *>(p)[0] = v / 4.0, reinterpret_cast<double *>(p)[1] = c.rng.range(-9, 9) / 2.0; break;
  default: break;
  }
}
static const type_id_t ids[] = {int8_id,  int16_id,  int32_id,  int64_id,   uint8_id,           uint16_id,
                                uint32_id, uint64_id, float32_id, float64_id, complex_float32_id, complex_float64_id};
enum Op { Sum, Max, Min, All };
static const char *op_name[] = {"sum", "max", "min", "all"};
static const nd::callable &op_fn(int o) { return o == Sum ? nd::sum : o == Max ? nd::max : o == Min ? nd::min : nd::all; }

static Val identity(int o, type_id_t id) {
  if (o == All)
    return Val::I(1);
  if (id == complex_float32_id || id == complex_float64_id)
    return Val::C(0, 0);
  bool flt = id == float32_id || id == float64_id;
  if (o == Sum)
    return flt ? Val::F(0) : Val::I(0);
  if (flt)
    return Val::F(o == Max ? -INFINITY : INFINITY);
  ndt::type t = dv::builtin(id);
  int bits = (int)t.get_data_size() * 8;
  bool sg = id == int8_id || id == int16_id || id == int32_id || id == int64_id;
  dv::i128 hi = ((dv::i128)1 << (sg ? bits - 1 : bits)) - 1, lo = sg ? -hi - 1 : 0;
  return Val::I(o == Max ? lo : hi);
}
static Val fold(int o, const Val &a, const Val &b) {
  if (o == All)
    return Val::I(a.i && b.i);
  if (a.k == Val::Cplx)
    return Val::C(a.d + b.d, a.d2 + b.d2);
  if (a.k == Val::Flt)
    return Val::F(o == Sum ? a.d + b.d : o == Max ? (b.d > a.d ? b.d : a.d) : (b.d < a.d ? b.d : a.d));
  return Val::I(o == Sum ? a.i + b.i : o == Max ? (b.i > a.i ? b.i : a.i) : (b.i < a.i ? b.i : a.i));
}
static Val wrap(const Val &v, type_id_t id) {
  if (v.k != Val::Int || id == bool_id)
    return v;
  uint64_t u = (uint64_t)v.i;
  switch (id) {
  case int8_id: return Val::I((int8_t)u);
  case int16_id: return Val::I((int16_t)u);
  case int32_id: return Val::I((int32_t)u);
  case int64_id: return Val::I((int64_t)u);
  case uint8_id: return Val::I((uint8_t)u);
  case uint16_id: return Val::I((uint16_t)u);
  case uint32_id: return Val::I((uint32_t)u);
  default: return Val::I(u);
  }
}
static bool num_eq(const Val &a, const Val &b) { // zeros of either sign are one number
  if (a.k != b.k)
    return false;
  if (a.k == Val::Flt)
    return a.d == b.d;
  if (a.k == Val::Cplx)
    return a.d == b.d && a.d2 == b.d2;
  return a.i == b.i;
}

static ndt::type array_type(const ivec &s, ndt::type t) {
  for (size_t i = s.size(); i-- > 0;)
    t = ndt::make_fixed_dim(s[i], t);
  return t;
}
static std::map<ivec, Val> reference(const ag::View &v, const Call &k, int o, type_id_t id) {
  std::map<ivec, Val> r;
  ag::each(k.shape(v.shape), [&](const ivec &ix) { r[ix] = identity(o, id); });
  ag::each(v.shape, [&](const ivec &ix) {
    Val &x = r[k.drop(ix)];
    x = fold(o, x, v.val(ix));
  });
  for (auto &p : r)
    p.second = wrap(p.second, id);
  return r;
}
// every element of a (of the given shape) is the one the model has
static void compare(Ctx &c, const nd::array &a, const ivec &shape, const ndt::type &el, const std::map<ivec, Val> &want,
                    const std::string &what) {
  if (!c.check(a.get_type() == array_type(shape, el), k_shape, [&] { return what + " gives " + a.get_type().str() + " instead of shape " + list(shape); }))
    return;
  Val t = dv::read(a);
  for (auto &p : want) {
    const Val *x = &t;
    for (intptr_t i : p.first)
      x = &x->kids[i];
    c.check(num_eq(*x, p.second), k_value, [&] { return what + " at " + list(p.first) + " gives " + dv::show(*x) + " instead of " + dv::show(p.second); });
  }
}

static std::string bytes_of(const ag::View &v) { return std::string(v.owner.cdata(), v.count * v.elem.get_default_data_size()); }

// ---------------------------------------------------------------- the library's reductions
static void builtin(Ctx &c) {
  int o = (int)c.rng.below(4);
  type_id_t id = o == All ? bool_id : ids[c.rng.below(o == Sum ? 12 : 10)];
  ndt::type el = dv::builtin(id);
  ag::View v = ag::make_view(c, el, ag::gen_shape(c, 5, 4), ag::gen_layout(c, true));
  for (size_t i = 0; i < v.count; ++i)
    put(c, id, v.at((intptr_t)i), o == Max || o == Min);
  Call k = gen_call(c, v.shape.size());
  std::string before = bytes_of(v);
  std::string what = vf::cat("nd::", op_name[o], " over ", k.str, " of ", v.str(), " ", c.rng.chance(1, 1) ? dv::show(dv::read(v.a)) : "");
  c.describe(what);
  ivec rs = k.shape(v.shape);
  c.saw(op_name[o], vf::hash_str(vf::cat(v.str(), k.str, id)));
  auto want = reference(v, k, o, id);
  if (c.rng.chance(1, 3)) { // into an array of the caller's
    ag::View d;
    int wrong = c.rng.chance(1, 6) ? 1 + (int)c.rng.below(3) : 0;
    ivec ds = rs;
    ndt::type del = el;
    if (wrong == 1)
      del = dv::builtin(id == float64_id ? float32_id : float64_id);
    else if (wrong == 2)
      ds.insert(ds.begin() + c.rng.below(ds.size() + 1), c.rng.coin() ? 1 : 2);
    else if (wrong == 3) {
      if (ds.empty())
        wrong = 0;
      else
        ds[c.rng.below(ds.size())] += 1;
    }
    d = ag::make_view(c, del, ds, ag::gen_layout(c, false));
    std::string db = bytes_of(d);
    auto kw = k.kwds;
    kw.insert(kw.begin() + c.rng.below(kw.size() + 1), {"dst", d.a});
    auto oc = dv::attempt([&] { run(op_fn(o), {v.a}, kw); });
    what += vf::cat(" into ", d.str());
    c.saw(wrong ? "into an array that does not fit" : "into an array", vf::hash_str(what));
    // the declared result type shares Dims... with the source: a destination that does not broadcast with it may be refused
    bool sig = !oc.ok && oc.msg.find("does not match callable return type") != std::string::npos;
    if (sig && !wrong) {
      size_t n = std::min(rs.size(), v.shape.size());
      bool fits = rs.size() == v.shape.size() || rs.empty();
      for (size_t i = 0; i < n; ++i)
        fits &= rs[rs.size() - 1 - i] == v.shape[v.shape.size() - 1 - i];
      if (!fits)
        wrong = 1;
    }
    if (wrong) {
      c.check(!oc.ok, k_refuse, [&] { return what; });
      c.check(bytes_of(d) == db, k_dst, [&] { return what + ": refused, but written"; });
    } else if (c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; })) {
      compare(c, d.a, rs, el, want, what);
      std::set<intptr_t> used;
      ag::each(rs, [&](const ivec &ix) { used.insert(d.index(ix)); });
      size_t sz = el.get_data_size();
      std::string da = bytes_of(d);
      for (size_t i = 0; i < d.count; ++i)
        if (!used.count((intptr_t)i))
          c.check(!memcmp(&da[i * sz], &db[i * sz], sz), k_dst, [&] { return what + vf::cat(": element ", i, " of the owner changed"); });
    }
  } else {
    nd::array r;
    auto oc = dv::attempt([&] { r = run(op_fn(o), {v.a}, k.kwds); });
    if (c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
      compare(c, r, rs, el, want, what);
  }
  c.check(bytes_of(v) == before, k_input, [&] { return what; });
}

// ---------------------------------------------------------------- reductions of functions made here
static thread_local std::unordered_map<int64_t, int> seen;
static thread_local uint64_t calls;
static const nd::callable &user1() {
  static nd::callable f = nd::functional::reduction([] { return uint64_t(17); }, [](const return_wrapper<uint64_t> &r, int64_t x) {
    ++calls;
    ++seen[x];
    r += (uint64_t)x * 0x9e3779b97f4a7c15ull;
  });
  return f;
}
static const nd::callable &user2() {
  static nd::callable f =
      nd::functional::reduction([] { return uint64_t(5); }, [](const return_wrapper<uint64_t> &r, int64_t x, double y) {
        ++calls;
        ++seen[x];
        r += (uint64_t)x * 0x9e3779b97f4a7c15ull + (uint64_t)(int64_t)y * 0xc2b2ae3d27d4eb4full * (uint64_t)x;
      });
  return f;
}
static void user(Ctx &c) {
  bool two = c.rng.coin();
  ivec sh = ag::gen_shape(c, 5, 4);
  ag::View v = ag::make_view(c, ndt::type("int64"), sh, ag::gen_layout(c, false)), w;
  int64_t base = (int64_t)c.rng.next();
  for (size_t i = 0; i < v.count; ++i) // every element another
    *reinterpret_cast<int64_t *>(v.at((intptr_t)i)) = (int64_t)((uint64_t)base + i);
  Call k = gen_call(c, sh.size());
  std::string what = vf::cat("a reduction of ", two ? "two arrays" : "one array", " over ", k.str, " of ", v.str());
  std::vector<nd::array> args = {v.a};
  if (two) {
    w = ag::make_view(c, ndt::type("float64"), sh, ag::gen_layout(c, true));
    for (size_t i = 0; i < w.count; ++i)
      *reinterpret_cast<double *>(w.at((intptr_t)i)) = (double)c.rng.range(-1000, 1000);
    args.push_back(w.a);
    what += " and " + w.str();
  }
  c.describe(what);
  c.saw(two ? "user, two arrays" : "user, one array", vf::hash_str(what));
  std::string b0 = bytes_of(v), b1 = two ? bytes_of(w) : "";
  seen.clear();
  calls = 0;
  nd::array r;
  auto oc = dv::attempt([&] { r = run(two ? user2() : user1(), args, k.kwds); });
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  std::map<ivec, Val> want;
  ag::each(k.shape(sh), [&](const ivec &ix) { want[ix] = Val::I(two ? 5 : 17); });
  ag::each(sh, [&](const ivec &ix) {
    int64_t x = *reinterpret_cast<int64_t *>(v.at(ix));
    c.check(seen[x] == 1, k_once, [&] { return what + vf::cat(": the element at ", list(ix), " was folded ", seen[x], " times"); });
    uint64_t t = (uint64_t)x * 0x9e3779b97f4a7c15ull;
    if (two)
      t += (uint64_t)(int64_t) * reinterpret_cast<double *>(w.at(ix)) * 0xc2b2ae3d27d4eb4full * (uint64_t)x;
    Val &q = want[k.drop(ix)];
    q = Val::I((uint64_t)((uint64_t)q.i + t));
  });
  c.check(calls == v.size(), k_once, [&] { return what + vf::cat(": ", calls, " calls for ", v.size(), " elements"); });
  compare(c, r, k.shape(sh), ndt::type("uint64"), want, what);
  c.check(bytes_of(v) == b0 && (!two || bytes_of(w) == b1), k_input, [&] { return what; });
}

// ---------------------------------------------------------------- a variable dimension innermost
static void var_rows(Ctx &c) {
  bool field = c.rng.chance(1, 3);
  ivec sh = ag::gen_shape(c, 3, 3);
  bool usr = c.rng.coin();
  ndt::type el(usr ? "int64" : "int32"), rec = field ? ndt::type(usr ? "{a: int16, y: int64, z: string}" : "{a: int16, y: int32, z: string}") : el;
  ag::FillOpts fo;
  fo.max_var = 6;
  fo.null_var = true;
  ag::View v = ag::make_view(c, ndt::make_type<ndt::var_dim_type>(rec), sh, ag::gen_layout(c, true), fo);
  nd::array a = v.a;
  if (field)
    a = a.p("y");
  // rewrite the numbers through the raw memory
  ag::Node t = ag::tree(v.owner);
  std::vector<const ag::Node *> lv;
  ag::leaves(t, lv);
  int64_t n = 0, base = (int64_t)c.rng.next() >> 2;
  for (const ag::Node *l : lv)
    if (l->tp == el) {
      if (usr)
        *reinterpret_cast<int64_t *>(l->at) = base + n++;
      else
        *reinterpret_cast<int32_t *>(l->at) = (int32_t)c.rng.range(-1000, 1000);
    }
  Call k = gen_call(c, sh.size() + 1);
  std::string what = vf::cat(usr ? "a user reduction" : "nd::sum", " over ", k.str, " of ", a.get_type().str(), " (", v.str(), ") ", dv::show(dv::read(a)));
  c.describe(what);
  ivec full = sh;
  full.push_back(1);
  seen.clear();
  calls = 0;
  nd::array r;
  auto oc = dv::attempt([&] { r = run(usr ? user1() : nd::sum, {a}, k.kwds); });
  if (!k.red.back()) {
    c.saw("variable dimension kept", vf::hash_str(what));
    c.check(!oc.ok, k_refuse, [&] { return what; });
    return;
  }
  c.saw(field ? "field of a variable dimension" : "variable dimension", vf::hash_str(what));
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  ivec rs = k.shape(full);
  std::map<ivec, Val> want;
  ag::each(rs, [&](const ivec &ix) { want[ix] = Val::I(usr ? 17 : 0); });
  Val data = dv::read(a);
  size_t total = 0;
  ag::each(sh, [&](const ivec &ix) {
    const Val *x = &data;
    for (intptr_t i : ix)
      x = &x->kids[i];
    ivec ex = ix;
    ex.push_back(0);
    Val &q = want[k.drop(ex)];
    for (const Val &e : x->kids) {
      ++total;
      q = usr ? Val::I((uint64_t)((uint64_t)q.i + (uint64_t)e.i * 0x9e3779b97f4a7c15ull)) : Val::I((int32_t)(q.i + e.i));
    }
  });
  if (usr)
    c.check(calls == total, k_once, [&] { return what + vf::cat(": ", calls, " calls for ", total, " elements"); });
  compare(c, r, rs, usr ? ndt::type("uint64") : el, want, what);
}

// ---------------------------------------------------------------- what must be refused
static void refuse(Ctx &c) {
  ivec sh = ag::gen_shape(c, 4, 4);
  std::string what;
  dv::Outcome oc;
  switch (c.rng.below(5)) {
  case 0: { // an axis that is not there
    ag::View v = ag::make_view(c, ndt::type("int32"), sh, ag::gen_layout(c, true));
    std::vector<int> ax;
    for (size_t i = 0; i < sh.size(); ++i)
      if (c.rng.coin())
        ax.push_back((int)i);
    static const int far[] = {0, 1, 5, -1, -2, INT32_MAX, INT32_MIN};
    int b = far[c.rng.below(7)];
    if (b >= 0 && b < INT32_MAX)
      b += (int)sh.size();
    ax.insert(ax.begin() + c.rng.below(ax.size() + 1), b);
    if (sh.empty())
      return;
    what = vf::cat("nd::sum with axis ", b, " of ", v.str());
    c.describe(what);
    oc = dv::attempt([&] { nd::sum({v.a}, {{"axes", int_axes(c, ax)}}); });
    break;
  }
  case 1: { // two arrays of other shapes
    ivec s2 = sh;
    if (sh.empty())
      s2.push_back(1 + (intptr_t)c.rng.below(3));
    else if (c.rng.chance(1, 3))
      s2.erase(s2.begin() + c.rng.below(s2.size()));
    else if (c.rng.coin())
      s2.insert(s2.begin() + c.rng.below(s2.size() + 1), 1 + (intptr_t)c.rng.below(3));
    else
      s2[c.rng.below(s2.size())] += 1 + (intptr_t)c.rng.below(2);
    if (c.rng.coin())
      std::swap(sh, s2);
    ag::View v = ag::make_view(c, ndt::type("int64"), sh, ag::gen_layout(c, true));
    ag::View w = ag::make_view(c, ndt::type("float64"), s2, ag::gen_layout(c, true));
    Call k = gen_call(c, sh.size());
    what = vf::cat("a reduction of two arrays of shapes ", list(sh), " and ", list(s2), ", ", k.str);
    c.describe(what);
    for (size_t i = 0; i < w.count; ++i)
      *reinterpret_cast<double *>(w.at((intptr_t)i)) = 1;
    oc = dv::attempt([&] { run(user2(), {v.a, w.a}, k.kwds); });
    break;
  }
  case 2: { // a variable dimension that is not the innermost
    static const char *tp[] = {"var * 2 * int32", "var * var * int32", "2 * var * 3 * int32", "var * 1 * var * int32"};
    nd::array a = ag::filled(c, ndt::type(tp[c.rng.below(4)]));
    Call k = gen_call(c, a.get_ndim());
    what = vf::cat("nd::sum over ", k.str, " of ", a.get_type().str());
    c.describe(what);
    oc = dv::attempt([&] { run(nd::sum, {a}, k.kwds); });
    break;
  }
  case 3: { // an element type that does not add up
    static const char *tp[] = {"string", "bytes", "{x: int32}", "(int32, int32)", "type", "?int32", "fixed_string[4]", "int128"};
    nd::array a = ag::filled(c, array_type(sh, ndt::type(tp[c.rng.below(8)])));
    int o = (int)c.rng.below(4);
    what = vf::cat("nd::", op_name[o], " of ", a.get_type().str());
    c.describe(what);
    oc = dv::attempt([&] { run(op_fn(o), {a}, {}); });
    break;
  }
  default: {
    ag::View v = ag::make_view(c, ndt::type("int64"), sh, ag::gen_layout(c, true));
    size_t n = c.rng.coin() ? 0 : 2 + c.rng.below(3);
    std::vector<nd::array> a(n, v.a);
    what = vf::cat("nd::sum of ", n, " arrays");
    c.describe(what);
    oc = dv::attempt([&] { run(nd::sum, a, {}); });
    break;
  }
  }
  c.saw("refused", vf::hash_str(what));
  c.check(!oc.ok, k_refuse, [&] { return what; });
}

// ---------------------------------------------------------------- two arrays equal at every element
static void alleq(Ctx &c) {
  ivec sh = ag::gen_shape(c, 4, 4);
  type_id_t i0 = ids[c.rng.below(10)], i1 = c.rng.coin() ? i0 : ids[c.rng.below(10)];
  auto sgn = [](type_id_t i) { return i == int8_id || i == int16_id || i == int32_id || i == int64_id; };
  ag::View v = ag::make_view(c, dv::builtin(i0), sh, ag::gen_layout(c, false)), w = ag::make_view(c, dv::builtin(i1), sh, ag::gen_layout(c, false));
  auto set = [](type_id_t id, char *p, int x) {
    switch (id) {
    case int8_id: *reinterpret_cast<int8_t *>(p) = x; break;
    case int16_id: *reinterpret_cast<int16_t *>(p) = x; break;
    case int32_id: *reinterpret_cast<int32_t *>(p) = x; break;
    case int64_id: *reinterpret_cast<int64_t *>(p) = x; break;
    case uint8_id: *reinterpret_cast<uint8_t *>(p) = x; break;
    case uint16_id: *reinterpret_cast<uint16_t *>(p) = x; break;
    case uint32_id: *reinterpret_cast<uint32_t *>(p) = x; break;
    case uint64_id: *reinterpret_cast<uint64_t *>(p) = x; break;
    case float32_id: *reinterpret_cast<float *>(p) = x; break;
    default: *reinterpret_cast<double *>(p) = x; break;
    }
  };
  (void)sgn;
  bool eq = true;
  size_t diff = c.rng.coin() ? v.size() : c.rng.below(v.size() + 1), at = 0;
  ag::each(sh, [&](const ivec &ix) {
    int x = (int)c.rng.below(100);
    set(i0, v.at(ix), x);
    set(i1, w.at(ix), at == diff ? x + 1 : x);
    eq &= at != diff;
    ++at;
  });
  std::string what = vf::cat("nd::all_equal of ", v.str(), " and ", w.str());
  c.describe(what);
  c.saw("all_equal", vf::hash_str(what));
  nd::array r;
  auto oc = dv::attempt([&] { r = nd::all_equal(v.a, w.a); });
  if (c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    c.check(dv::show(dv::read(r)) == dv::show(Val::I(eq)), k_value, [&] { return what + " gives " + dv::show(dv::read(r)); });
}

// ---------------------------------------------------------------- the bytes of the elements, one after another
static void serialized(Ctx &c) {
  static const char *more[] = {"int128", "uint128", "float16", "complex[float32]", "complex[float64]", "bool", "fixed_bytes[5]", "fixed_bytes[6, align=2]"};
  ndt::type el = c.rng.chance(1, 3) ? ndt::type(more[c.rng.below(8)]) : dv::builtin(ids[c.rng.below(10)]);
  ag::View v = ag::make_view(c, el, ag::gen_shape(c, 4, 5), ag::gen_layout(c, true));
  Call k = gen_call(c, v.shape.size());
  std::string before = bytes_of(v), what = vf::cat("nd::serialize over ", k.str, " of ", v.str());
  c.describe(what);
  c.saw("serialize", vf::hash_str(what));
  ivec rs = k.shape(v.shape);
  std::map<ivec, std::string> want;
  ag::each(rs, [&](const ivec &ix) { want[ix]; });
  ag::each(v.shape, [&](const ivec &ix) { want[k.drop(ix)].append(v.at(ix), el.get_data_size()); });
  nd::array r;
  auto oc = dv::attempt([&] { r = run(nd::serialize, {v.a}, k.kwds); });
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  if (!c.check(r.get_type() == array_type(rs, ndt::type("bytes")), k_shape, [&] { return what + " gives " + r.get_type().str() + " instead of shape " + list(rs); }))
    return;
  Val t = dv::read(r);
  for (auto &p : want) {
    const Val *x = &t;
    for (intptr_t i : p.first)
      x = &x->kids[i];
    c.check(x->s == p.second, k_value, [&] { return vf::cat(what, " at ", list(p.first), " gives ", dv::show(*x), " instead of ", p.second.size(), " other bytes"); });
  }
  c.check(bytes_of(v) == before, k_input, [&] { return what; });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "N04",
                 "reductions over every kind of axis subset, of up to 5 dimensions in any layout and of variable rows: each result against a "
                 "fold over the elements in memory, with a count of how often each element was folded",
                 {{"builtin", 26000, 600000, builtin},
                  {"user", 20000, 400000, user},
                  {"var", 12000, 200000, var_rows},
                  {"refuse", 6000, 200000, refuse},
                  {"all_equal", 4000, 100000, alleq},
                  {"serialize", 6000, 150000, serialized}});
}
