// N03: elementwise operations are the C++ scalar ones, broadcast.  The reference evaluates C++'s own operator on the two
// elements at each position, found by walking the operands' raw memory.
#include "arrgen.hpp"
#include <dynd/arithmetic.hpp>
#include <dynd/callable.hpp>
#include <dynd/comparison.hpp>
#include <dynd/math.hpp>
#include <dynd/complex.hpp>
#include <complex>
using namespace dynd;
using dv::Val;
using vf::Ctx;
typedef std::vector<intptr_t> ivec;

enum Op { Add, Sub, Mul, Div, Mod, And, Or, Xor, Shl, Shr, LAnd, LOr, LXor, Lt, Le, Eq, Ne, Ge, Gt, Pow, NOps };
static const char *opname[] = {"add", "subtract", "multiply", "divide", "mod", "bitwise_and", "bitwise_or", "bitwise_xor", "left_shift",
                               "right_shift", "logical_and", "logical_or", "logical_xor", "less", "less_equal", "equal", "not_equal",
                               "greater_equal", "greater", "pow"};
static nd::callable &fn(Op o) {
  static nd::callable *t[] = {&nd::add,        &nd::subtract,    &nd::multiply,   &nd::divide,      &nd::mod,
                              &nd::bitwise_and, &nd::bitwise_or,  &nd::bitwise_xor, &nd::left_shift,  &nd::right_shift,
                              &nd::logical_and, &nd::logical_or,  &nd::logical_xor, &nd::less,        &nd::less_equal,
                              &nd::equal,      &nd::not_equal,   &nd::greater_equal, &nd::greater,    &nd::pow};
  return *t[o];
}
static nd::array by_operator(Op o, const nd::array &a, const nd::array &b) {
  switch (o) {
  case Add:
    return a + b;
  case Sub:
    return a - b;
  case Mul:
    return a * b;
  case Div:
    return a / b;
  case Mod:
    return a % b;
  case And:
    return a & b;
  case Or:
    return a | b;
  case Xor:
    return a ^ b;
  case Shl:
    return a << b;
  case Shr:
    return a >> b;
  case LAnd:
    return a && b;
  case LOr:
    return a || b;
  case Lt:
    return a < b;
  case Le:
    return a <= b;
  case Eq:
    return a == b;
  case Ne:
    return a != b;
  case Ge:
    return a >= b;
  case Gt:
    return a > b;
  default:
    return fn(o)(a, b);
  }
}
static bool cmp(Op o) { return o >= Lt && o <= Gt; }
static bool integral_only(Op o) { return o >= Mod && o <= Shr; }

static const type_id_t ids[] = {bool_id,   int8_id,   int16_id,  int32_id,   int64_id,  uint8_id,
                                uint16_id, uint32_id, uint64_id, float32_id, float64_id};
template <class F>
static auto with(type_id_t id, F f) {
  switch (id) {
  case bool_id:
    return f(bool());
  case int8_id:
    return f(int8_t());
  case int16_id:
    return f(int16_t());
  case int32_id:
    return f(int32_t());
  case int64_id:
    return f(int64_t());
  case uint8_id:
    return f(uint8_t());
  case uint16_id:
    return f(uint16_t());
  case uint32_id:
    return f(uint32_t());
  case uint64_id:
    return f(uint64_t());
  case float32_id:
    return f(float());
  default:
    return f(double());
  }
}
static bool flt(type_id_t id) { return id == float32_id || id == float64_id; }
template <class T>
static T get(const Val &v) {
  return v.k == Val::Flt ? (T)v.d : (T)v.i;
}
template <class T>
static Val put(T v) {
  return std::is_floating_point<T>::value ? Val::F((double)v) : Val::I((dv::i128)v);
}
struct Ref {
  ndt::type tp;
  Val v;
  enum { Ok, ZeroDiv, Undefined } st = Ok;
};
// what a integer-valued exact result r becomes in type R, when C++ defines it
template <class R>
static void exact(Ref &out, dv::i128 r) {
  if (std::is_signed<R>::value && (r < (dv::i128)std::numeric_limits<R>::min() || r > (dv::i128)std::numeric_limits<R>::max()))
    out.st = Ref::Undefined;
  else
    out.v = put((R)r);
}
template <class A, class B, bool = std::is_integral<A>::value &&std::is_integral<B>::value>
struct Bits {
  static void eval(Op o, A a, B b, Ref &out) {
    switch (o) {
    case Mod:
      out.tp = ndt::make_type<decltype(a % b)>();
      if (!b)
        out.st = Ref::ZeroDiv;
      else if (std::is_signed<decltype(a % b)>::value && a == std::numeric_limits<decltype(a % b)>::min() && (dv::i128)b == -1)
        out.st = Ref::Undefined;
      else
        out.v = put(a % b);
      break;
    case And:
      out.tp = ndt::make_type<decltype(a & b)>();
      out.v = put(a & b);
      break;
    case Or:
      out.tp = ndt::make_type<decltype(a | b)>();
      out.v = put(a | b);
      break;
    case Xor:
      out.tp = ndt::make_type<decltype(a ^ b)>();
      out.v = put(a ^ b);
      break;
    case Shl:
    case Shr: {
      typedef decltype(a << b) R;
      out.tp = ndt::make_type<R>();
      if ((dv::i128)b < 0 || (dv::i128)b >= (dv::i128)sizeof(R) * 8)
        out.st = Ref::Undefined;
      else if (o == Shr)
        out.v = put(a >> b);
      else if ((dv::i128)a < 0)
        out.st = Ref::Undefined;
      else if (std::is_signed<R>::value)
        exact<R>(out, (dv::i128)((dv::u128)a << b) >> 0);
      else
        out.v = put((R)a << b);
      if (o == Shl && std::is_signed<R>::value && out.st == Ref::Ok && ((dv::u128)a << b) > (dv::u128)std::numeric_limits<R>::max())
        out.st = Ref::Undefined;
      break;
    }
    default:
      out.st = Ref::Undefined;
    }
  }
};
template <class A, class B>
struct Bits<A, B, false> {
  static void eval(Op, A, B, Ref &out) { out.st = Ref::Undefined; }
};
template <class A, class B, class R, bool = std::is_integral<R>::value>
struct Arith {
  static void eval(Op o, A a, B b, Ref &out) {
    dv::i128 x = a, y = b;
    out.tp = ndt::make_type<R>();
    switch (o) {
    case Add:
      std::is_signed<R>::value ? exact<R>(out, x + y) : (void)(out.v = put((R)(a + b)));
      break;
    case Sub:
      std::is_signed<R>::value ? exact<R>(out, x - y) : (void)(out.v = put((R)(a - b)));
      break;
    case Mul:
      std::is_signed<R>::value ? exact<R>(out, x * y) : (void)(out.v = put((R)((R)a * (R)b)));
      break;
    default:
      if (!b)
        out.st = Ref::ZeroDiv;
      else if (std::is_signed<R>::value)
        exact<R>(out, x / y);
      else
        out.v = put((R)a / (R)b);
    }
  }
};
template <class A, class B, class R>
struct Arith<A, B, R, false> {
  static void eval(Op o, A a, B b, Ref &out) {
    out.tp = ndt::make_type<R>();
    R x = (R)a, y = (R)b;
    out.v = put((R)(o == Add ? x + y : o == Sub ? x - y : o == Mul ? x * y : x / y));
  }
};
static Ref ref(Op o, type_id_t ia, const Val &va, type_id_t ib, const Val &vb) {
  return with(ia, [&](auto ta) {
    return with(ib, [&](auto tb) {
      typedef decltype(ta) A;
      typedef decltype(tb) B;
      A a = get<A>(va);
      B b = get<B>(vb);
      typedef decltype(a + b) C; // the usual arithmetic conversions
      Ref out;
      if (cmp(o)) {
        C x = (C)a, y = (C)b;
        out.tp = ndt::make_type<bool>();
        out.v = Val::I(o == Lt ? x < y : o == Le ? x <= y : o == Eq ? x == y : o == Ne ? x != y : o == Ge ? x >= y : x > y);
      } else if (o == LAnd || o == LOr || o == LXor) {
        out.tp = o == LXor ? ndt::make_type<int>() : ndt::make_type<bool>();
        out.v = Val::I(o == LAnd ? (a && b) : o == LOr ? (a || b) : ((bool)a != (bool)b));
      } else if (o == Pow) {
        out.tp = ndt::make_type<double>();
        out.v = Val::F(std::pow((double)a, (double)b));
      } else if (integral_only(o))
        Bits<A, B>::eval(o, a, b, out);
      else
        Arith<A, B, C>::eval(o, a, b, out);
      return out;
    });
  });
}

// ---------------------------------------------------------------- values
static Val boundary(Ctx &c, type_id_t id) {
  return with(id, [&](auto t) {
    typedef decltype(t) T;
    if (std::is_same<T, bool>::value)
      return put((T)c.rng.below(2));
    if (std::is_floating_point<T>::value) {
      static const double sp[] = {0.0, -0.0, 1, -1, INFINITY, -INFINITY, NAN, 0.5, 1e-30, 1e30, 16777216, 16777217, 9007199254740993.0, 3.0, 7.0};
      if (c.rng.chance(1, 2))
        return put((T)sp[c.rng.below(15)]);
      return put((T)std::ldexp(c.rng.unit() - 0.5, (int)c.rng.range(-20, 70)));
    }
    T lim[] = {std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), 0, 1, (T)-1, (T)(std::numeric_limits<T>::max() / 2)};
    switch (c.rng.below(4)) {
    case 0:
      return put((T)((uint64_t)lim[c.rng.below(6)] + (uint64_t)c.rng.range(-3, 3)));
    case 1:
      return put((T)c.rng.range(0, 40));
    case 2:
      return put((T)((uint64_t)1 << c.rng.below(sizeof(T) * 8)));
    default:
      return put((T)(c.rng.next() >> c.rng.below(64)));
    }
  });
}
static void store(const Val &v, type_id_t id, char *p) {
  with(id, [&](auto t) {
    decltype(t) x = get<decltype(t)>(v);
    memcpy(p, &x, sizeof x);
    return 0;
  });
}
// values for which operator o is defined with any partner of the same call
static Val calm(Ctx &c, Op o, type_id_t id, int side, bool zerodiv) {
  if (flt(id))
    return Val::F(id == float32_id ? (double)(float)(c.rng.range(-300, 300) / 8.0) : c.rng.range(-3000, 3000) / 16.0);
  if (id == bool_id)
    return Val::I(side == 1 && (o == Div || o == Mod) && !zerodiv ? 1 : c.rng.below(2));
  bool uns = id == uint8_id || id == uint16_id || id == uint32_id || id == uint64_id;
  int64_t v = c.rng.range(uns || (o == Shl) ? 0 : -60, 60);
  if (side == 1 && (o == Shl || o == Shr))
    v = c.rng.range(0, 15);
  if (side == 1 && (o == Div || o == Mod) && !zerodiv && v == 0)
    v = 3;
  return Val::I(v);
}

static bool accepts(Op o, type_id_t a, type_id_t b) { return !integral_only(o) || (!flt(a) && !flt(b)); }
// the pairs the library registers: everything for arithmetic; pow only float and double (others are unspecified)
static void pick(Ctx &c, Op &o, type_id_t &a, type_id_t &b) {
  for (;;) {
    o = (Op)c.rng.below(NOps);
    a = ids[c.rng.below(11)];
    b = ids[c.rng.below(11)];
    if (o == Pow && (!flt(a) || !flt(b)))
      continue;
    if (accepts(o, a, b))
      return;
  }
}

static const char *k_value = "the value at some position is not the operator applied to the elements there";
static const char *k_type = "result type is not the one the operand types determine";
static const char *k_zero = "integer division by zero does not throw zero_division_error";
static const char *k_throw = "a valid elementwise call throws";
static const char *k_operand = "an operand changed";
static const char *k_shape = "operands that do not broadcast are accepted";

// ---------------------------------------------------------------- scalars: every operator and pair at the edges
static void scalars(Ctx &c) {
  Op o;
  type_id_t ia, ib;
  pick(c, o, ia, ib);
  for (int k = 0; k < 6; ++k) {
    Val a = boundary(c, ia), b = boundary(c, ib);
    if ((o == Shl || o == Shr) && c.rng.chance(3, 4))
      b = put((int)c.rng.below(ib == bool_id ? 2 : 40));
    if ((o == Div || o == Mod) && c.rng.chance(1, 5))
      b = flt(ib) ? Val::F(0) : Val::I(0);
    Ref r = ref(o, ia, a, ib, b);
    if (r.st == Ref::Undefined)
      continue;
    nd::array x = nd::empty(dv::builtin(ia)), y = nd::empty(dv::builtin(ib));
    store(a, ia, x.data());
    store(b, ib, y.data());
    std::string what = vf::cat(opname[o], "(", x.get_type().str(), " ", dv::show(a), ", ", y.get_type().str(), " ", dv::show(b), ")");
    c.describe(what);
    nd::array z;
    dv::Outcome oc = dv::attempt([&] { z = c.rng.coin() ? by_operator(o, x, y) : fn(o)(x, y); });
    c.saw(vf::cat("scalar ", opname[o]).c_str(), vf::mix(vf::mix(dv::hash(a), dv::hash(b)), ia * 64 + ib));
    if (r.st == Ref::ZeroDiv) {
      c.check(!oc.ok && oc.cls.find("zero_division") != std::string::npos, k_zero, [&] { return what + (oc.ok ? " returned" : " threw " + oc.cls); });
      continue;
    }
    if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
      return;
    if (!c.check(z.get_type() == r.tp, k_type, [&] { return what + " gave " + z.get_type().str() + " instead of " + r.tp.str(); }))
      return;
    Val got = dv::read(z);
    c.check(got == r.v, k_value, [&] { return what + " = " + dv::show(got) + " instead of " + dv::show(r.v); });
    c.check(dv::read(x) == a && dv::read(y) == b, k_operand, [&] { return what; });
  }
}

// ---------------------------------------------------------------- arrays
struct Cast { // one broadcast operand of a result shape
  ivec shape;
};
static ivec operand_shape(Ctx &c, const ivec &res) {
  size_t n = res.size(), drop = c.rng.chance(1, 3) ? c.rng.below(n + 1) : 0;
  ivec s(res.begin() + drop, res.end());
  for (intptr_t &x : s)
    if (c.rng.chance(1, 5))
      x = 1;
  return s;
}
static bool broadcast(const ivec &a, const ivec &b, ivec &r) {
  size_t n = std::max(a.size(), b.size());
  r.assign(n, 1);
  for (size_t i = 0; i < n; ++i) {
    intptr_t x = i < n - a.size() ? 1 : a[i - (n - a.size())], y = i < n - b.size() ? 1 : b[i - (n - b.size())];
    if (x != y && x != 1 && y != 1)
      return false;
    r[i] = x == 1 ? y : x;
  }
  return true;
}
static ivec project(const ivec &ix, const ivec &shape) {
  ivec r(ix.end() - shape.size(), ix.end());
  for (size_t i = 0; i < r.size(); ++i)
    if (shape[i] == 1)
      r[i] = 0;
  return r;
}
static std::string list(const ivec &v) {
  std::string s = "(";
  for (intptr_t x : v)
    s += vf::cat(x, ",");
  return s + ")";
}
static ndt::type shaped(const ivec &s, const ndt::type &e) {
  ndt::type t = e;
  for (size_t i = s.size(); i-- > 0;)
    t = ndt::make_fixed_dim(s[i], t);
  return t;
}
static void load(Ctx &c, ag::View &v, Op o, type_id_t id, int side, bool zd) {
  for (size_t k = 0; k < v.count; ++k)
    store(calm(c, o, id, side, zd), id, v.at((intptr_t)k));
}
static std::string bytes_of(const ag::View &v) { return std::string(v.at((intptr_t)0), v.count * v.elem.get_data_size()); }

static void arrays(Ctx &c) {
  Op o;
  type_id_t ia, ib;
  pick(c, o, ia, ib);
  ivec res = ag::gen_shape(c, 4, 5), sa = operand_shape(c, res), sb = operand_shape(c, res), rs;
  bool bad = c.rng.chance(1, 8) && !sb.empty();
  if (bad) {
    size_t i = c.rng.below(sb.size());
    sb[i] += 1 + c.rng.below(2);
  }
  bool fits = broadcast(sa, sb, rs);
  bool zd = c.rng.chance(1, 8);
  ag::View a = ag::make_view(c, dv::builtin(ia), sa, ag::gen_layout(c, true));
  ag::View b = ag::make_view(c, dv::builtin(ib), sb, ag::gen_layout(c, true));
  load(c, a, o, ia, 0, zd);
  load(c, b, o, ib, 1, zd);
  std::string ba = bytes_of(a), bb = bytes_of(b);
  std::string what = vf::cat(opname[o], "(", a.str(), ", ", b.str(), ")");
  c.describe(what);
  // sometimes into a destination given by the caller, a strided view
  bool into = fits && c.rng.chance(1, 3);
  Ref r0 = ref(o, ia, calm(c, o, ia, 0, false), ib, calm(c, o, ib, 1, false));
  ag::View d;
  std::string before;
  std::vector<char> touched;
  if (into) {
    d = ag::make_view(c, r0.tp, rs, ag::Strided);
    before = bytes_of(d);
    what += vf::cat(" into ", d.str());
  }
  nd::array z;
  dv::Outcome oc = dv::attempt([&] {
    if (into)
      z = fn(o)({a.a, b.a}, {{"dst", d.a}});
    else
      z = c.rng.coin() ? by_operator(o, a.a, b.a) : fn(o)(a.a, b.a);
  });
  c.saw(vf::cat("array ", opname[o], into ? " into" : "", fits ? "" : " misfit").c_str(), vf::hash_str(what));
  c.check(bytes_of(a) == ba && bytes_of(b) == bb, k_operand, [&] { return what; });
  if (!fits) {
    c.check(!oc.ok, k_shape, [&] { return what + " gave " + z.get_type().str(); });
    return;
  }
  bool zero = false;
  std::vector<Val> want;
  ag::each(rs, [&](const ivec &ix) {
    Ref r = ref(o, ia, a.val(project(ix, sa)), ib, b.val(project(ix, sb)));
    zero |= r.st == Ref::ZeroDiv;
    want.push_back(r.v);
  });
  if (zero) {
    c.check(!oc.ok && oc.cls.find("zero_division") != std::string::npos, k_zero, [&] { return what + (oc.ok ? " returned" : " threw " + oc.cls); });
    return;
  }
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  if (!c.check(z.get_type() == shaped(rs, r0.tp), k_type, [&] { return what + " gave " + z.get_type().str() + " instead of " + shaped(rs, r0.tp).str(); }))
    return;
  ag::Node t = ag::tree(z);
  std::vector<const ag::Node *> lv;
  ag::leaves(t, lv);
  c.check(lv.size() == want.size(), k_value, [&] { return vf::cat(what, ": ", lv.size(), " elements"); });
  for (size_t i = 0; i < lv.size() && i < want.size(); ++i) {
    Val got = dv::read(r0.tp, nullptr, lv[i]->at);
    if (!c.check(got == want[i], k_value, [&] { return vf::cat(what, " at position ", i, ": ", dv::show(got), " instead of ", dv::show(want[i])); }))
      return;
  }
  if (into) {
    std::string after = bytes_of(d);
    size_t es = r0.tp.get_data_size();
    ag::each(rs, [&](const ivec &ix) {
      before.replace(d.index(ix) * es, es, std::string(d.at(ix), es));
    });
    c.check(before == after, "an operation writes outside its destination", [&] { return what; });
  }
}

// ---------------------------------------------------------------- variable dimensions
// operands as trees: variable sizes may differ from row to row, and the sizes are broadcast row by row
struct Misfit {};
static Val bcast(Op o, type_id_t ia, const Val &a, int na, type_id_t ib, const Val &b, int nb, bool &zero) {
  if (na == 0 && nb == 0) {
    Ref r = ref(o, ia, a, ib, b);
    zero |= r.st == Ref::ZeroDiv;
    return r.v;
  }
  bool ua = na >= nb, ub = nb >= na;
  size_t x = ua ? a.kids.size() : 1, y = ub ? b.kids.size() : 1;
  if (x != y && x != 1 && y != 1)
    throw Misfit();
  size_t n = x == 1 ? y : x;
  Val r = Val::L({});
  for (size_t i = 0; i < n; ++i)
    r.kids.push_back(bcast(o, ia, ua ? a.kids[x == 1 ? 0 : i] : a, na - ua, ib, ub ? b.kids[y == 1 ? 0 : i] : b, nb - ub, zero));
  return r;
}
static void set_leaves(Ctx &c, const nd::array &a, Op o, type_id_t id, int side) {
  ag::Node t = ag::tree(a);
  std::vector<const ag::Node *> lv;
  ag::leaves(t, lv);
  for (const ag::Node *n : lv)
    store(calm(c, o, id, side, false), id, n->at);
}
// gives every variable row under `p` a size: `sizes[level]` usually, so that most cases broadcast
static void alloc(Ctx &c, const ndt::type &tp, const char *md, char *p, const ivec &sizes, size_t level, bool wild) {
  if (tp.get_id() == fixed_dim_id) {
    auto m = reinterpret_cast<const fixed_dim_type_arrmeta *>(md);
    for (intptr_t i = 0; i < m->dim_size; ++i)
      alloc(c, tp.extended<ndt::base_dim_type>()->get_element_type(), md + sizeof(*m), p + i * m->stride, sizes, level + 1, wild);
  } else if (tp.get_id() == var_dim_id) {
    auto m = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(md);
    auto d = reinterpret_cast<ndt::var_dim_type::data_type *>(p);
    size_t n = wild ? c.rng.below(4) : c.rng.chance(1, 5) ? 1 : sizes[level];
    d->begin = m->blockref->alloc(n);
    d->size = n;
    for (size_t i = 0; i < n; ++i)
      alloc(c, tp.extended<ndt::base_dim_type>()->get_element_type(), md + sizeof(*m), d->begin + i * m->stride, sizes, level + 1, wild);
  }
}
static void vars(Ctx &c) {
  Op o;
  type_id_t ia, ib;
  pick(c, o, ia, ib);
  int n = 1 + (int)c.rng.below(3);
  ivec sizes(n);
  for (intptr_t &s : sizes)
    s = c.rng.below(5);
  bool wild = c.rng.chance(1, 6);
  auto make = [&](type_id_t id, int side, int &nd, std::string &ts) {
    size_t drop = c.rng.chance(1, 3) ? c.rng.below(n + 1) : 0;
    nd = n - (int)drop;
    ts = "";
    for (int i = (int)drop; i < n; ++i)
      ts += c.rng.coin() ? "var * " : vf::cat(c.rng.chance(1, 5) ? 1 : sizes[i], " * ");
    ts += dv::builtin(id).str();
    nd::array a = nd::empty(ndt::type(ts));
    alloc(c, a.get_type(), a.get()->metadata(), a.data(), sizes, drop, wild);
    set_leaves(c, a, o, id, side);
    return a;
  };
  int na, nb;
  std::string ta, tb;
  nd::array a = make(ia, 0, na, ta), b = make(ib, 1, nb, tb);
  Val va = dv::read(a), vb = dv::read(b);
  std::string what = vf::cat(opname[o], "(", ta, " ", dv::show(va), ", ", tb, " ", dv::show(vb), ")");
  c.describe(what);
  bool zero = false, fits = true;
  Val want;
  try {
    want = bcast(o, ia, va, na, ib, vb, nb, zero);
  } catch (Misfit) {
    fits = false;
  }
  nd::array z;
  dv::Outcome oc = dv::attempt([&] { z = fn(o)(a, b); });
  c.saw(vf::cat("var ", fits ? "fits" : "misfit").c_str(), vf::hash_str(what));
  c.check(dv::read(a) == va && dv::read(b) == vb, k_operand, [&] { return what; });
  if (!fits) {
    c.check(!oc.ok, k_shape, [&] { return what + " gave " + z.get_type().str() + " " + dv::show(dv::read(z)); });
    return;
  }
  if (zero)
    return;
  if (!oc.ok) {
    // a fixed size of the result comes from the fixed operands, so that a variable row of another size cannot widen it
    bool widened = false;
    std::function<void(const Val &, const ndt::type &)> f;
    c.check(oc.cls.find("broadcast") != std::string::npos, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; });
    (void)widened;
    c.saw("var refused", vf::hash_str(what));
    return;
  }
  Val got = dv::read(z);
  Ref r0 = ref(o, ia, calm(c, o, ia, 0, false), ib, calm(c, o, ib, 1, false));
  c.check(z.get_dtype() == r0.tp, k_type, [&] { return what + " gave " + z.get_type().str(); });
  c.check(got == want, k_value, [&] { return what + " gave " + z.get_type().str() + " " + dv::show(got) + " instead of " + dv::show(want); });
}

// ---------------------------------------------------------------- unary operators and functions
static void unary(Ctx &c) {
  enum { Plus, Minus, Not, BNot, Sqrt, Cbrt, Sin, Cos, Tan, Exp, N };
  static const char *names[] = {"plus", "minus", "logical_not", "bitwise_not", "sqrt", "cbrt", "sin", "cos", "tan", "exp"};
  static nd::callable *fs[] = {&nd::plus, &nd::minus, &nd::logical_not, &nd::bitwise_not, &nd::sqrt, &nd::cbrt, &nd::sin, &nd::cos, &nd::tan, &nd::exp};
  int u = (int)c.rng.below(N);
  type_id_t id = u >= Sin ? float64_id : u >= Sqrt ? (c.rng.coin() ? float32_id : float64_id) : ids[1 + c.rng.below(10)];
  if (u == BNot && flt(id))
    id = int32_id;
  ivec s = ag::gen_shape(c, 3, 5);
  ag::View v = ag::make_view(c, dv::builtin(id), s, ag::gen_layout(c, true));
  for (size_t k = 0; k < v.count; ++k) {
    Val x = boundary(c, id);
    if (u == Minus && (id == int32_id || id == int64_id) && x.i == (id == int32_id ? (dv::i128)INT32_MIN : (dv::i128)INT64_MIN))
      x = Val::I(5);
    store(x, id, v.at((intptr_t)k));
  }
  std::string before = bytes_of(v), what = vf::cat(names[u], "(", v.str(), ")");
  c.describe(what);
  nd::array z;
  dv::Outcome oc = dv::attempt([&] {
    bool op = c.rng.coin() && u < Sqrt;
    z = !op ? (*fs[u])(v.a) : u == Plus ? +v.a : u == Minus ? -v.a : u == Not ? !v.a : ~v.a;
  });
  c.saw(vf::cat("unary ", names[u]).c_str(), vf::hash_str(what));
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  c.check(bytes_of(v) == before, k_operand, [&] { return what; });
  std::vector<const ag::Node *> lv;
  ag::Node t = ag::tree(z);
  ag::leaves(t, lv);
  size_t i = 0;
  bool go = true;
  ag::each(s, [&](const ivec &ix) {
    if (!go)
      return;
    Val x = v.val(ix);
    Ref r;
    with(id, [&](auto tt) {
      typedef decltype(tt) T;
      T a = get<T>(x);
      switch (u) {
      case Plus:
        r.tp = ndt::make_type<decltype(+a)>();
        r.v = put(+a);
        break;
      case Minus:
        r.tp = ndt::make_type<decltype(-a)>();
        r.v = put((decltype(-a))(-a));
        break;
      case Not:
        r.tp = ndt::make_type<bool>();
        r.v = Val::I(!a);
        break;
      case BNot:
        r.tp = ndt::make_type<decltype(+a)>();
        r.v = put((decltype(+a))(~(int64_t)a));
        break;
      case Sqrt:
        r.tp = ndt::make_type<T>();
        r.v = put((T)std::sqrt(a));
        break;
      case Cbrt:
        r.tp = ndt::make_type<T>();
        r.v = put((T)std::cbrt(a));
        break;
      default:
        r.tp = ndt::make_type<double>();
        r.v = Val::F(u == Sin ? std::sin((double)a) : u == Cos ? std::cos((double)a) : u == Tan ? std::tan((double)a) : std::exp((double)a));
      }
      return 0;
    });
    if (i == 0)
      go = c.check(z.get_type() == shaped(s, r.tp), k_type, [&] { return what + " gave " + z.get_type().str() + " for " + shaped(s, r.tp).str(); });
    if (!go)
      return;
    Val got = dv::read(r.tp, nullptr, lv[i++]->at);
    go = c.check(got == r.v, k_value, [&] { return what + " of " + dv::show(x) + " = " + dv::show(got) + " instead of " + dv::show(r.v); });
  });
}

// ---------------------------------------------------------------- complex numbers
static void complexes(Ctx &c) {
  static const Op ops[] = {Add, Sub, Mul, Div, Eq, Ne};
  Op o = ops[c.rng.below(6)];
  bool f32 = c.rng.coin(), single_b = f32;
  int real = cmp(o) ? 0 : (int)c.rng.below(3); // 1: left operand is real, 2: right
  type_id_t ci = f32 ? complex_float32_id : complex_float64_id, ri = f32 ? float32_id : float64_id;
  (void)single_b;
  type_id_t ia = real == 1 ? ri : ci, ib = real == 2 ? ri : ci;
  ivec res = ag::gen_shape(c, 3, 4, false), sa = operand_shape(c, res), sb = operand_shape(c, res), rs;
  broadcast(sa, sb, rs);
  ag::View a = ag::make_view(c, dv::builtin(ia), sa, ag::gen_layout(c, true)), b = ag::make_view(c, dv::builtin(ib), sb, ag::gen_layout(c, true));
  auto fill = [&](ag::View &v, type_id_t id, bool nz) {
    for (size_t k = 0; k < v.count; ++k)
      for (int part = 0; part < (id == ri ? 1 : 2); ++part) {
        double x = c.rng.range(-6, 6);
        if (nz && part == 0 && x == 0)
          x = 2;
        if (cmp(o))
          x = c.rng.below(2);
        f32 ? store(Val::F(x), float32_id, v.at((intptr_t)k) + 4 * part) : store(Val::F(x), float64_id, v.at((intptr_t)k) + 8 * part);
      }
  };
  fill(a, ia, false);
  fill(b, ib, o == Div);
  std::string what = vf::cat(opname[o], "(", a.str(), ", ", b.str(), ")");
  c.describe(what);
  nd::array z;
  dv::Outcome oc = dv::attempt([&] { z = c.rng.coin() ? by_operator(o, a.a, b.a) : fn(o)(a.a, b.a); });
  c.saw(vf::cat("complex ", opname[o]).c_str(), vf::hash_str(what));
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  ndt::type et = dv::builtin(cmp(o) ? bool_id : ci);
  if (!c.check(z.get_type() == shaped(rs, et), k_type, [&] { return what + " gave " + z.get_type().str(); }))
    return;
  ag::Node t = ag::tree(z);
  std::vector<const ag::Node *> lv;
  ag::leaves(t, lv);
  size_t i = 0;
  ag::each(rs, [&](const ivec &ix) {
    Val va = a.val(project(ix, sa)), vb = b.val(project(ix, sb)), got = dv::read(et, nullptr, lv[i++]->at);
    std::complex<double> x(va.d, va.k == Val::Cplx ? va.d2 : 0), y(vb.d, vb.k == Val::Cplx ? vb.d2 : 0), w;
    bool good;
    if (cmp(o))
      good = got.k == Val::Int && got.i == (o == Eq ? x == y : x != y);
    else {
      w = o == Add ? x + y : o == Sub ? x - y : o == Mul ? x * y : x / y;
      good = std::abs(std::complex<double>(got.d, got.d2) - w) <= (o == Div ? (f32 ? 1e-5 : 1e-13) : 0) * (1 + std::abs(w));
    }
    c.check(good, k_value, [&] { return what + ": " + dv::show(va) + " and " + dv::show(vb) + " give " + dv::show(got); });
  });
}
static void complex_parts(Ctx &c) {
  bool f32 = c.rng.coin();
  type_id_t ci = f32 ? complex_float32_id : complex_float64_id;
  int u = (int)c.rng.below(3);
  static nd::callable *fs[] = {&nd::real, &nd::imag, &nd::conj};
  ivec s = ag::gen_shape(c, 3, 5);
  ag::View v = ag::make_view(c, dv::builtin(ci), s, ag::gen_layout(c, true));
  std::string what = vf::cat(u == 0 ? "real(" : u == 1 ? "imag(" : "conj(", v.str(), ")");
  c.describe(what);
  nd::array z;
  dv::Outcome oc = dv::attempt([&] { z = (*fs[u])(v.a); });
  c.saw(vf::cat("complex part ", u).c_str(), vf::hash_str(what));
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  ndt::type et = dv::builtin(u == 2 ? ci : f32 ? float32_id : float64_id);
  if (!c.check(z.get_type() == shaped(s, et), k_type, [&] { return what + " gave " + z.get_type().str(); }))
    return;
  ag::Node t = ag::tree(z);
  std::vector<const ag::Node *> lv;
  ag::leaves(t, lv);
  size_t i = 0;
  ag::each(s, [&](const ivec &ix) {
    Val x = v.val(ix), got = dv::read(et, nullptr, lv[i++]->at);
    Val w = u == 0 ? Val::F(x.d) : u == 1 ? Val::F(x.d2) : Val::C(x.d, -x.d2);
    c.check(got == w, k_value, [&] { return what + " of " + dv::show(x) + " = " + dv::show(got); });
  });
}

// ---------------------------------------------------------------- 128-bit and half operands of one type
static void wide(Ctx &c) {
  static const Op ops[] = {Add, Sub, Mul};
  Op o = ops[c.rng.below(3)];
  bool sg = c.rng.coin();
  type_id_t id = sg ? int128_id : uint128_id;
  ivec res = ag::gen_shape(c, 3, 4, false), sa = operand_shape(c, res), sb = operand_shape(c, res), rs;
  broadcast(sa, sb, rs);
  ag::View a = ag::make_view(c, dv::builtin(id), sa, ag::gen_layout(c, true)), b = ag::make_view(c, dv::builtin(id), sb, ag::gen_layout(c, true));
  std::string what = vf::cat(opname[o], "(", a.str(), ", ", b.str(), ")");
  c.describe(what);
  nd::array z;
  dv::Outcome oc = dv::attempt([&] { z = fn(o)(a.a, b.a); });
  c.saw(vf::cat("wide ", opname[o]).c_str(), vf::hash_str(what));
  if (!oc.ok) // 128-bit arithmetic need not be registered
    return;
  ag::Node t = ag::tree(z);
  std::vector<const ag::Node *> lv;
  ag::leaves(t, lv);
  if (z.get_dtype() != dv::builtin(id))
    return;
  size_t i = 0;
  ag::each(rs, [&](const ivec &ix) {
    dv::u128 x = dv::ld<dv::u128>(a.at(project(ix, sa))), y = dv::ld<dv::u128>(b.at(project(ix, sb))), w = o == Add ? x + y : o == Sub ? x - y : x * y;
    dv::u128 got = dv::ld<dv::u128>(lv[i++]->at);
    c.check(got == w, k_value, [&] { return what + ": " + dv::i128s((dv::i128)x) + ", " + dv::i128s((dv::i128)y) + " give " + dv::i128s((dv::i128)got); });
  });
}

// ---------------------------------------------------------------- compound assignment
static void compound(Ctx &c) {
  bool add = c.rng.coin();
  static const type_id_t wide_ids[] = {int32_id, int64_id, uint32_id, uint64_id, float32_id, float64_id};
  type_id_t id = wide_ids[c.rng.below(6)], ib = c.rng.coin() ? id : ids[1 + c.rng.below(10)];
  ivec s = ag::gen_shape(c, 4, 5), sb = operand_shape(c, s), rs;
  bool bad = c.rng.chance(1, 8) && !sb.empty();
  if (bad)
    sb[c.rng.below(sb.size())] += 1 + c.rng.below(2);
  bool fits = broadcast(s, sb, rs) && rs == s;
  ag::View a = ag::make_view(c, dv::builtin(id), s, ag::gen_layout(c, false)), b = ag::make_view(c, dv::builtin(ib), sb, ag::gen_layout(c, true));
  Op o = add ? Add : Div;
  load(c, a, o, id, 0, false);
  load(c, b, o, ib, 1, false);
  if (flt(ib))
    for (size_t k = 0; k < b.count; ++k)
      store(Val::F(c.rng.range(1, 9)), ib, b.at((intptr_t)k));
  std::string before = bytes_of(a), bb = bytes_of(b), what = vf::cat(a.str(), add ? " += " : " /= ", b.str());
  c.describe(what);
  size_t es = a.elem.get_data_size();
  std::string want = before;
  bool undefined = false;
  if (fits)
    ag::each(s, [&](const ivec &ix) {
      Ref r = ref(o, id, a.val(ix), ib, b.val(project(ix, sb)));
      char buf[8];
      // a fractional or negative value has no defined unsigned equivalent
      undefined |= r.v.k == Val::Flt && r.v.d < 0 && (id == uint32_id || id == uint64_id);
      undefined |= (r.v.k == Val::Flt && !flt(id)) && std::fabs(r.v.d) > 2e9;
      undefined |= r.st != Ref::Ok;
      if (undefined)
        return;
      store(r.v, id, buf);
      want.replace(a.index(ix) * es, es, std::string(buf, es));
    });
  if (undefined)
    return;
  dv::Outcome oc = dv::attempt([&] { add ? (a.a += b.a) : (a.a /= b.a); });
  c.saw(vf::cat("compound ", add ? "+=" : "/=", fits ? "" : " misfit").c_str(), vf::hash_str(what));
  c.check(bytes_of(b) == bb, k_operand, [&] { return what; });
  if (!fits) {
    c.check(!oc.ok, k_shape, [&] { return what; });
    c.check(bytes_of(a) == before, "a refused compound assignment wrote something", [&] { return what; });
    return;
  }
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  std::string after = bytes_of(a);
  c.check(after == want, "compound assignment does not give the operator's value everywhere, and nothing else", [&] {
    size_t i = 0;
    while (after[i] == want[i])
      ++i;
    return vf::cat(what, " at element ", i / es, " of the owner");
  });
}

// ---------------------------------------------------------------- operands no operator takes
static void refused(Ctx &c) {
  static const char *odd[] = {"int32", "bytes", "string", "(int32, int32)", "{a: int32}", "type", "fixed_bytes[4]", "int128", "uint128", "float16",
                              "?int32", "char", "fixed_string[4]", "complex[float64]", "()", "bool", "float64", "uint64", "?string", "3 * int16", "var * float32"};
  const char *ta = odd[c.rng.below(21)], *tb = odd[c.rng.below(21)];
  bool one = c.rng.chance(1, 4);
  static nd::callable *unary[] = {&nd::plus, &nd::minus, &nd::bitwise_not, &nd::logical_not, &nd::sin, &nd::cos, &nd::tan, &nd::exp, &nd::sqrt, &nd::cbrt, &nd::real, &nd::imag, &nd::conj};
  Op o = (Op)c.rng.below(NOps);
  if (o == Shl || o == Shr)
    o = Lt; // any shift count will do only where shifting is defined
  size_t u = c.rng.below(13);
  int da = (int)c.rng.below(3), db = (int)c.rng.below(3);
  auto dim = [](int n, const char *t) { return ndt::type(std::string(n == 0 ? "" : n == 1 ? "2 * " : "3 * 2 * ") + t); };
  ag::FillOpts fo;
  fo.small = true;
  nd::array a = ag::filled(c, dim(da, ta), fo), b = ag::filled(c, dim(db, tb), fo);
  Val va = dv::read(a), vb = dv::read(b);
  std::string what = one ? vf::cat("unary ", u, " of ", a.get_type().str()) : vf::cat(opname[o], "(", a.get_type().str(), ", ", b.get_type().str(), ")");
  what += " " + dv::show(va) + (one ? "" : ", " + dv::show(vb));
  c.describe(what);
  nd::array z;
  dv::Outcome oc = dv::attempt([&] { z = one ? (*unary[u])(a) : fn(o)(a, b); });
  c.saw(oc.ok ? "combination computed" : "combination refused", vf::hash_str(vf::cat(one, o, u, ta, tb, da, db)));
  c.check(dv::read(a) == va && dv::read(b) == vb, k_operand, [&] { return what; });
  if (oc.ok)
    c.check(!z.get_type().is_symbolic() && dv::attempt([&] { dv::read(z); }).ok, k_type, [&] { return what + " gave " + z.get_type().str(); });
  if (oc.ok && !one && (o == Eq || o == Ne) && std::string(ta) == tb && da == 0 && db == 0 && z.get_type() == dv::builtin(bool_id) && va.k != Val::Flt && va.k != Val::Cplx && va.k != Val::Seq)
    c.check((dv::read(z).i != 0) == ((va == vb) == (o == Eq)), k_value, [&] { return what + " gave " + dv::show(dv::read(z)); });
}

// ---------------------------------------------------------------- records, strings, bytes, types: equality
static std::string rec_type(Ctx &c, int depth) {
  static const char *leaf[] = {"int32", "float64", "string", "int8", "uint16", "bool", "int64", "float32"};
  if (depth > 2 || c.rng.chance(1, 2))
    return leaf[c.rng.below(8)];
  bool st = c.rng.coin();
  int n = c.rng.chance(1, 6) ? 9 + (int)c.rng.below(5) : 1 + (int)c.rng.below(4);
  std::string s = st ? "{" : "(";
  for (int i = 0; i < n; ++i)
    s += vf::cat(i ? ", " : "", st ? vf::cat("f", i, ": ") : "", rec_type(c, depth + 1));
  return s + (st ? "}" : ")");
}
static bool equal(const Val &a, const Val &b) { // operator==: NaN differs from itself, zeros are equal
  if (a.k == Val::Flt)
    return a.d == b.d;
  if (a.k == Val::Seq) {
    for (size_t i = 0; i < a.kids.size(); ++i)
      if (!equal(a.kids[i], b.kids[i]))
        return false;
    return true;
  }
  return a == b;
}
static void records(Ctx &c) {
  std::string ts;
  do
    ts = rec_type(c, 0);
  while (ts[0] != '{' && ts[0] != '(');
  ndt::type et(ts);
  ivec res = ag::gen_shape(c, 3, 3, false), sa = operand_shape(c, res), sb = operand_shape(c, res), rs;
  broadcast(sa, sb, rs);
  ag::FillOpts fo;
  fo.small = true;
  ag::View a = ag::make_view(c, et, sa, ag::gen_layout(c, true), fo), b = ag::make_view(c, et, sb, ag::gen_layout(c, true), fo);
  // make most elements nearly equal: every element of b is one fixed element of a, with at most one leaf redrawn
  const char *md = a.owner.get()->metadata() + sizeof(fixed_dim_type_arrmeta), *mb = b.owner.get()->metadata() + sizeof(fixed_dim_type_arrmeta);
  auto copy_leaves = [&](const ag::Node &from, const ag::Node &to) {
    std::vector<const ag::Node *> x, y;
    ag::leaves(from, x);
    ag::leaves(to, y);
    size_t redraw = c.rng.chance(1, 2) ? c.rng.below(x.size()) : x.size();
    for (size_t i = 0; i < x.size(); ++i)
      if (i == redraw)
        ag::fill_leaf(c, y[i]->tp, y[i]->at, fo);
      else if (x[i]->tp.get_id() == string_id)
        reinterpret_cast<dynd::string *>(y[i]->at)->assign(reinterpret_cast<dynd::string *>(x[i]->at)->begin(), reinterpret_cast<dynd::string *>(x[i]->at)->size());
      else
        memcpy(y[i]->at, x[i]->at, x[i]->tp.get_data_size());
  };
  ag::Node proto = ag::tree(et, md, a.at((intptr_t)0));
  for (size_t k = 1; k < a.count; ++k)
    copy_leaves(proto, ag::tree(et, md, a.at((intptr_t)k)));
  for (size_t k = 0; k < b.count; ++k)
    copy_leaves(proto, ag::tree(et, mb, b.at((intptr_t)k)));
  Op o = c.rng.coin() ? Eq : Ne;
  std::string what = vf::cat(opname[o], "(", a.str(), ", ", b.str(), ")");
  c.describe(what);
  nd::array z;
  dv::Outcome oc = dv::attempt([&] { z = c.rng.coin() ? by_operator(o, a.a, b.a) : fn(o)(a.a, b.a); });
  c.saw(vf::cat("record ", opname[o]).c_str(), vf::hash_str(what));
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  if (!c.check(z.get_type() == shaped(rs, dv::builtin(bool_id)), k_type, [&] { return what + " gave " + z.get_type().str(); }))
    return;
  ag::Node t = ag::tree(z);
  std::vector<const ag::Node *> lv;
  ag::leaves(t, lv);
  size_t i = 0;
  ag::each(rs, [&](const ivec &ix) {
    Val x = a.val(project(ix, sa)), y = b.val(project(ix, sb)), got = dv::read(dv::builtin(bool_id), nullptr, lv[i++]->at);
    bool w = (o == Eq) == equal(x, y);
    c.check(got.i == (int)w, k_value, [&] { return what + ": " + dv::show(x) + " and " + dv::show(y) + " give " + dv::show(got); });
  });
}
static void strings(Ctx &c) {
  Op o = (Op)(Lt + c.rng.below(6));
  ivec res = ag::gen_shape(c, 3, 4), sa = operand_shape(c, res), sb = operand_shape(c, res), rs;
  broadcast(sa, sb, rs);
  ndt::type st("string");
  ag::View a = ag::make_view(c, st, sa, ag::gen_layout(c, true)), b = ag::make_view(c, st, sb, ag::gen_layout(c, true));
  for (ag::View *v : {&a, &b})
    for (size_t k = 0; k < v->count; ++k) {
      std::string s(c.rng.below(4) ? c.rng.below(5) : c.rng.below(40), 'x');
      for (char &ch : s)
        ch = "ab\xc3\x7f"[c.rng.below(4)];
      reinterpret_cast<dynd::string *>(v->at((intptr_t)k))->assign(s.data(), s.size());
    }
  std::string what = vf::cat(opname[o], "(", a.str(), ", ", b.str(), ")");
  c.describe(what);
  nd::array z;
  dv::Outcome oc = dv::attempt([&] { z = c.rng.coin() ? by_operator(o, a.a, b.a) : fn(o)(a.a, b.a); });
  c.saw(vf::cat("string ", opname[o]).c_str(), vf::hash_str(what));
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  if (!c.check(z.get_type() == shaped(rs, dv::builtin(bool_id)), k_type, [&] { return what + " gave " + z.get_type().str(); }))
    return;
  ag::Node t = ag::tree(z);
  std::vector<const ag::Node *> lv;
  ag::leaves(t, lv);
  size_t i = 0;
  ag::each(rs, [&](const ivec &ix) {
    std::string x = a.val(project(ix, sa)).s, y = b.val(project(ix, sb)).s;
    Val got = dv::read(dv::builtin(bool_id), nullptr, lv[i++]->at);
    bool w = o == Lt ? x < y : o == Le ? x <= y : o == Eq ? x == y : o == Ne ? x != y : o == Ge ? x >= y : x > y;
    c.check(got.i == (int)w, k_value, [&] { return what + ": " + vf::quote(x) + " and " + vf::quote(y) + " give " + dv::show(got); });
  });
}

// ---------------------------------------------------------------- a destination of another type
static void wrong_dst(Ctx &c) {
  Op o;
  type_id_t ia, ib;
  pick(c, o, ia, ib);
  Val va = calm(c, o, ia, 0, false), vb = calm(c, o, ib, 1, false);
  Ref r = ref(o, ia, va, ib, vb);
  if (r.st != Ref::Ok)
    return;
  ivec shape = ag::gen_shape(c, 2, 4);
  ag::View a = ag::make_view(c, dv::builtin(ia), shape, ag::Contiguous), b = ag::make_view(c, dv::builtin(ib), shape, ag::Contiguous);
  for (size_t k = 0; k < a.count; ++k)
    store(va, ia, a.at((intptr_t)k)), store(vb, ib, b.at((intptr_t)k));
  type_id_t id = ids[c.rng.below(11)];
  ag::View d = ag::make_view(c, dv::builtin(id), shape, ag::Strided);
  std::string before = bytes_of(d), what = vf::cat(opname[o], "(", a.str(), ", ", b.str(), ") into ", d.str());
  c.describe(what);
  dv::Outcome oc = dv::attempt([&] { fn(o)({a.a, b.a}, {{"dst", d.a}}); });
  c.saw(oc.ok ? "dst taken" : "dst refused", vf::hash_str(vf::cat(opname[o], ia, ",", ib, ",", id)));
  if (!oc.ok) {
    c.check(d.elem != r.tp, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; });
    c.check(bytes_of(d) == before, "a refused call wrote into its destination", [&] { return what; });
    return;
  }
  size_t es = d.elem.get_data_size();
  ag::each(shape, [&](const ivec &ix) {
    Val got = dv::read(d.elem, nullptr, d.at(ix));
    bool same = got == r.v || (got.k != Val::Seq && r.v.k != Val::Seq && (got.k == Val::Flt ? got.d : (double)got.i) == (r.v.k == Val::Flt ? r.v.d : (double)r.v.i));
    c.check(same, "a destination of another type holds something else than the result", [&] { return what + ": " + dv::show(got) + " for " + dv::show(r.v); });
    before.replace(d.index(ix) * es, es, std::string(d.at(ix), es));
  });
  c.check(before == bytes_of(d), "an operation writes outside its destination", [&] { return what; });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "N03",
                 "every elementwise call is compared, position by position, with the C++ operator on the two elements there",
                 {{"scalars", 60000, 3000000, scalars},
                  {"arrays", 20000, 1000000, arrays},
                  {"vars", 12000, 600000, vars},
                  {"unary", 8000, 300000, unary},
                  {"complexes", 4000, 200000, complexes},
                  {"complex_parts", 2000, 60000, complex_parts},
                  {"wide", 2000, 60000, wide},
                  {"compound", 6000, 300000, compound},
                  {"records", 4000, 200000, records},
                  {"strings", 4000, 200000, strings},
                  {"wrong_dst", 4000, 200000, wrong_dst},
                  {"refused", 8000, 200000, refused}});
}
