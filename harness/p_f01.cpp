// F01: functions made from functions. Random C++ functions, wrapped in the five ways the library offers and combined to
// random depth, are called with random arrays, and each result is compared with the definition worked out on plain
// values. A count of live function objects and the balance of the heap tell what is kept or freed.
#include "arrgen.hpp"
#include "vf.hpp"
#include <algorithm>
#include <climits>
#include <dynd/array.hpp>
#include <dynd/assignment.hpp>
#include <dynd/callable.hpp>
#include <dynd/functional.hpp>
#include <dynd/option.hpp>
#include <functional>
using namespace dynd;
using dv::Val;
using vf::Ctx;
namespace fn = dynd::nd::functional;

static const char *k_value = "a function made from functions gave a value its definition does not";
static const char *k_type = "a function made from functions gave a result of another type";
static const char *k_threw = "a valid call threw";
static const char *k_made = "a valid combination of functions was refused";
static const char *k_accepted = "a call with wrong arguments did not throw";
static const char *k_ran = "a call with wrong arguments ran the function";
static const char *k_wrote = "a call with wrong arguments wrote to its destination";
static const char *k_again = "a function does not give the same value after a call that threw";
static const char *k_error = "an exception thrown by a function did not reach the caller";
static const char *k_leak = "calls leave memory behind";
static const char *k_live = "function objects are not destroyed once for each time they are made";
static const char *k_calls = "a function was not run once for each element";

// ---------------------------------------------------------------- the C++ functions, and what they compute on plain values
static long g_calls, g_live;
static long g_throw_at = -1; // the call at which to throw
static long g_copies, g_copy_throw_at = -1;
static void called() {
  if (++g_calls == g_throw_at)
    throw std::range_error("the function had enough");
}
enum Ty { TI, TL, TD, TS, TB };
static const char *ty_txt[] = {"int32", "int64", "float64", "string", "bool"};
static int w(unsigned x) { return (int)x; }
static int to_int(double d) { return d > -1e6 && d < 1e6 ? (int)d : 7; }
static std::string str_of(const dynd::string &s) { return std::string(s.begin(), s.end()); }

static int i_neg(int x) { called(); return w(3u - (unsigned)x); }
static double i_half(int x) { called(); return x / 2.0; }
static int d_int(double x) { called(); return to_int(x); }
static double d_inc(double x) { called(); return x + 1.25; }
static int64_t i_long(int x) { called(); return (int64_t)x * 4294967297LL; }
static int l_int(int64_t x) { called(); return (int)(uint32_t)((uint64_t)x >> 32) + 1; }
static dynd::string i_str(int x) { called(); return dynd::string("<" + std::to_string(x) + ">"); }
static int s_len(dynd::string s) { called(); return (int)s.size() * 3 + (s.size() ? s.begin()[0] : 0); }
static dynd::string s_twice(dynd::string s) { called(); std::string t = str_of(s); return dynd::string(t + "/" + t); }
static int ii_mix(int a, int b) { called(); return w((unsigned)a * 2u - (unsigned)b); }
static double id_mix(int a, double b) { called(); return a - b * 2; }
static int di_mix(double a, int b) { called(); return w((unsigned)to_int(a) * 5u + (unsigned)b); }
static dynd::string si_mix(dynd::string s, int n) { called(); return dynd::string(std::to_string(n) + str_of(s)); }
static int ss_mix(dynd::string s, dynd::string t) { called(); return (int)s.size() * 10 - (int)t.size(); }
static int iii_mix(int a, int b, int c) { called(); return w((unsigned)a * 7u + (unsigned)b * 3u - (unsigned)c); }
static double did_mix(double a, int b, double c) { called(); return a * 4 - b + c / 2; }
static int iiii_mix(int a, int b, int c, int d) { called(); return w((unsigned)a * 11u + (unsigned)b * 7u + (unsigned)c * 3u - (unsigned)d); }
static int none_i() { called(); return 42; }
static bool i_odd(int x) { called(); return x & 1; }
static int b_int(bool b) { called(); return b ? 17 : -4; }
static bool d_neg(double x) { called(); return x < 0; }
static bool s_short(dynd::string s) { called(); return s.size() < 3; }

typedef std::function<Val(const std::vector<Val> &)> Ref;
static int vi(const Val &v) { return (int)v.i; }
static Val VI(long long x) { return Val::I(x); }
static Val VB(bool b) { return Val::I(b); }

struct Fn {
  nd::callable f;
  std::vector<Ty> args; // positional, then keywords
  int nkw = 0;
  Ty ret = TI;
  Ref ref;
  std::string desc;
};
static const char *kw_name[] = {"alpha", "beta", "gamma", "delta"};

struct Counted { // keeps something on the heap, so that a copy which is never destroyed shows
  std::string *mem;
  Counted() : mem(new std::string("some state held by a function object")) { ++g_live; }
  Counted(const Counted &) : Counted() {
    if (++g_copies == g_copy_throw_at) // the destructor is run, as the constructor delegated to has ended
      throw std::range_error("the function object had enough");
  }
  Counted &operator=(const Counted &) { return *this; }
  ~Counted() {
    --g_live;
    delete mem;
  }
};
template <class T> struct Plain { typedef T type; };
template <class Sig, Sig *F> struct Wrap;
template <class R, class... A, R (*F)(A...)> struct Wrap<R(A...), F> {
  typedef R (*ptr)(A...);
  struct Obj : Counted {
    std::string near = "near by"; // kept inside the object
    R operator()(A... a) const {
      if (near != "near by" || *mem != "some state held by a function object")
        throw std::logic_error("a function object lost what it holds: " + near);
      return F(a...);
    }
  };
  struct Mem {
    R run(A... a) { return F(a...); }
  };
  static Mem &mem() {
    static Mem m;
    return m;
  }
  template <class... N> static nd::callable make(int form, const N &... names) {
    switch (form) {
    case 0: return fn::apply<ptr, F>(names...);
    case 1: return fn::apply(Obj(), names...);
    case 2: return fn::apply(F, names...);
    default: return fn::apply(&mem(), &Mem::run, names...);
    }
  }
};
// keywords bound to the last parameters; strings cannot be keywords of a C++ function
template <size_t N> struct Names;
template <> struct Names<0> {
  template <class W> static nd::callable go(int form, int) { return W::make(form); }
};
template <> struct Names<1> {
  template <class W> static nd::callable go(int form, int k) { return k == 0 ? W::make(form) : W::make(form, "alpha"); }
};
template <> struct Names<2> {
  template <class W> static nd::callable go(int form, int k) { return k < 2 ? Names<1>::go<W>(form, k) : W::make(form, "alpha", "beta"); }
};
template <> struct Names<3> {
  template <class W> static nd::callable go(int form, int k) { return k < 3 ? Names<2>::go<W>(form, k) : W::make(form, "alpha", "beta", "gamma"); }
};
template <> struct Names<4> {
  template <class W> static nd::callable go(int form, int k) { return k < 4 ? Names<3>::go<W>(form, k) : W::make(form, "alpha", "beta", "gamma", "delta"); }
};
// constructed from keywords, then called
struct Then0 : Counted {
  int operator()(int a, int b, int c) const { return iii_mix(a, b, c); }
};
struct Then1 : Counted {
  int k;
  Then1(int k) : k(k) {}
  int operator()(int a, int b) const { return iii_mix(a, b, k); }
};
struct Then2 : Counted {
  int k;
  double x;
  Then2(int k, double x) : k(k), x(x) {}
  double operator()(double a) const { return did_mix(a, k, x); }
};
struct Then3 : Counted {
  int a, b, c;
  Then3(int a, int b, int c) : a(a), b(b), c(c) {}
  int operator()() const { return iii_mix(a, b, c); }
};

static Val r_iii(const std::vector<Val> &v) { return VI(w((unsigned)vi(v[0]) * 7u + (unsigned)vi(v[1]) * 3u - (unsigned)vi(v[2]))); }
static Val r_did(const std::vector<Val> &v) { return Val::F(v[0].d * 4 - vi(v[1]) + v[2].d / 2); }

struct Proto {
  const char *name;
  std::vector<Ty> args;
  Ty ret;
  nd::callable (*make)(int, int);
  Ref ref;
  bool kw; // may take keywords
};
#define MAKE(N, F) [](int form, int k) { return Names<N>::go<Wrap<decltype(F), F>>(form, k); }
static const std::vector<Proto> &protos() {
  static std::vector<Proto> p = {
      {"3-x", {TI}, TI, MAKE(1, i_neg), [](const std::vector<Val> &v) { return VI(w(3u - (unsigned)vi(v[0]))); }, true},
      {"x/2.0", {TI}, TD, MAKE(1, i_half), [](const std::vector<Val> &v) { return Val::F(vi(v[0]) / 2.0); }, true},
      {"int(x)", {TD}, TI, MAKE(1, d_int), [](const std::vector<Val> &v) { return VI(to_int(v[0].d)); }, true},
      {"x+1.25", {TD}, TD, MAKE(1, d_inc), [](const std::vector<Val> &v) { return Val::F(v[0].d + 1.25); }, true},
      {"long(x)", {TI}, TL, MAKE(1, i_long), [](const std::vector<Val> &v) { return VI((int64_t)vi(v[0]) * 4294967297LL); }, true},
      {"high(x)", {TL}, TI, MAKE(1, l_int), [](const std::vector<Val> &v) { return VI((int)(uint32_t)((uint64_t)(int64_t)v[0].i >> 32) + 1); }, true},
      {"<x>", {TI}, TS, MAKE(1, i_str), [](const std::vector<Val> &v) { return Val::S("<" + std::to_string(vi(v[0])) + ">"); }, true},
      {"len(s)", {TS}, TI, MAKE(0, s_len), [](const std::vector<Val> &v) { return VI((int)v[0].s.size() * 3 + (v[0].s.size() ? v[0].s[0] : 0)); }, false},
      {"s/s", {TS}, TS, MAKE(0, s_twice), [](const std::vector<Val> &v) { return Val::S(v[0].s + "/" + v[0].s); }, false},
      {"2a-b", {TI, TI}, TI, MAKE(2, ii_mix), [](const std::vector<Val> &v) { return VI(w((unsigned)vi(v[0]) * 2u - (unsigned)vi(v[1]))); }, true},
      {"a-2b", {TI, TD}, TD, MAKE(2, id_mix), [](const std::vector<Val> &v) { return Val::F(vi(v[0]) - v[1].d * 2); }, true},
      {"5a+b", {TD, TI}, TI, MAKE(2, di_mix), [](const std::vector<Val> &v) { return VI(w((unsigned)to_int(v[0].d) * 5u + (unsigned)vi(v[1]))); }, true},
      {"n s", {TS, TI}, TS, MAKE(1, si_mix), [](const std::vector<Val> &v) { return Val::S(std::to_string(vi(v[1])) + v[0].s); }, true},
      {"10|s|-|t|", {TS, TS}, TI, MAKE(0, ss_mix), [](const std::vector<Val> &v) { return VI((int)v[0].s.size() * 10 - (int)v[1].s.size()); }, false},
      {"7a+3b-c", {TI, TI, TI}, TI, MAKE(3, iii_mix), r_iii, true},
      {"4a-b+c/2", {TD, TI, TD}, TD, MAKE(3, did_mix), r_did, true},
      {"11a+7b+3c-d", {TI, TI, TI, TI}, TI, MAKE(4, iiii_mix),
       [](const std::vector<Val> &v) { return VI(w((unsigned)vi(v[0]) * 11u + (unsigned)vi(v[1]) * 7u + (unsigned)vi(v[2]) * 3u - (unsigned)vi(v[3]))); }, true},
      {"42", {}, TI, MAKE(0, none_i), [](const std::vector<Val> &) { return VI(42); }, false},
      {"odd(x)", {TI}, TB, MAKE(1, i_odd), [](const std::vector<Val> &v) { return VB(vi(v[0]) & 1); }, true},
      {"b?17:-4", {TB}, TI, MAKE(1, b_int), [](const std::vector<Val> &v) { return VI(v[0].i ? 17 : -4); }, true},
      {"x<0", {TD}, TB, MAKE(1, d_neg), [](const std::vector<Val> &v) { return VB(v[0].d < 0); }, true},
      {"short(s)", {TS}, TB, MAKE(0, s_short), [](const std::vector<Val> &v) { return VB(v[0].s.size() < 3); }, false},
  };
  return p;
}
static Fn leaf_of(Ctx &c, const Proto &p, bool kw) {
  Fn f;
  f.args = p.args;
  f.ret = p.ret;
  f.ref = p.ref;
  int form = (int)c.rng.below(4);
  int most = p.args.size() && p.args[0] == TS ? (int)p.args.size() - 1 : (int)p.args.size();
  f.nkw = kw && p.kw ? (int)c.rng.below(most + 1) : 0;
  if (f.args.size() == 3 && c.rng.chance(1, 3)) { // constructed from keywords
    if (p.ret == TI) {
      f.nkw = kw ? (int)c.rng.pick(std::vector<int>{0, 1, 3}) : 0;
      f.f = f.nkw == 0 ? fn::apply<Then0>() : f.nkw == 1 ? fn::apply<Then1, int>("alpha") : fn::apply<Then3, int, int, int>("alpha", "beta", "gamma");
      f.desc = vf::cat("then", f.nkw, "(", p.name, ")");
      return f;
    } else if (kw) {
      f.nkw = 2;
      f.f = fn::apply<Then2, int, double>("alpha", "beta");
      f.desc = vf::cat("then2(", p.name, ")");
      return f;
    }
  }
  f.f = p.make(form, f.nkw);
  static const char *forms[] = {"fp<>", "obj", "fp", "mem"};
  f.desc = vf::cat(forms[form], f.nkw, "(", p.name, ")");
  return f;
}
static Fn leaf(Ctx &c, bool kw, std::function<bool(const Proto &)> want = nullptr) {
  std::vector<const Proto *> in;
  for (const Proto &p : protos())
    if (!want || want(p))
      in.push_back(&p);
  return leaf_of(c, *in[c.rng.below(in.size())], kw);
}
// a function of scalars, combined from others; no keywords below a composition
static Fn gen(Ctx &c, int depth, bool kw, std::function<bool(const Fn &)> want = nullptr);
static Fn unary_from(Ctx &c, Ty t, int depth) {
  return gen(c, depth, false, [t](const Fn &f) { return f.args.size() == 1 && f.nkw == 0 && f.args[0] == t; });
}
static Fn gen_any(Ctx &c, int depth, bool kw) {
  switch (depth <= 0 ? 0 : c.rng.below(4)) {
  case 1: {
    Fn a = gen(c, depth - 1, false, [](const Fn &f) { return f.args.size() == 1 && f.nkw == 0; });
    Fn b = unary_from(c, a.ret, depth - 1);
    Fn r;
    r.args = a.args;
    r.ret = b.ret;
    r.f = fn::compose(a.f, b.f, ndt::type(ty_txt[a.ret]));
    Ref x = a.ref, y = b.ref;
    r.ref = [x, y](const std::vector<Val> &v) { return y({x(v)}); };
    r.desc = vf::cat("compose(", a.desc, ", ", b.desc, ")");
    return r;
  }
  case 2: {
    Fn a = gen(c, depth - 1, kw, [](const Fn &f) { return f.args.size() > (size_t)f.nkw && f.args.size() - f.nkw < 8; });
    a.f = fn::elwise(a.f);
    a.desc = "elwise(" + a.desc + ")";
    return a;
  }
  case 3: {
    Fn a = gen(c, depth - 1, kw, [](const Fn &f) { return f.args.size() > (size_t)f.nkw && f.args.size() - f.nkw < 4; });
    a.f = fn::outer(a.f);
    a.desc = "outer(" + a.desc + ")";
    return a;
  }
  default:
    return leaf(c, kw);
  }
}
static bool lifted(const Fn &f) { return f.desc.compare(0, 6, "elwise") == 0 || f.desc.compare(0, 5, "outer") == 0; }
static Fn gen(Ctx &c, int depth, bool kw, std::function<bool(const Fn &)> want) {
  for (int k = 0; k < 5; ++k) {
    Fn f = gen_any(c, depth, kw);
    if (!want || want(f))
      return f;
  }
  for (;;) {
    Fn f = leaf(c, false);
    if (!want || want(f))
      return f;
  }
}

// ---------------------------------------------------------------- arguments
static Val rnd(Ctx &c, Ty t) {
  switch (t) {
  case TI: return VI(c.rng.chance(1, 8) ? (int)c.rng.next() : (int)c.rng.below(200) - 100);
  case TL: return VI(c.rng.chance(1, 4) ? (int64_t)c.rng.next() : (int64_t)c.rng.below(200) - 100);
  case TD: return Val::F(((double)c.rng.below(2000) - 1000) / 8);
  case TB: return VB(c.rng.coin());
  default: {
    std::string s;
    int n = (int)c.rng.below(c.rng.chance(1, 6) ? 40 : 6);
    for (int i = 0; i < n; ++i)
      s += (char)('a' + c.rng.below(26));
    return Val::S(s);
  }
  }
}
static void put(Ty t, char *p, const Val &v) {
  switch (t) {
  case TI: *(int *)p = (int)v.i; break;
  case TL: *(int64_t *)p = (int64_t)v.i; break;
  case TD: *(double *)p = v.d; break;
  case TB: *(bool *)p = v.i != 0; break;
  case TS: reinterpret_cast<dynd::string *>(p)->assign(v.s.data(), v.s.size()); break;
  }
}
static nd::array scalar(Ty t, const Val &v) {
  nd::array a = nd::empty(ndt::type(ty_txt[t]));
  put(t, a.data(), v);
  return a;
}
static void fill(Ctx &c, Ty t, const ag::Node &n) {
  std::vector<const ag::Node *> l;
  ag::leaves(n, l);
  for (const ag::Node *x : l)
    put(t, x->at, rnd(c, t));
}
struct Arg {
  nd::array a, owner;
  std::vector<intptr_t> shape;
  Val v;
};
static Arg array_of(Ctx &c, Ty t, const std::vector<intptr_t> &shape) {
  Arg g;
  g.shape = shape;
  ag::View view = ag::make_view(c, ndt::type(ty_txt[t]), shape, ag::gen_layout(c, false), ag::FillOpts(), nd::read_access_flag | nd::write_access_flag);
  fill(c, t, ag::tree(view.a));
  g.a = view.a;
  g.owner = view.owner;
  g.v = dv::read(g.a);
  return g;
}
static nd::array call(const Fn &f, const std::vector<nd::array> &args, const std::vector<std::pair<const char *, nd::array>> &kw) {
  std::vector<nd::array> a(args);
  std::vector<std::pair<const char *, nd::array>> k(kw);
  return nd::callable(f.f).call(a.size(), a.data(), k.size(), k.data());
}
// splits scalar keyword values off into positions or keywords in some order
struct Call {
  std::vector<nd::array> pos;
  std::vector<std::pair<const char *, nd::array>> kw;
};
static Call arrange(Ctx &c, const Fn &f, const std::vector<nd::array> &all) {
  Call r;
  size_t npos = f.args.size() - f.nkw, extra = c.rng.chance(1, 3) ? c.rng.below(f.nkw + 1) : 0;
  for (size_t i = 0; i < npos + extra; ++i)
    r.pos.push_back(all[i]);
  for (size_t i = npos + extra; i < all.size(); ++i)
    r.kw.push_back({kw_name[i - npos], all[i]});
  for (size_t i = r.kw.size(); i > 1; --i)
    std::swap(r.kw[i - 1], r.kw[c.rng.below(i)]);
  return r;
}

static std::vector<intptr_t> sub_shape(Ctx &c, const std::vector<intptr_t> &out) { // broadcasts to out
  size_t drop = c.rng.below(out.size() + 1);
  if (c.rng.chance(1, 2))
    drop = 0;
  std::vector<intptr_t> s(out.begin() + drop, out.end());
  for (auto &x : s)
    if (c.rng.chance(1, 5))
      x = 1;
  return s;
}
static const Val &elem_at(const Val &v, const std::vector<intptr_t> &shape, const std::vector<intptr_t> &idx) {
  const Val *p = &v;
  size_t skip = idx.size() - shape.size();
  for (size_t d = 0; d < shape.size(); ++d)
    p = &p->kids[shape[d] == 1 ? 0 : idx[skip + d]];
  return *p;
}
static Val build(const std::vector<intptr_t> &shape, std::vector<intptr_t> &idx, const std::function<Val(const std::vector<intptr_t> &)> &leaf) {
  if (idx.size() == shape.size())
    return leaf(idx);
  Val v;
  v.k = Val::Seq;
  size_t d = idx.size();
  for (intptr_t i = 0; i < shape[d]; ++i) {
    idx.push_back(i);
    v.kids.push_back(build(shape, idx, leaf));
    idx.pop_back();
  }
  return v;
}
static std::string spell(const std::vector<intptr_t> &shape) {
  std::string s;
  for (intptr_t n : shape)
    s += std::to_string(n) + " * ";
  return s;
}
static std::string where_am_i(const Fn &f, const std::vector<Arg> &g) {
  std::string s = f.desc;
  for (const Arg &x : g)
    s += vf::cat(" ", x.a.get_type().str(), " ", dv::show(x.v).substr(0, 120));
  return s;
}

// one call of f at known arguments, with all that may go wrong around it
static void exercise(Ctx &c, const Fn &f, std::vector<Arg> &g, const Val &want, const std::string &want_tp, long ncalls, const std::string &buf_tp) {
  bool arrays = false;
  for (Arg &x : g)
    arrays = arrays || !x.shape.empty();
  size_t paren = f.desc.find('(');
  bool twice = arrays && (f.desc.find("elwise", paren) != std::string::npos || f.desc.find("outer", paren) != std::string::npos);
  std::vector<nd::array> all;
  for (Arg &x : g)
    all.push_back(x.a);
  c.describe(where_am_i(f, g));
  auto judge = [&](const char *key) {
    Call k = arrange(c, f, all);
    nd::array r, dst;
    if (c.rng.chance(1, 3)) {
      dst = nd::empty(ndt::type(buf_tp));
      k.kw.insert(k.kw.begin() + c.rng.below(k.kw.size() + 1), {"dst", dst});
    }
    g_calls = 0;
    auto o = dv::attempt([&] { r = call(f, k.pos, k.kw); });
    if (!o.ok && twice) { // lifting what is lifted already may be refused
      c.check(g_calls == 0, k_ran, [&] { return vf::cat(where_am_i(f, g), " ran ", g_calls, " functions and then: ", o.msg); });
      c.saw("lifted twice, refused", vf::hash_str(f.desc));
      return false;
    }
    if (!c.check(o.ok, k_threw, [&] { return vf::cat(where_am_i(f, g), ": ", o.cls, " ", o.msg); }))
      return false;
    long n = g_calls;
    if (!c.check(dv::read(r) == want, key, [&] { return vf::cat(where_am_i(f, g), " gives ", dv::show(dv::read(r)), " instead of ", dv::show(want)); }))
      return false;
    c.check(r.get_type() == ndt::type(want_tp), k_type, [&] { return vf::cat(where_am_i(f, g), " gives ", r.get_type().str(), " instead of ", want_tp); });
    c.check(dst.is_null() || r.get() == dst.get(), k_value, [&] { return vf::cat(where_am_i(f, g), " does not return its dst"); });
    if (ncalls >= 0)
      c.check(n == ncalls, k_calls, [&] { return vf::cat(where_am_i(f, g), " ran ", n, " functions instead of ", ncalls); });
    return true;
  };
  if (!judge(k_value))
    return;
  // an exception from the function itself
  if (ncalls > 0 && c.rng.chance(1, 2)) {
    Call k = arrange(c, f, all);
    nd::array dst;
    if (!twice && c.rng.chance(1, 2)) {
      dst = nd::empty(ndt::type(buf_tp));
      k.kw.push_back({"dst", dst});
    }
    g_calls = 0;
    g_throw_at = 1 + (long)c.rng.below(ncalls);
    auto o = dv::attempt([&] { call(f, k.pos, k.kw); });
    long n = g_calls, at = g_throw_at;
    g_throw_at = -1;
    c.check(!o.ok && o.msg.find("had enough") != std::string::npos, k_error, [&] { return vf::cat(where_am_i(f, g), ": ", o.ok ? "returned" : o.cls + " " + o.msg); });
    c.check(n == at, k_calls, [&] { return vf::cat(where_am_i(f, g), " went on for ", n - at, " calls after an exception"); });
    c.saw("thrown at", vf::mix(vf::hash_str(f.desc), at));
    if (!judge(k_again))
      return;
  }
  // an exception from copying a function object
  if (c.rng.chance(1, 3)) {
    Call k = arrange(c, f, all);
    g_copies = 0;
    auto o = dv::attempt([&] { call(f, k.pos, k.kw); });
    long n = g_copies;
    if (o.ok && n > 0) {
      g_copies = 0;
      g_copy_throw_at = 1 + (long)c.rng.below(n);
      g_calls = 0;
      o = dv::attempt([&] { call(f, k.pos, k.kw); });
      g_copy_throw_at = -1;
      c.check(!o.ok && o.msg.find("had enough") != std::string::npos, k_error, [&] { return vf::cat(where_am_i(f, g), ": ", o.ok ? "returned" : o.cls + " " + o.msg); });
      c.check(g_calls == 0, k_ran, [&] { return vf::cat(where_am_i(f, g), " ran ", g_calls, " functions although one could not be copied"); });
      if (!judge(k_again))
        return;
    }
  }
  // a wrong call
  Call k = arrange(c, f, all);
  size_t npos = f.args.size() - f.nkw;
  std::string what;
  auto wrong_type = [&](Ty t) { return t == TS ? nd::array(1.5) : t == TD ? nd::array(7) : nd::array("wrong"); };
  switch (c.rng.below(7)) {
  case 0:
    if (npos == 0 && k.pos.empty())
      return;
    if (k.pos.size() > npos || f.nkw == 0 || true) {
      if (k.pos.empty())
        return;
      k.pos.pop_back();
      if (k.pos.size() >= npos) { // a keyword given by position is missing now
      }
      what = "an argument missing";
    }
    break;
  case 1:
    while (k.pos.size() < f.args.size() + 1)
      k.pos.push_back(scalar(TI, VI(5)));
    k.kw.clear();
    what = "an argument too many";
    break;
  case 2: {
    if (f.args.empty())
      return;
    size_t i = c.rng.below(f.args.size());
    nd::array bad = wrong_type(f.args[i]);
    if (i < k.pos.size())
      k.pos[i] = bad;
    else
      for (auto &x : k.kw)
        if (std::string(x.first) == kw_name[i - npos])
          x.second = bad;
    what = "an argument of another type";
    break;
  }
  case 3:
    k.kw.push_back({"omega", scalar(TI, VI(1))});
    what = "an unknown keyword";
    break;
  case 4:
    if (k.kw.empty())
      return;
    k.kw.push_back(k.kw[c.rng.below(k.kw.size())]);
    what = "a keyword given twice";
    break;
  case 5:
    if (k.kw.empty())
      return;
    k.kw.erase(k.kw.begin() + c.rng.below(k.kw.size()));
    what = "a keyword missing";
    break;
  case 6: {
    static const char *other[] = {"7 * int16", "int16", "string", "13 * float64", "5 * 5 * 5 * 5 * int32", "{x: int32}", "bool", "bytes"};
    std::string t = other[c.rng.below(8)];
    if (ndt::type(t).get_dtype() == ndt::type(want_tp).get_dtype())
      return;
    nd::array dst = nd::empty(ndt::type(t));
    k.kw.push_back({"dst", dst});
    what = "a dst of another type";
    break;
  }
  }
  bool has_dst = false;
  for (auto &x : k.kw)
    has_dst = has_dst || std::string(x.first) == "dst";
  nd::array dst;
  Val before;
  if (!has_dst) {
    dst = nd::empty(ndt::type(buf_tp));
    ag::FillOpts fo;
    ag::fill(c, dst.get_type(), dst.get()->metadata(), dst.data(), fo);
    before = dv::read(dst);
    if (c.rng.coin())
      k.kw.push_back({"dst", dst});
  }
  g_calls = 0;
  auto o = dv::attempt([&] { call(f, k.pos, k.kw); });
  c.saw("wrong call", vf::mix(vf::hash_str(what), vf::hash_str(f.desc)));
  c.check(!o.ok, k_accepted, [&] { return vf::cat(where_am_i(f, g), ", ", what); });
  c.check(g_calls == 0, k_ran, [&] { return vf::cat(where_am_i(f, g), ", ", what, ": ran ", g_calls); });
  if (!dst.is_null())
    c.check(dv::read(dst) == before, k_wrote, [&] { return vf::cat(where_am_i(f, g), ", ", what, ": ", dv::show(before), " became ", dv::show(dv::read(dst))); });
  judge(k_again);
}
// runs body three times with the same choices, and judges the balance
static void balanced(Ctx &c, const std::function<void()> &body) {
  auto saved = c.rng;
  size_t bal[3];
  for (int turn = 0; turn < 3; ++turn) {
    c.rng = saved;
    size_t h0 = vf::heap_bytes();
    long l0 = g_live;
    body();
    bal[turn] = vf::heap_bytes() - h0;
    if (!c.check(g_live == l0, k_live, [&] { return vf::cat(c.current, " leaves ", g_live - l0); })) {
      g_live = l0;
      return;
    }
  }
  c.check(bal[1] == 0 || bal[2] == 0, k_leak, [&] { return vf::cat(c.current, " leaves ", (long)bal[1], " then ", (long)bal[2], " bytes"); });
}
static long leaves_in(const std::string &desc) { // C++ functions run per element: one per leaf
  long n = 0;
  for (size_t i = 0; i + 1 < desc.size(); ++i)
    for (const char *p : {"fp<>", "obj", "mem", "then"})
      n += desc.compare(i, strlen(p), p) == 0;
  for (size_t i = 0; i + 2 < desc.size(); ++i)
    n += desc.compare(i, 2, "fp") == 0 && desc[i + 2] != '<';
  return n;
}

static void scalars(Ctx &c) {
  balanced(c, [&] {
    Fn f = gen(c, 4, true);
    std::vector<Arg> g;
    std::vector<Val> v;
    for (Ty t : f.args) {
      Arg x;
      x.v = rnd(c, t);
      x.a = scalar(t, x.v);
      g.push_back(x);
      v.push_back(x.v);
    }
    c.saw("function of scalars", vf::hash_str(f.desc));
    if (c.idx < 3)
      c.sample(f.desc);
    exercise(c, f, g, f.ref(v), ty_txt[f.ret], leaves_in(f.desc), ty_txt[f.ret]);
  });
}
static void elwise(Ctx &c) {
  balanced(c, [&] {
    Fn f = gen(c, 3, true, [](const Fn &x) { return x.args.size() > (size_t)x.nkw && x.desc.find("outer") == std::string::npos; });
    std::string inner = f.desc;
    f.f = fn::elwise(f.f);
    f.desc = "elwise(" + f.desc + ")";
    size_t npos = f.args.size() - f.nkw;
    std::vector<intptr_t> out = ag::gen_shape(c, 3, 4);
    if (c.rng.chance(1, 5) && !out.empty()) // past the size of the pieces that a composition works in
      out = {c.rng.pick(std::vector<int>{127, 128, 129, 255, 256, 257, 300})};
    std::vector<Arg> g;
    std::vector<std::vector<intptr_t>> shp;
    for (size_t i = 0; i < npos; ++i)
      shp.push_back(sub_shape(c, out));
    shp[c.rng.below(npos)] = out; // one gives the shape
    for (size_t i = 0; i < npos; ++i)
      g.push_back(array_of(c, f.args[i], shp[i]));
    for (size_t i = npos; i < f.args.size(); ++i) {
      Arg x;
      x.v = rnd(c, f.args[i]);
      x.a = scalar(f.args[i], x.v);
      g.push_back(x);
    }
    std::vector<intptr_t> idx;
    long n = 0;
    Val want = build(out, idx, [&](const std::vector<intptr_t> &ix) {
      std::vector<Val> v;
      for (Arg &x : g)
        v.push_back(elem_at(x.v, x.shape, ix));
      ++n;
      return f.ref(v);
    });
    c.saw("lifted function", vf::hash_str(f.desc));
    c.saw("shape", vf::hash_str(spell(out)));
    std::string tp = spell(out) + ty_txt[f.ret];
    exercise(c, f, g, want, tp, n * leaves_in(f.desc), tp);
  });
}
static void outer_product(Ctx &c) {
  balanced(c, [&] {
    Fn f = gen(c, 3, true, [](const Fn &x) { return x.args.size() > (size_t)x.nkw && x.args.size() - x.nkw < 4 && x.desc.find("elwise") == std::string::npos; });
    f.f = fn::outer(f.f);
    f.desc = "outer(" + f.desc + ")";
    size_t npos = f.args.size() - f.nkw;
    std::vector<Arg> g;
    std::vector<intptr_t> out;
    for (size_t i = 0; i < npos; ++i) {
      g.push_back(array_of(c, f.args[i], ag::gen_shape(c, 2, 4)));
      out.insert(out.end(), g[i].shape.begin(), g[i].shape.end());
    }
    for (size_t i = npos; i < f.args.size(); ++i) {
      Arg x;
      x.v = rnd(c, f.args[i]);
      x.a = scalar(f.args[i], x.v);
      g.push_back(x);
    }
    std::vector<intptr_t> idx;
    long n = 0;
    Val want = build(out, idx, [&](const std::vector<intptr_t> &ix) {
      std::vector<Val> v;
      size_t k = 0;
      for (Arg &x : g) {
        const Val *p = &x.v;
        for (size_t d = 0; d < x.shape.size(); ++d)
          p = &p->kids[ix[k++]];
        v.push_back(*p);
      }
      ++n;
      return f.ref(v);
    });
    c.saw("outer function", vf::hash_str(f.desc));
    c.saw("outer shape", vf::hash_str(spell(out)));
    std::string tp = spell(out) + ty_txt[f.ret];
    exercise(c, f, g, want, tp, n * leaves_in(f.desc), tp);
  });
}
static void where(Ctx &c) {
  balanced(c, [&] {
    Fn f = gen(c, 2, false, [](const Fn &x) { return x.args.size() == 1 && x.ret == TB; });
    f.f = fn::where(f.f);
    f.desc = "where(" + f.desc + ")";
    std::vector<Arg> g{array_of(c, f.args[0], {(intptr_t)c.rng.below(c.rng.chance(1, 4) ? 200 : 12)})};
    Val want;
    want.k = Val::Seq;
    for (size_t i = 0; i < g[0].v.kids.size(); ++i)
      if (f.ref({g[0].v.kids[i]}).i)
        want.kids.push_back(Val::L({VI((long long)i)}));
    c.saw("condition", vf::hash_str(f.desc));
    c.saw("where it holds", dv::hash(want));
    exercise(c, f, g, want, "var * 1 * intptr", (long)g[0].v.kids.size() * leaves_in(f.desc), "var * 1 * intptr");
  });
}
static void compound(Ctx &c) {
  balanced(c, [&] {
    bool left = c.rng.coin();
    Fn f = gen(c, 2, false, [&](const Fn &x) { return x.args.size() == 2 && x.args[left ? 0 : 1] == x.ret && !lifted(x); });
    Ty other = f.args[left ? 1 : 0];
    Ref child = f.ref;
    f.f = left ? fn::left_compound(f.f) : fn::right_compound(f.f);
    f.desc = vf::cat(left ? "left" : "right", "_compound(", f.desc, ")");
    std::vector<intptr_t> shape;
    if (c.rng.coin()) {
      f.f = fn::elwise(f.f);
      f.desc = "elwise(" + f.desc + ")";
      shape = ag::gen_shape(c, 2, 4);
    }
    Arg src = array_of(c, other, sub_shape(c, shape));
    nd::array dst = nd::empty(ndt::type(spell(shape) + ty_txt[f.ret]));
    fill(c, f.ret, ag::tree(dst));
    Val want = dv::read(dst);
    c.describe(vf::cat(f.desc, " ", src.a.get_type().str(), " ", dv::show(src.v), " dst ", dv::show(want)));
    c.saw("compound", vf::hash_str(f.desc));
    for (int k = 0; k < 3; ++k) {
      std::vector<intptr_t> idx;
      Val was = want;
      want = build(shape, idx, [&](const std::vector<intptr_t> &ix) {
        Val d = elem_at(was, shape, ix), s = elem_at(src.v, src.shape, ix);
        return left ? child({d, s}) : child({s, d});
      });
      // a size of one is not broadcast above
      auto o = dv::attempt([&] { call(f, {src.a}, {{"dst", dst}}); });
      if (!c.check(o.ok, k_threw, [&] { return vf::cat(c.current, ": ", o.cls, " ", o.msg); }))
        return;
      if (!c.check(dv::read(dst) == want, k_value, [&] { return vf::cat(c.current, " gives ", dv::show(dv::read(dst)), " instead of ", dv::show(want)); }))
        return;
    }
  });
}
static void constant(Ctx &c) {
  balanced(c, [&] {
    ag::TypeOpts o;
    ndt::type tp(ag::gen_type(c, o));
    ag::FillOpts fo;
    nd::array val = ag::filled(c, tp, fo);
    Val want = dv::read(val);
    nd::callable f = fn::constant(val);
    c.describe(vf::cat("constant(", tp.str(), " ", dv::show(want), ")"));
    c.saw("constant", vf::hash_str(tp.str()));
    for (int k = 0; k < 3; ++k) {
      std::vector<nd::array> args;
      for (size_t n = c.rng.below(4); n > 0; --n)
        args.push_back(scalar((Ty)c.rng.below(5), rnd(c, TI)).is_null() ? nd::array() : nd::array(3));
      std::vector<std::pair<const char *, nd::array>> kw;
      if (c.rng.chance(1, 3))
        kw.push_back({"dst", nd::empty(tp)});
      nd::array r;
      auto q = dv::attempt([&] { r = f.call(args.size(), args.data(), kw.size(), kw.data()); });
      if (!q.ok) { // not every type can be assigned to itself
        auto a = dv::attempt([&] { nd::empty(tp).assign(val); });
        c.check(!a.ok, k_threw, [&] { return vf::cat(c.current, ": ", q.cls, " ", q.msg); });
        c.saw("constant refused", vf::hash_str(tp.str()));
        return;
      }
      if (!c.check(dv::read(r) == want, k_value, [&] { return vf::cat(c.current, " gives ", dv::show(dv::read(r))); }))
        return;
      if (k == 1) { // what was returned belongs to the caller
        std::vector<const ag::Node *> l;
        ag::Node t = ag::tree(r);
        ag::leaves(t, l);
        for (const ag::Node *x : l)
          if (r.get_flags() & nd::write_access_flag)
            ag::fill_leaf(c, x->tp, x->at, fo);
        c.check(dv::read(val) == want, k_value, [&] { return vf::cat(c.current, " became ", dv::show(dv::read(val)), " when its result was written"); });
      }
    }
  });
}
static int na_add(int a, int b) { called(); return w((unsigned)a * 2u - (unsigned)b); }
static void forward(Ctx &c) {
  balanced(c, [&] {
    int which = (int)c.rng.below(3);
    nd::callable child = Wrap<decltype(na_add), na_add>::make((int)c.rng.below(4)), f;
    std::string desc = vf::cat("forward_na", which);
    bool opt[2] = {which != 1, which != 0};
    f = which == 0 ? fn::forward_na<0>(child) : which == 1 ? fn::forward_na<1>(child) : fn::forward_na<0, 1>(child);
    std::vector<intptr_t> shape;
    if (c.rng.coin()) {
      f = fn::elwise(f);
      shape = ag::gen_shape(c, 2, 4);
      desc = "elwise(" + desc + ")";
    }
    Arg g[2];
    for (int i = 0; i < 2; ++i) {
      g[i] = array_of(c, TI, sub_shape(c, shape));
      if (opt[i]) {
        nd::array o = nd::empty(ndt::type(spell(g[i].shape) + "?int32"));
        ag::Node t = ag::tree(o);
        std::vector<const ag::Node *> l;
        ag::leaves(t, l);
        for (const ag::Node *x : l)
          *(int *)x->at = c.rng.chance(1, 4) ? INT_MIN : (int)c.rng.below(1000) - 500;
        g[i].a = o;
        g[i].v = dv::read(o);
      }
    }
    // the shape of the result
    std::vector<intptr_t> out = g[0].shape.size() > g[1].shape.size() ? g[0].shape : g[1].shape;
    for (Arg &x : g)
      for (size_t d = 0; d < x.shape.size(); ++d) {
        intptr_t &y = out[out.size() - x.shape.size() + d];
        y = y == 1 ? x.shape[d] : y;
      }
    long n = 0;
    std::vector<intptr_t> idx;
    Val want = build(out, idx, [&](const std::vector<intptr_t> &ix) {
      const Val &a = elem_at(g[0].v, g[0].shape, ix), &b = elem_at(g[1].v, g[1].shape, ix);
      if (a.k == Val::NA || b.k == Val::NA)
        return Val::N();
      ++n;
      return VI(w((unsigned)vi(a) * 2u - (unsigned)vi(b)));
    });
    c.describe(vf::cat(desc, " ", dv::show(g[0].v), " ", dv::show(g[1].v)));
    c.saw("na", vf::mix(which, dv::hash(want)));
    nd::array r;
    g_calls = 0;
    auto o = dv::attempt([&] { r = f(g[0].a, g[1].a); });
    if (!c.check(o.ok, k_threw, [&] { return vf::cat(c.current, ": ", o.cls, " ", o.msg); }))
      return;
    c.check(dv::read(r) == want, k_value, [&] { return vf::cat(c.current, " gives ", dv::show(dv::read(r)), " instead of ", dv::show(want)); });
    c.check(g_calls == n, k_calls, [&] { return vf::cat(c.current, " ran ", g_calls, " instead of ", n); });
  });
}

// combinations and calls that are not all supported: refused before anything runs, or right
static void odd(Ctx &c) {
  balanced(c, [&] {
    Fn f;
    std::vector<Arg> g;
    std::string desc;
    nd::array r, dst;
    Val want, before;
    bool may = true;
    g_calls = 0;
    dv::Outcome o;
    int kind = (int)c.rng.below(7);
    switch (kind) {
    case 0: { // keywords below a combination that has none
      Fn a = leaf(c, true, [](const Proto &p) { return p.kw && p.args.size() == 1 && p.args[0] != TS; });
      for (int k = 0; k < 40 && a.nkw == 0; ++k)
        a = leaf(c, true, [](const Proto &p) { return p.kw && p.args.size() == 1 && p.args[0] != TS; });
      Fn b = leaf(c, true, [](const Proto &p) { return p.kw && p.args.size() == 2; });
      for (int k = 0; k < 40 && b.nkw != 1; ++k)
        b = leaf(c, true, [](const Proto &p) { return p.kw && p.args.size() == 2; });
      if (b.nkw != 1 || a.nkw != 1)
        return;
      Ty t = b.args[0];
      may = false; // the keyword is missing
      int how = (int)c.rng.below(5);
      desc = vf::cat(how, " of ", b.desc);
      std::vector<nd::array> args{scalar(t, rnd(c, t))};
      nd::array d = scalar(b.ret, rnd(c, b.ret));
      if (how == 2 && b.ret != TB)
        return;
      if (how == 3 && (b.args[0] != b.ret))
        return;
      c.describe(desc);
      o = dv::attempt([&] {
        nd::callable h;
        switch (how) {
        case 0: h = fn::compose(b.f, unary_from(c, b.ret, 0).f, ndt::type(ty_txt[b.ret])); break;
        case 1: h = fn::compose(unary_from(c, TI, 0).f, b.f, ndt::type(ty_txt[b.args[0]])); break;
        case 2: h = fn::where(b.f); break;
        case 3: h = fn::left_compound(b.f); break;
        case 4: h = fn::reduction(fn::constant(d), b.f); break;
        }
        r = h.call(1, args.data(), 0, nullptr);
      });
      break;
    }
    case 1: { // more arguments than outer takes
      Fn a = leaf(c, false, [](const Proto &p) { return p.args.size() == 4; });
      std::vector<intptr_t> out;
      bool scalars = c.rng.chance(1, 3);
      for (Ty t : a.args) {
        g.push_back(array_of(c, t, scalars ? std::vector<intptr_t>() : ag::gen_shape(c, 1, 3)));
        out.insert(out.end(), g.back().shape.begin(), g.back().shape.end());
      }
      desc = "outer of " + a.desc;
      c.describe(desc);
      std::vector<intptr_t> idx;
      want = build(out, idx, [&](const std::vector<intptr_t> &ix) {
        std::vector<Val> v;
        size_t k = 0;
        for (Arg &x : g) {
          const Val *p = &x.v;
          for (size_t d = 0; d < x.shape.size(); ++d)
            p = &p->kids[ix[k++]];
          v.push_back(*p);
        }
        return a.ref(v);
      });
      std::vector<nd::array> args;
      for (Arg &x : g)
        args.push_back(x.a);
      o = dv::attempt([&] { r = fn::outer(a.f).call(4, args.data(), 0, nullptr); });
      break;
    }
    case 2: { // a condition on two arguments
      struct Less {
        bool operator()(int a, int b) const {
          called();
          return a < b;
        }
      };
      intptr_t n = (intptr_t)c.rng.below(8);
      g.push_back(array_of(c, TI, {n}));
      g.push_back(array_of(c, TI, {n}));
      want.k = Val::Seq;
      for (intptr_t i = 0; i < n; ++i)
        if (g[0].v.kids[i].i < g[1].v.kids[i].i)
          want.kids.push_back(Val::L({VI(i)}));
      desc = "where a < b";
      c.describe(desc);
      o = dv::attempt([&] { r = fn::where(fn::apply(Less()))(g[0].a, g[1].a); });
      break;
    }
    case 3: { // variable dimensions in an outer product
      Fn a = leaf(c, false, [](const Proto &p) { return p.args.size() == 2 && p.args[0] == TI && p.args[1] == TI; });
      Val v[2];
      std::vector<nd::array> args;
      bool any = false;
      for (int i = 0; i < 2; ++i) {
        bool var = c.rng.coin();
        any = any || var;
        ag::FillOpts fo;
        fo.small = true;
        args.push_back(ag::filled(c, ndt::type(var ? "var * int32" : "3 * int32"), fo));
        v[i] = dv::read(args[i]);
      }
      want.k = Val::Seq;
      for (const Val &x : v[0].kids) {
        Val row;
        row.k = Val::Seq;
        for (const Val &y : v[1].kids)
          row.kids.push_back(a.ref({x, y}));
        want.kids.push_back(row);
      }
      desc = vf::cat("outer of ", a.desc, " ", args[0].get_type().str(), " ", args[1].get_type().str());
      c.describe(desc);
      o = dv::attempt([&] { r = fn::outer(a.f).call(2, args.data(), 0, nullptr); });
      if (!any)
        c.check(o.ok, k_threw, [&] { return vf::cat(desc, ": ", o.msg); });
      break;
    }
    case 4: case 5: { // a dst of another shape
      bool el = kind == 4;
      Fn a = leaf(c, false, [](const Proto &p) { return p.args.size() > 0 && p.args.size() < 4; });
      std::vector<intptr_t> out = ag::gen_shape(c, 2, 4);
      for (size_t i = 0; i < a.args.size(); ++i)
        g.push_back(array_of(c, a.args[i], i == 0 || el ? out : std::vector<intptr_t>()));
      std::vector<intptr_t> other = out;
      if (out.empty() && el)
        return;
      if (out.empty())
        other = {(intptr_t)c.rng.below(3)};
      else if (c.rng.chance(1, 3))
        other.erase(other.begin());
      else {
        size_t d = c.rng.below(out.size());
        if (el && out[d] == 1)
          return;
        other[d] = c.rng.coin() ? out[d] + 1 : out[d] - 1;
        if (other[d] < 0)
          return;
      }
      dst = nd::empty(ndt::type(spell(other) + ty_txt[a.ret]));
      ag::fill(c, dst.get_type(), dst.get()->metadata(), dst.data(), ag::FillOpts());
      before = dv::read(dst);
      desc = vf::cat(el ? "elwise" : "outer", " of ", a.desc, " ", spell(out), " into ", dst.get_type().str());
      c.describe(desc);
      std::vector<nd::array> args;
      for (Arg &x : g)
        args.push_back(x.a);
      nd::callable h = el ? fn::elwise(a.f) : fn::outer(a.f);
      std::pair<const char *, nd::array> kw("dst", dst);
      o = dv::attempt([&] { h.call(args.size(), args.data(), 1, &kw); });
      may = false;
      c.check(dv::read(dst) == before, k_wrote, [&] { return vf::cat(desc, ": ", dv::show(before), " became ", dv::show(dv::read(dst))); });
      break;
    }
    case 6: { // where with a dst that holds something
      Fn a = gen(c, 1, false, [](const Fn &x) { return x.args.size() == 1 && x.ret == TB && !lifted(x); });
      if (a.desc.find("elwise") != std::string::npos || a.desc.find("outer") != std::string::npos)
        return;
      nd::callable h = fn::where(a.f);
      dst = nd::empty(ndt::type("var * 1 * intptr"));
      std::pair<const char *, nd::array> kw("dst", dst);
      for (int k = 0; k < 2 && o.ok; ++k) {
        Arg x = array_of(c, a.args[0], {1 + (intptr_t)c.rng.below(10)});
        want = Val();
        want.k = Val::Seq;
        for (size_t i = 0; i < x.v.kids.size(); ++i)
          if (a.ref({x.v.kids[i]}).i)
            want.kids.push_back(Val::L({VI((long long)i)}));
        desc = vf::cat("where ", a.desc, " again into ", dv::show(dv::read(dst)));
        c.describe(desc);
        g_calls = 0;
        o = dv::attempt([&] { r = h.call(1, &x.a, 1, &kw); });
      }
      break;
    }
    }
    c.saw("odd", vf::mix(vf::hash_str(desc), o.ok));
    if (o.ok) {
      c.check(may, k_accepted, [&] { return desc; });
      if (may)
        c.check(dv::read(r) == want, k_value, [&] { return vf::cat(desc, " gives ", dv::show(dv::read(r)), " instead of ", dv::show(want)); });
    } else
      c.check(g_calls == 0, k_ran, [&] { return vf::cat(desc, ": ran ", g_calls, " and then ", o.msg); });
  });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "F01",
                 "random C++ functions, wrapped as template pointers, pointers, function objects, member functions or "
                 "constructed from keywords, and composed, lifted, made outer or conditional to random depth, are called "
                 "with random arrays of random layout; values, types, numbers of calls, refusals, exceptions, live function "
                 "objects and the balance of the heap are compared with the definition",
                 {{"scalars", 2500, 20000, scalars},
                  {"elwise", 2500, 20000, elwise},
                  {"outer", 2000, 16000, outer_product},
                  {"where", 1000, 8000, where},
                  {"compound", 1500, 12000, compound},
                  {"constant", 1000, 8000, constant},
                  {"odd", 2000, 16000, odd},
                  {"forward", 1000, 8000, forward}});
}
