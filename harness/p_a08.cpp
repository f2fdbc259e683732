// A08: viewing data as another type, walking over arrays, and the order of memory.
#include "arrgen.hpp"
#include <dynd/array_iter.hpp>
#include <dynd/asarray.hpp>
#include <dynd/callable.hpp>
#include <dynd/index.hpp>
#include <dynd/iterator.hpp>
#include <dynd/option.hpp>
#include <dynd/shape_tools.hpp>
#include <dynd/shortvector.hpp>
#include <dynd/view.hpp>
#include <dynd/with.hpp>
#include <dynd/types/substitute_shape.hpp>
#include <deque>
#include <list>
#include <memory>
using namespace dynd;
using vf::Ctx;
typedef std::vector<intptr_t> ivec;

static std::string list(const ivec &v) {
  std::string s = "(";
  for (intptr_t x : v)
    s += vf::cat(x, ",");
  return s + ")";
}
static uint64_t hash(const ivec &v) { return vf::hash_bytes(v.data(), v.size() * 8); }

// ---- views ----------------------------------------------------------------------------------------------------------
struct Elem {
  const char *tp;
  int size, align; // of plain data, 0 where the data is not plain
};
static const Elem elems[] = {
    {"int8", 1, 1}, {"uint8", 1, 1}, {"bool", 1, 1}, {"int16", 2, 2}, {"uint16", 2, 2}, {"int32", 4, 4}, {"uint32", 4, 4},
    {"float32", 4, 4}, {"int64", 8, 8}, {"uint64", 8, 8}, {"float64", 8, 8}, {"complex[float32]", 8, 4},
    {"complex[float64]", 16, 8}, {"fixed_bytes[4, align=4]", 4, 4}, {"fixed_bytes[4]", 4, 1}, {"fixed_bytes[8, align=2]", 8, 2},
    {"fixed_bytes[16, align=8]", 16, 8}, {"fixed_string[4, 'ascii']", 4, 1}, {"fixed_string[2, 'utf16']", 4, 2},
    {"int128", 16, 8}, {"(int32, float32)", 0, 0}, {"{a: int16, b: int16}", 0, 0}, {"{x: float64, y: (int32, int16)}", 0, 0},
    {"string", 0, 0}, {"bytes", 0, 0}, {"{s: string}", 0, 0}, {"(string, int32)", 0, 0}, {"type", 0, 0}, {"?string", 0, 0}};
static const int nelems = sizeof(elems) / sizeof(*elems), nplain = 20;

static int index_of(const char *t) {
  int i = 0;
  while (std::string(elems[i].tp) != t)
    ++i;
  return i;
}
static const int BYTES = index_of("bytes");

struct Dim {
  int k; // 0 fixed, 1 var, 2 Fixed (symbolic)
  intptr_t n;
};
static std::string spell(const std::vector<Dim> &d, const std::string &e) {
  std::string s;
  for (const Dim &x : d)
    s += x.k == 1 ? "var * " : x.k == 2 ? "Fixed * " : vf::cat(x.n, " * ");
  return s + e;
}

static void views(Ctx &c) {
  int ei = (int)c.rng.below(c.rng.chance(3, 4) ? nplain : nelems);
  const Elem &e = elems[ei];
  ndt::type et(e.tp);
  ag::View v = ag::make_view(c, et, ag::gen_shape(c, 4, 4), ag::gen_layout(c, true), ag::FillOpts(),
                             c.rng.chance(1, 3) ? nd::read_access_flag | (c.rng.coin() ? nd::immutable_access_flag : 0) : 0);
  bool outer_var = c.rng.chance(1, 4);
  nd::array a = v.a;
  std::vector<Dim> from;
  intptr_t vn = -1;
  if (outer_var) { // var * rest, over data of its own
    ivec rest(v.shape.begin() + (v.shape.empty() ? 0 : 1), v.shape.end());
    std::string s = e.tp;
    for (size_t i = rest.size(); i-- > 0;)
      s = vf::cat(rest[i], " * ", s);
    bool offset = e.size && c.rng.chance(1, 3);
    a = ag::filled(c, ndt::type((offset ? "var * 3 * " : "var * ") + s));
    vn = a.get_shape()[0];
    if (offset) { // one of the three columns: rows further apart, and further into the data
      ndt::type st(s), vt("var * " + s);
      auto am = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(a.get()->metadata());
      auto fm = reinterpret_cast<const fixed_dim_type_arrmeta *>(am + 1);
      nd::array y = nd::make_array(vt, const_cast<char *>(a.cdata()), a, a.get_flags());
      auto ym = new (y.get()->metadata()) ndt::var_dim_type::metadata_type();
      ym->blockref = am->blockref;
      ym->stride = am->stride;
      ym->offset = am->offset + (intptr_t)c.rng.below(3) * fm->stride;
      if (!st.is_builtin())
        st.extended()->arrmeta_copy_construct(y.get()->metadata() + sizeof(*ym), reinterpret_cast<const char *>(fm + 1), a);
      a = y;
    }
    from.push_back({1, vn});
    for (intptr_t x : rest)
      from.push_back({0, x});
  } else
    for (intptr_t x : v.shape)
      from.push_back({0, x});
  // what is asked for
  int ti;
  do
    ti = (int)c.rng.below(nelems);
  while (c.rng.chance(3, 4) && elems[ti].size != e.size);
  if (c.rng.chance(1, 6))
    ti = ei;
  const Elem &t = elems[ti];
  std::vector<Dim> to = from;
  for (Dim &x : to) {
    if (x.k == 1)
      x.k = c.rng.chance(1, 4) ? 1 : c.rng.chance(1, 4) ? 2 : 0;
    else if (c.rng.chance(1, 4))
      x.k = 2;
    if (x.k == 0 && c.rng.chance(1, 15))
      x.n = c.rng.below(6);
    if (x.k != 1 && c.rng.chance(1, 25))
      x.k = 1;
  }
  if (c.rng.chance(1, 15) && !to.empty())
    to.pop_back();
  else if (c.rng.chance(1, 15))
    to.push_back({(int)c.rng.below(3), 1});
  std::string ts = spell(to, t.tp);
  std::string what = vf::cat(outer_var ? vf::cat(a.get_type().str(), " of ", vn) : v.str(), " viewed as ", ts);
  c.describe(what);
  ndt::type tt(ts), at = a.get_type();
  // the rule
  bool identical = tt == at, ok = identical;
  std::vector<Dim> got = to;
  if (!identical) {
    ok = from.size() == to.size() && (std::string(t.tp) == e.tp || (e.size && e.size == t.size && e.align >= t.align));
    if (!ok)
      ;
    else
      for (size_t i = 0; i < to.size(); ++i) {
        if (to[i].k == 2)
          got[i] = {0, from[i].n};
        if (from[i].k == 1 && to[i].k == 1)
          ; // stays one: only if the rest is the same type
        else if (from[i].k == 1) {
          // an outer variable dimension shows as a fixed one of its size; a variable dimension left as it is keeps the element
          ok &= got[i].n == from[i].n;
        } else
          ok &= to[i].k != 1 && got[i].n == from[i].n;
      }
    if (!from.empty() && from[0].k == 1 && !to.empty() && to[0].k == 1)
      ok = ok && ndt::type(spell(got, t.tp)) == at;
  }
  // (bytes is refused before anything is compared: "not yet implemented"; from bytes the answer is a null array)
  bool bytes_scalar = !identical && ((to.empty() && ti == BYTES) || (from.empty() && ei == BYTES));
  nd::array r;
  auto o = dv::attempt([&] { r = c.rng.coin() ? nd::old_view(a, tt) : a.view(tt); });
  c.saw("view", vf::hash_str(what));
  c.saw(ok ? "view-ok" : "view-refused", vf::hash_str(vf::cat(at.str(), "|", ts)));
  c.sample(vf::cat(what, ok ? "" : " (refused)"));
  if (bytes_scalar) {
    c.check(!o.ok || r.is_null(), "view-bytes", [&] { return what; });
    return;
  }
  if (!c.check(o.ok == ok, ok ? "view-threw" : "view-accepted",
               [&] { return vf::cat(what, o.ok ? vf::cat(" gives ", r.get_type().str()) : ": " + o.msg); }) ||
      !ok)
    return;
  if (identical) {
    c.check(r.get() == a.get(), "view-same", [&] { return what + " is another array"; });
    return;
  }
  if (!c.check(r.get_type() == ndt::type(spell(got, t.tp)), "view-type", [&] { return what + " gives " + r.get_type().str(); }))
    return;
  c.check(r.get_flags() == a.get_flags(), "view-flags", [&] { return vf::cat(what, " flags ", r.get_flags(), " from ", a.get_flags()); });
  if (outer_var && !to.empty() && to[0].k == 1) {
    std::string why;
    c.check(ag::same(ag::tree(r), ag::tree(a), why), "view-place", [&] { return what + ": " + why; });
    return;
  }
  // same places
  ivec sh;
  for (const Dim &x : got)
    sh.push_back(x.n);
  std::vector<char *> places;
  if (outer_var) {
    auto d = reinterpret_cast<const ndt::var_dim_type::data_type *>(a.cdata());
    auto md = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(a.get()->metadata());
    size_t n = 1;
    for (size_t i = 1; i < sh.size(); ++i)
      n *= sh[i];
    size_t sz = et.get_default_data_size();
    for (intptr_t i = 0; i < vn; ++i)
      for (size_t j = 0; j < n; ++j)
        places.push_back(d->begin + md->offset + i * md->stride + j * sz);
  } else
    ag::each(sh, [&](const ivec &ix) { places.push_back(v.at(ix)); });
  size_t k = 0;
  bool wr = (a.get_flags() & nd::write_access_flag) != 0;
  std::vector<std::string> bytes;
  ag::each(sh, [&](const ivec &ix) {
    const char *md = r.get()->metadata();
    const char *p = r.cdata();
    for (intptr_t i : ix) {
      p += i * reinterpret_cast<const fixed_dim_type_arrmeta *>(md)->stride;
      md += sizeof(fixed_dim_type_arrmeta);
    }
    c.check(k < places.size() && p == places[k], "view-place", [&] { return vf::cat(what, ": element ", list(ix), " is at ", p - places[k], " of its place"); });
    ++k;
    if (e.size)
      bytes.push_back(std::string(p, e.size));
  });
  // kept alive by the view alone
  v.a = nd::array();
  v.owner = nd::array();
  a = nd::array();
  if (e.size)
    for (int pass = 0; pass < (wr ? 2 : 1); ++pass) {
      k = 0;
      ag::each(sh, [&](const ivec &ix) {
        const char *md = r.get()->metadata();
        char *p = const_cast<char *>(r.cdata());
        for (intptr_t i : ix) {
          p += i * reinterpret_cast<const fixed_dim_type_arrmeta *>(md)->stride;
          md += sizeof(fixed_dim_type_arrmeta);
        }
        if (pass == 0)
          c.check(std::string(p, e.size) == bytes[k], "view-kept", [&] { return what; });
        else
          memset(p, 0, e.size);
        ++k;
      });
    }
  else
    dv::read(r);
}

// ---- asarray --------------------------------------------------------------------------------------------------------
static void asarrays(Ctx &c) {
  static const char *es[] = {"int8", "int32", "int64", "uint16", "float64", "float32", "complex[float64]", "string", "bool"};
  int n = 9;
  const char *es0 = es[c.rng.below(n)];
  ag::FillOpts fo;
  fo.small = true;
  nd::array a;
  ivec sh;
  bool var = c.rng.chance(1, 4);
  std::string src;
  if (var) {
    sh = ag::gen_shape(c, 2, 3);
    src = std::string("var * ") + es0;
    for (size_t i = sh.size(); i-- > 0;)
      src = vf::cat(sh[i], " * ", src);
    a = ag::filled(c, ndt::type(src), fo);
  } else {
    sh = ag::gen_shape(c, 3, 3);
    ag::View v = ag::make_view(c, ndt::type(es0), sh, ag::gen_layout(c, true), fo);
    a = v.a;
    src = v.str();
  }
  // the pattern
  std::vector<Dim> d;
  for (intptr_t x : sh)
    d.push_back({0, x});
  if (var)
    d.push_back({1, -1});
  for (Dim &x : d) {
    if (c.rng.chance(1, 3))
      x.k = x.k == 1 ? 1 : 2;
    if (c.rng.chance(1, 12))
      x = {(int)c.rng.below(3), (intptr_t)c.rng.below(5)};
  }
  if (c.rng.chance(1, 8))
    d.insert(d.begin(), {(int)c.rng.below(3), (intptr_t)c.rng.below(4)});
  else if (c.rng.chance(1, 10) && !d.empty())
    d.erase(d.begin());
  std::string e = c.rng.chance(2, 5) ? es0 : c.rng.chance(1, 6) ? "Any" : c.rng.chance(1, 8) ? "Scalar" : es[c.rng.below(n)];
  std::string ts = spell(d, e);
  if (c.rng.chance(1, 12))
    ts = "... * " + e;
  else if (c.rng.chance(1, 12))
    ts = "N * " + e;
  ndt::type tp(ts);
  std::string what = vf::cat(src, " as array of ", ts);
  c.describe(what);
  nd::array r;
  auto o = dv::attempt([&] { r = nd::asarray(a, tp); });
  bool match = tp.match(a.get_type());
  c.saw("asarray", vf::hash_str(what));
  if (match) {
    c.saw("asarray-same", vf::hash_str(what));
    if (c.check(o.ok, "asarray-threw", [&] { return what + ": " + o.msg; }))
      c.check(r.get() == a.get(), "asarray-copied", [&] { return what; });
    return;
  }
  // what has to be made: the pattern with the shape of the array put in
  bool symbolic = tp.is_symbolic();
  ndt::type made = tp;
  bool can = true;
  if (symbolic) {
    can = d.size() >= a.get_ndim() ? (ts[0] != '.' && ts[0] != 'N' && e != "Any" && e != "Scalar") : false;
    // the shape fills the leading dimensions
    std::vector<Dim> g = d;
    std::vector<intptr_t> shape = a.get_shape();
    for (size_t i = 0; can && i < g.size(); ++i) {
      if (i < shape.size()) {
        if (g[i].k == 2) {
          can &= shape[i] >= 0;
          g[i] = {0, shape[i]};
        } else if (g[i].k == 0)
          can &= shape[i] < 0 || shape[i] == g[i].n;
      } else
        can &= g[i].k != 2;
    }
    if (can)
      made = ndt::type(spell(g, e));
  }
  nd::array w;
  auto m = dv::attempt([&] {
    if (!can)
      throw std::runtime_error("no concrete type");
    w = nd::empty(made);
    w.assign(a);
  });
  c.saw(m.ok ? "asarray-made" : "asarray-refused", vf::hash_str(what));
  c.sample(what);
  if (!c.check(o.ok == m.ok, m.ok ? "asarray-threw" : "asarray-accepted",
               [&] { return vf::cat(what, ": ", o.ok ? r.get_type().str() : o.msg, " against ", m.msg); }) ||
      !o.ok)
    return;
  c.check(r.get_type() == made, "asarray-type", [&] { return what + " gives " + r.get_type().str(); });
  c.check(dv::read(r) == dv::read(w), "asarray-values", [&] { return what + ": " + dv::show(dv::read(r)) + " instead of " + dv::show(dv::read(w)); });
  c.check(tp.match(r.get_type()), "asarray-no-match", [&] { return what + " gives " + r.get_type().str(); });
  c.check(r.get() != a.get(), "asarray-shared", [&] { return what; });
}

// ---- with_1d_stride, view<fixed<T>> ---------------------------------------------------------------------------------
template <class T>
static void strided(Ctx &c, const char *name, const char *rec) {
  // a dimension of T, maybe of records of which T is a field
  bool field = c.rng.chance(1, 3), other = !field && c.rng.chance(1, 5);
  ndt::type et(field ? rec : other ? "int8" : name);
  ag::FillOpts fo;
  fo.small = true;
  ag::View v = ag::make_view(c, et, {(intptr_t)c.rng.below(6)}, ag::gen_layout(c, !field), fo,
                             c.rng.chance(1, 3) ? nd::read_access_flag | nd::immutable_access_flag : 0);
  nd::array a = field ? v.a.p("x") : v.a;
  std::string what = vf::cat(v.str(), field ? " field x" : "", " of ", name);
  c.describe(what);
  c.saw("stride", vf::hash_str(what));
  dv::Val want = dv::read(a);
  intptr_t calls = 0;
  auto o = dv::attempt([&] {
    nd::with_1d_stride<T>(a, [&](intptr_t size, intptr_t stride, const T *p) {
      ++calls;
      if (!c.check(size == v.shape[0], "with-size", [&] { return vf::cat(what, ": size ", size); }))
        return;
      if (!c.check(size < 2 || (stride > -1000 && stride < 1000), "with-stride", [&] { return vf::cat(what, ": stride ", stride); }))
        return;
      nd::array k = nd::empty(1, ndt::type(name));
      for (intptr_t i = 0; i < size; ++i) {
        memcpy(k.data(), p + i * stride, sizeof(T));
        nd::array conv = nd::empty(1, ndt::type(name));
        conv.assign(a(i));
        c.check(dv::read(k) == dv::read(conv), "with-value",
                [&] { return vf::cat(what, ": element ", i, " is ", dv::show(dv::read(k)), " in ", dv::show(want)); });
      }
    });
  });
  c.check(o.ok && calls == 1, "with-threw", [&] { return vf::cat(what, ": ", o.msg, " calls ", calls); });
}
static void with1d(Ctx &c) {
  switch (c.rng.below(5)) {
  case 0:
    return strided<int>(c, "int32", "{x: int32, y: int16}");
  case 1:
    return strided<double>(c, "float64", "{y: int8, x: float64}");
  case 2:
    return strided<int16_t>(c, "int16", "{y: int8, x: int16, z: int32}");
  case 3:
    return strided<int64_t>(c, "int64", "{x: int64, y: string}");
  default:
    return strided<dynd::complex<double>>(c, "complex[float64]", "{x: complex[float64], y: int64}");
  }
}

template <class T>
static void typed(Ctx &c, const char *name) {
  size_t nd_ = 1 + c.rng.below(2);
  ivec sh(nd_);
  for (intptr_t &x : sh)
    x = c.rng.below(5);
  ag::View v = ag::make_view(c, ndt::type(name), sh, ag::gen_layout(c, false));
  std::string what = v.str() + " as fixed<>";
  c.describe(what);
  c.saw("typed", vf::hash_str(what));
  std::vector<const char *> seen, indexed;
  if (nd_ == 1) {
    fixed<T> f = v.a.template view<fixed<T>>();
    c.check(f.size() == (size_t)sh[0], "typed-size", [&] { return what; });
    auto e = f.end();
    for (auto i = f.begin(); i != e && seen.size() < 100; ++i)
      seen.push_back((const char *)&*i);
    for (intptr_t i = 0; i < sh[0]; ++i)
      indexed.push_back((const char *)&f[i]);
  } else {
    fixed<fixed<T>> f = v.a.template view<fixed<fixed<T>>>();
    c.check(f.size() == (size_t)sh[0], "typed-size", [&] { return what; });
    auto e = f.end();
    for (auto i = f.begin(); i != e && seen.size() < 100; i++) {
      fixed<T> row = *i;
      auto re = row.end();
      for (auto j = row.begin(); j != re && seen.size() < 100; j++)
        seen.push_back((const char *)&*j);
    }
    for (intptr_t i = 0; i < sh[0]; ++i) {
      fixed<T> row = f[i];
      for (intptr_t j = 0; j < sh[1]; ++j)
        indexed.push_back((const char *)&row[j]);
    }
  }
  std::vector<const char *> want;
  ag::each(sh, [&](const ivec &ix) { want.push_back(v.at(ix)); });
  c.check(indexed == want, "typed-index", [&] { return what; });
  c.check(seen == want, "typed-iterate", [&] { return vf::cat(what, ": ", seen.size(), " elements of ", want.size()); });
}
static void typeds(Ctx &c) {
  switch (c.rng.below(3)) {
  case 0:
    return typed<int>(c, "int32");
  case 1:
    return typed<double>(c, "float64");
  default:
    return typed<int8_t>(c, "int8");
  }
}

// ---- walking --------------------------------------------------------------------------------------------------------
static const char *walked[] = {"int32", "float64", "uint8", "{a: int16, b: float64}", "(int32, 2 * int16)", "?int32", "complex[float64]", "fixed_bytes[3]"};
static bool broadcast(ivec &to, const ivec &s) { // `to` grows
  if (s.size() > to.size())
    to.insert(to.begin(), s.size() - to.size(), 1);
  for (size_t i = 0; i < s.size(); ++i) {
    intptr_t &t = to[to.size() - s.size() + i];
    if (s[i] != 1) {
      if (t == 1)
        t = s[i];
      else if (t != s[i])
        return false;
    }
  }
  return true;
}
static char *place(const ag::View &v, const ivec &ix) {
  ivec own(v.shape.size());
  for (size_t i = 0; i < own.size(); ++i)
    own[i] = v.shape[i] == 1 ? 0 : ix[ix.size() - own.size() + i];
  return v.at(own);
}
static ag::View walk_view(Ctx &c, const ivec &sh) {
  return ag::make_view(c, ndt::type(walked[c.rng.below(8)]), sh, ag::gen_layout(c, true));
}
static void walk1(Ctx &c) {
  ag::View v = walk_view(c, ag::gen_shape(c, 5, 4));
  int how = (int)c.rng.below(3);
  std::string what = vf::cat(v.str(), " walked (", how, ")");
  c.describe(what);
  c.saw("walk1", vf::mix(how, vf::hash_str(v.str())));
  std::vector<const char *> want, got;
  ag::each(v.shape, [&](const ivec &ix) { want.push_back(v.at(ix)); });
  intptr_t size = -1;
  bool empty = false;
  ndt::type u;
  auto o = dv::attempt([&] {
    auto go = [&](auto &it) {
      size = it.itersize();
      empty = it.empty();
      u = it.get_uniform_dtype();
      if (!empty)
        do
          got.push_back(it.data());
        while (it.next() && got.size() < 5000);
    };
    if (how == 0) {
      array_iter<1, 0> it(v.a);
      go(it);
    } else if (how == 1) {
      array_iter<0, 1> it(v.a);
      go(it);
    } else {
      array_iter<0, 1> it(v.a.get_type(), v.a.get()->metadata(), v.a.cdata());
      go(it);
    }
  });
  if (!c.check(o.ok, "walk-threw", [&] { return what + ": " + o.msg; }))
    return;
  c.check(size == (intptr_t)want.size() && empty == want.empty(), "walk-size", [&] { return vf::cat(what, ": ", size, " of ", want.size()); });
  c.check(u == v.elem, "walk-type", [&] { return what + ": " + u.str(); });
  c.check(got == want, "walk-places", [&] { return vf::cat(what, ": ", got.size(), " of ", want.size(), " elements, or elsewhere"); });
}
static void walk2(Ctx &c) {
  ivec s0 = ag::gen_shape(c, 4, 3), s1 = s0;
  if (c.rng.chance(3, 4) && !s1.empty())
    s1.erase(s1.begin(), s1.begin() + c.rng.below(s1.size() + 1));
  for (intptr_t &x : s1)
    if (c.rng.chance(1, 4))
      x = c.rng.chance(1, 6) ? c.rng.below(5) : 1;
  bool one = c.rng.coin(); // written and read, or both read
  if (!one) {
    for (intptr_t &x : s0)
      if (c.rng.chance(1, 5))
        x = 1;
    if (c.rng.coin())
      s0.swap(s1);
  }
  ag::View v = walk_view(c, s0), w = walk_view(c, s1);
  std::string what = vf::cat(v.str(), one ? " written from " : " along with ", w.str());
  c.describe(what);
  ivec sh = s0;
  bool ok = one ? s1.size() <= s0.size() && broadcast(sh, s1) && sh == s0 : broadcast(sh, s1);
  c.saw(one ? "walk11" : "walk02", vf::hash_str(what));
  c.sample(what);
  std::vector<std::pair<const char *, const char *>> want, got;
  if (ok)
    ag::each(sh, [&](const ivec &ix) { want.push_back({place(v, ix), place(w, ix)}); });
  intptr_t size = -1;
  ndt::type u0, u1;
  std::vector<ivec> index;
  long before = vf::heap_bytes();
  (void)before;
  auto o = dv::attempt([&] {
    if (one) {
      array_iter<1, 1> it(v.a, w.a);
      size = it.itersize();
      u0 = it.get_uniform_dtype<0>();
      u1 = it.get_uniform_dtype<1>();
      if (!it.empty())
        do {
          const array_iter<1, 1> &k = it;
          got.push_back({k.data<0>(), k.data<1>()});
          index.push_back(ivec(it.index(), it.index() + sh.size()));
        } while (it.next() && got.size() < 5000);
    } else {
      array_iter<0, 2> it(v.a, w.a);
      size = it.itersize();
      u0 = it.get_uniform_dtype<0>();
      u1 = it.get_uniform_dtype<1>();
      if (!it.empty())
        do
          got.push_back({it.data<0>(), it.data<1>()});
        while (it.next() && got.size() < 5000);
    }
  });
  if (!c.check(o.ok == ok, ok ? "walk2-threw" : "walk2-accepted", [&] { return what + ": " + o.cls + " " + o.msg; }) || !ok)
    return;
  c.check(size == (intptr_t)want.size(), "walk2-size", [&] { return vf::cat(what, ": ", size, " of ", want.size()); });
  c.check(u0 == v.elem && u1 == w.elem, "walk2-type", [&] { return vf::cat(what, ": ", u0.is_null() ? "none" : u0.str(), " and ", u1.is_null() ? "none" : u1.str()); });
  c.check(got == want, "walk2-places", [&] { return vf::cat(what, ": ", got.size(), " of ", want.size(), " pairs, or others"); });
  if (one && !index.empty()) {
    size_t k = 0;
    ag::each(sh, [&](const ivec &ix) {
      if (k < index.size())
        c.check(index[k] == ix, "walk2-index", [&] { return vf::cat(what, ": ", list(index[k]), " at ", list(ix)); });
      ++k;
    });
  }
}

// nested containers, none of them empty
template <class C>
struct Make {
  static C of(Ctx &c, std::vector<int> &flat) {
    flat.push_back((int)c.rng.range(-1000, 1000));
    return flat.back();
  }
};
template <class C>
static C nest(Ctx &c, std::vector<int> &flat) {
  C r;
  for (size_t n = 1 + c.rng.below(4); n-- > 0;)
    r.push_back(Make<typename C::value_type>::of(c, flat));
  return r;
}
#define NEST(...)                                                                                                       \
  template <class T>                                                                                                   \
  struct Make<__VA_ARGS__> {                                                                                           \
    static __VA_ARGS__ of(Ctx &c, std::vector<int> &flat) { return nest<__VA_ARGS__>(c, flat); }                        \
  };
NEST(std::vector<T>)
NEST(std::list<T>)
NEST(std::deque<T>)
template <int N, class C>
static void nested(Ctx &c, const char *name) {
  std::vector<int> flat;
  C x = Make<C>::of(c, flat);
  std::string what = vf::cat(name, " of ", flat.size());
  c.describe(what);
  c.saw("nested", vf::hash_bytes(flat.data(), flat.size() * sizeof(int)));
  const C &k = x;
  std::vector<int> got, kgot;
  auto e = dynd::end<N>(x);
  for (auto i = dynd::begin<N>(x); i != e && got.size() <= flat.size(); ++i) {
    got.push_back(*i);
    *i += 1;
  }
  c.check(got == flat, "nested", [&] { return vf::cat(what, ": ", got.size(), " elements, or others"); });
  auto ke = dynd::end<N>(k);
  auto i = dynd::begin<N>(k);
  while (!(i == ke) && kgot.size() <= flat.size()) {
    kgot.push_back(*i - 1);
    auto before = i++;
    c.check(*before - 1 == kgot.back(), "nested-post", [&] { return what; });
  }
  c.check(kgot == flat, "nested-const", [&] { return vf::cat(what, ": ", kgot.size(), " elements, or others"); });
}
static void nesteds(Ctx &c) {
  switch (c.rng.below(6)) {
  case 0:
    return nested<1, std::vector<int>>(c, "vector");
  case 1:
    return nested<2, std::vector<std::vector<int>>>(c, "vector of vectors");
  case 2:
    return nested<2, std::list<std::vector<int>>>(c, "list of vectors");
  case 3:
    return nested<3, std::vector<std::vector<std::vector<int>>>>(c, "vector of vectors of vectors");
  case 4:
    return nested<3, std::vector<std::deque<std::list<int>>>>(c, "vector of deques of lists");
  default:
    return nested<4, std::vector<std::vector<std::list<std::vector<int>>>>>(c, "four levels");
  }
}

// ---- memory order ---------------------------------------------------------------------------------------------------
// an array like another keeps the order of its axes in memory, and no two elements share a place
static void keeporder(Ctx &c) {
  static const char *es[] = {"int32", "string", "float64", "{a: int16, b: int64}", "()", "?int64", "uint8", "complex[float64]"};
  ndt::type e(es[c.rng.below(8)]);
  ag::View v = ag::make_view(c, e, ag::gen_shape(c, 5, 3), ag::gen_layout(c, true));
  int how = (int)c.rng.below(3);
  ndt::type ne(es[c.rng.below(8)]);
  if (how != 1)
    ne = e;
  std::string what = vf::cat(v.str(), how == 2 ? " copied" : " made again", how == 1 ? " of " + ne.str() : "");
  c.describe(what);
  c.saw("keeporder", vf::hash_str(what));
  nd::array r;
  auto o = dv::attempt([&] { r = how == 0 ? nd::empty_like(v.a) : how == 1 ? nd::empty_like(v.a, ne) : v.a.eval_copy(); });
  if (!c.check(o.ok, "like-threw", [&] { return what + ": " + o.msg; }))
    return;
  ndt::type want = ne;
  for (size_t i = v.shape.size(); i-- > 0;)
    want = ndt::make_fixed_dim(v.shape[i], want);
  if (!c.check(r.get_type() == want, "like-type", [&] { return what + " gives " + r.get_type().str(); }))
    return;
  size_t n = v.shape.size();
  ivec st(n);
  for (size_t i = 0; i < n; ++i)
    st[i] = reinterpret_cast<const fixed_dim_type_arrmeta *>(r.get()->metadata())[i].stride;
  intptr_t es_ = ne.get_default_data_size();
  std::vector<intptr_t> places;
  ag::each(v.shape, [&](const ivec &ix) {
    intptr_t p = 0;
    for (size_t i = 0; i < n; ++i)
      p += ix[i] * st[i];
    places.push_back(p);
  });
  std::sort(places.begin(), places.end());
  bool dense = true;
  for (size_t i = 0; i < places.size(); ++i)
    dense &= places[i] == (intptr_t)i * es_;
  c.check(dense, "like-dense", [&] { return what + " has strides " + list(st); });
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j)
      if (v.shape[i] > 1 && v.shape[j] > 1 && !places.empty() && es_ && e.get_default_data_size()) {
        intptr_t a = std::abs(v.stride[i]), b = std::abs(v.stride[j]);
        bool before = a > b || (a == b && i < j); // i is further out in the original
        // an axis of stride zero has no place among the others: skipped there
        if (i != j && before && a && b)
          c.check(st[i] > st[j], "like-order", [&] { return what + " has strides " + list(st); });
      }
}

static void shapes(Ctx &c) {
  size_t n = c.rng.below(6);
  ivec sh(n), st(n);
  for (size_t i = 0; i < n; ++i) {
    sh[i] = c.rng.below(5);
    st[i] = c.rng.chance(1, 8) ? 0 : c.rng.range(-20, 20) * (c.rng.coin() ? 1 : 100);
  }
  std::string what = vf::cat("shape ", list(sh), " strides ", list(st));
  c.describe(what);
  c.saw("shapes", vf::mix(hash(sh), hash(st)));
  // a permutation by the size of the strides, smallest first
  std::vector<int> perm(n + 1, -1);
  strides_to_axis_perm(n, st.data(), perm.data());
  c.check(is_valid_perm((intptr_t)n, perm.data()) && perm[n] == -1, "perm-valid", [&] { return what; });
  for (size_t i = 0; i + 1 < n; ++i)
    c.check(std::abs(st[perm[i]]) <= std::abs(st[perm[i + 1]]), "perm-order", [&] { return what + vf::cat(" axis ", perm[i], " before ", perm[i + 1]); });
  // strides made of one: dense, the first axis innermost
  intptr_t es = 1 + (intptr_t)c.rng.below(16);
  ivec made(n + 1, 77777);
  axis_perm_to_strides(n, perm.data(), sh.data(), es, made.data());
  intptr_t acc = es;
  bool empty = false;
  for (size_t i = 0; i < n; ++i)
    empty |= sh[i] == 0;
  for (size_t i = 0; i < n; ++i) {
    int p = perm[i];
    if (sh[p] > 1 && !empty)
      c.check(made[p] == acc, "perm-strides", [&] { return vf::cat(what, " element size ", es, " gives ", list(made)); });
    acc *= sh[p];
  }
  c.check(made[n] == 77777, "perm-strides", [&] { return what; });
  // several operands: always a permutation; where all of them agree, that order
  int k = 1 + (int)c.rng.below(3);
  std::vector<ivec> ops(k, st);
  for (int i = 1; i < k; ++i)
    for (size_t j = 0; j < n; ++j)
      ops[i][j] = c.rng.chance(1, 3) ? 0 : c.rng.chance(1, 6) ? c.rng.range(-50, 50) : st[j] * 3;
  std::vector<const intptr_t *> ptr;
  for (ivec &x : ops)
    ptr.push_back(x.data());
  std::fill(perm.begin(), perm.end(), -1);
  multistrides_to_axis_perm(n, k, ptr.data(), perm.data());
  c.check(is_valid_perm((intptr_t)n, perm.data()) && perm[n] == -1, "multiperm-valid", [&] { return what; });
  bool total = true; // one operand without ties or zeros
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < i; ++j)
      total &= st[i] && st[j] && std::abs(st[i]) != std::abs(st[j]);
  if (k == 1 && total)
    for (size_t i = 0; i + 1 < n; ++i)
      c.check(std::abs(st[perm[i]]) < std::abs(st[perm[i + 1]]), "multiperm-order", [&] { return what; });
  // broadcasting of shapes
  ivec s2 = sh;
  if (n && c.rng.coin())
    s2.erase(s2.begin(), s2.begin() + c.rng.below(n + 1));
  for (intptr_t &x : s2)
    if (c.rng.chance(1, 4))
      x = c.rng.chance(1, 3) ? c.rng.below(5) : 1;
  if (c.rng.chance(1, 10))
    s2.insert(s2.begin(), c.rng.below(3));
  ivec t = sh;
  bool can = s2.size() <= n && broadcast(t, s2) && t == sh;
  c.check(shape_can_broadcast(sh, s2) == can, "can-broadcast", [&] { return vf::cat(list(s2), " to ", list(sh)); });
  ivec s2st(s2.size()), out(n + 1, 77777);
  for (intptr_t &x : s2st)
    x = c.rng.range(-9, 9);
  auto o = dv::attempt([&] { broadcast_to_shape(n, sh.data(), s2.size(), s2.data(), s2st.data(), out.data()); });
  if (c.check(o.ok == can, "broadcast-to", [&] { return vf::cat(list(s2), " to ", list(sh)); }) && can)
    for (size_t i = 0; i < n; ++i) {
      intptr_t w = i + s2.size() < n ? 0 : s2[i + s2.size() - n] == 1 ? 0 : s2st[i + s2.size() - n];
      c.check(out[i] == w, "broadcast-to", [&] { return vf::cat(list(s2), list(s2st), " to ", list(sh), " gives ", list(out)); });
    }
  ivec grown = sh;
  ivec grow_want = sh;
  bool gr = s2.size() <= n && broadcast(grow_want, s2);
  o = dv::attempt([&] { incremental_broadcast(n, grown.data(), s2.size(), s2.data()); });
  if (c.check(o.ok == gr, "incremental", [&] { return vf::cat(list(s2), " into ", list(sh)); }) && gr)
    c.check(grown == grow_want, "incremental", [&] { return vf::cat(list(s2), " into ", list(sh), " gives ", list(grown)); });
}

// C order, F order or neither, of an array of fixed dimensions
static void orders(Ctx &c) {
  ivec sh = ag::gen_shape(c, 4, 3, false);
  for (intptr_t &x : sh)
    x += x == 1;
  ag::View v = ag::make_view(c, ndt::type(c.rng.coin() ? "int32" : "string"), sh, c.rng.coin() ? ag::Contiguous : ag::gen_layout(c, true));
  size_t n = v.shape.size();
  if (c.rng.coin() && n > 1) {
    nd::array t = v.a.transpose();
    std::reverse(v.shape.begin(), v.shape.end());
    std::reverse(v.stride.begin(), v.stride.end());
    v.a = t;
  }
  std::string what = v.str();
  c.describe(what);
  c.saw("order", vf::hash_str(what));
  if (n == 0)
    return;
  std::vector<intptr_t> s; // the strides that say something
  for (size_t i = 0; i < n; ++i)
    if (v.stride[i])
      s.push_back(std::abs(v.stride[i]));
  bool down = true, up = true, tie = false;
  for (size_t i = 0; i + 1 < s.size(); ++i) {
    down &= s[i] > s[i + 1];
    up &= s[i] < s[i + 1];
    tie |= s[i] == s[i + 1];
  }
  if (tie)
    return;
  axis_order_classification_t got = v.a.get_type()->classify_axis_order(v.a.get()->metadata());
  axis_order_classification_t want = s.size() < 2 ? axis_order_none : down ? axis_order_c : up ? axis_order_f : axis_order_neither;
  c.check(got == want, "classify", [&] { return vf::cat(what, ": ", (int)got, " instead of ", (int)want); });
  // contiguity, of the type and of the helper
  ivec bs = v.stride;
  intptr_t es = v.elem.get_default_data_size(), acc = es, facc = es;
  bool cc = true, fc = true;
  for (intptr_t &x : bs)
    x *= es;
  for (size_t i = n; i-- > 0;) {
    cc &= v.shape[i] == 1 || bs[i] == acc;
    acc *= v.shape[i];
  }
  for (size_t i = 0; i < n; ++i) {
    fc &= v.shape[i] == 1 || bs[i] == facc;
    facc *= v.shape[i];
  }
  c.check(strides_are_c_contiguous(n, es, v.shape.data(), bs.data()) == cc, "c-contiguous", [&] { return what; });
  c.check(strides_are_f_contiguous(n, es, v.shape.data(), bs.data()) == fc, "f-contiguous", [&] { return what; });
}

// ---- the scalars as another type -------------------------------------------------------------------------------------
static void scalars(Ctx &c) {
  int ei = (int)c.rng.below(c.rng.chance(4, 5) ? nplain : nelems), ti;
  do
    ti = (int)c.rng.below(nelems);
  while (c.rng.chance(3, 4) && elems[ti].size != elems[ei].size);
  const Elem &e = elems[ei], &t = elems[ti];
  ndt::type et(e.tp), tt(t.tp);
  ag::View v = ag::make_view(c, et, ag::gen_shape(c, 3, 6), ag::gen_layout(c, true), ag::FillOpts(),
                             c.rng.chance(1, 3) ? nd::read_access_flag | (c.rng.coin() ? nd::immutable_access_flag : 0) : 0);
  bool rows = c.rng.chance(1, 5), swap_dtype = c.rng.coin();
  nd::array a = v.a;
  if (rows)
    a = ag::filled(c, ndt::type(vf::cat(1 + c.rng.below(3), " * var * ", e.tp)));
  std::string what = vf::cat(swap_dtype ? "replace_dtype to " : "view_scalars as ", t.tp, " of ", rows ? a.get_type().str() : v.str());
  c.describe(what);
  nd::array r;
  auto o = dv::attempt([&] { r = swap_dtype ? a.replace_dtype(tt) : a.view_scalars(tt); });
  c.saw(swap_dtype ? (o.ok ? "replace_dtype" : "replace_dtype refused") : o.ok ? "view_scalars" : "view_scalars refused", vf::hash_str(what));
  bool same = ei == ti, plain = e.size && t.size;
  bool strs = (std::string(e.tp) == "string" || std::string(e.tp) == "bytes") && (std::string(t.tp) == "string" || std::string(t.tp) == "bytes");
  // a run of plain data may be cut into elements of another size
  bool run = !swap_dtype && !rows && v.shape.size() == 1 && v.stride[0] == 1;
  if (same || (plain && e.size == t.size && e.align >= t.align)) {
    if (!c.check(o.ok, "scalars-threw", [&] { return what + ": " + o.msg; }))
      return;
  } else if (!plain && !strs && et.get_data_size() != tt.get_data_size())
    c.check(!o.ok, "scalars-accepted", [&] { return vf::cat(what, " gives ", r.get_type().str()); });
  if (!o.ok)
    return;
  // whatever is accepted shows the same bytes, where such a thing can be
  if (!plain) {
    bool pods = et.is_pod() && tt.is_pod();
    if (c.check(same || strs || pods, "scalars-accepted", [&] { return vf::cat(what, " gives ", r.get_type().str()); })) {
      dv::read(r);
      std::ostringstream ss;
      ss << r;
    }
    return;
  }
  c.check(r.get_flags() == a.get_flags(), "scalars-flags", [&] { return what; });
  auto flat = [](const nd::array &x) {
    std::vector<const ag::Node *> lv;
    ag::Node n = ag::tree(x);
    ag::leaves(n, lv);
    std::vector<const char *> at;
    for (auto l : lv)
      at.push_back((const char *)l->at);
    return at;
  };
  std::vector<const char *> was = flat(a), now = flat(r);
  bool cut = run && e.size != t.size;
  c.check(cut || e.size == t.size, "scalars-accepted", [&] { return vf::cat(what, " gives ", r.get_type().str()); });
  if (!c.check(now.size() * t.size == was.size() * e.size, "scalars-count", [&] { return vf::cat(what, " gives ", now.size(), " elements for ", was.size()); }))
    return;
  if (!cut)
    c.check(r.get_type() == a.get_type().with_replaced_dtype(tt), "scalars-type", [&] { return vf::cat(what, " gives ", r.get_type().str()); });
  for (size_t i = 0; i < now.size(); ++i) {
    const char *at = cut ? was[0] + i * t.size : was[i];
    c.check(now[i] == at, "scalars-place", [&] { return vf::cat(what, ": element ", i, " is ", now[i] - at, " away"); });
    c.check((uintptr_t)now[i] % tt.get_data_alignment() == 0, "scalars-align", [&] { return vf::cat(what, ": element ", i, " is not aligned to ", tt.get_data_alignment()); });
  }
  a = v.a = v.owner = nd::array(); // kept alive by the view alone
  dv::read(r);
}

// ---- vectors of sizes ------------------------------------------------------------------------------------------------
static void vectors(Ctx &c) {
  std::string log;
  if (c.rng.coin()) { // dimvectors by themselves and exchanged, with a plain vector beside each
    {
      std::unique_ptr<dimvector> v[3];
      ivec w[3];
      for (auto &p : v)
        p.reset(new dimvector());
      for (int n = 2 + (int)c.rng.below(12); n > 0; --n) {
        int i = (int)c.rng.below(3), j = (int)c.rng.below(3);
        ivec x(c.rng.below(8));
        for (auto &e : x)
          e = (intptr_t)c.rng.next();
        switch (c.rng.below(7)) {
        case 0: v[i]->init(x.size(), x.data()); w[i] = x; log += vf::cat(" init ", i, " ", x.size()); break;
        case 1: v[i].reset(new dimvector(x.size(), x.data())); w[i] = x; log += vf::cat(" new ", i, " ", x.size()); break;
        case 2: v[i]->init(x.size()); std::copy(x.begin(), x.end(), v[i]->get()); w[i] = x; log += vf::cat(" size ", i, " ", x.size()); break;
        case 3: v[i]->swap(*v[j]); w[i].swap(w[j]); log += vf::cat(" swap ", i, " ", j); break;
        case 4:
          if (i == j)
            break;
          *v[i] = std::move(*v[j]);
          w[i] = w[j];
          w[j].clear();
          log += vf::cat(" move ", i, " ", j);
          break;
        case 5: {
          std::unique_ptr<dimvector> m(new dimvector(std::move(*v[j])));
          ivec y = w[j];
          w[j].clear();
          v[i] = std::move(m);
          w[i] = y;
          log += vf::cat(" move out ", j, " ", i);
          break;
        }
        default: v[i].reset(i == j ? new dimvector(w[i].size(), ivec(w[i]).data()) : new dimvector(w[j].size(), *v[j])); w[i] = w[j]; log += vf::cat(" copy ", i, " ", j); break;
        }
        c.describe("dimvectors:" + log);
        for (int k = 0; k < 3; ++k)
          c.check(std::equal(w[k].begin(), w[k].end(), v[k]->get()), "vectors", [&] { return vf::cat(log, ": ", k); });
      }
    }
  } else {
    multi_shortvector<intptr_t, 3> v;
    for (int n = 1 + (int)c.rng.below(4); n > 0; --n) {
      int sz = (int)c.rng.below(7);
      log += vf::cat(" ", sz);
      c.describe("multi_shortvector of sizes" + log);
      v.init(sz);
      intptr_t base = (intptr_t)(c.rng.next() >> 8);
      for (int k = 0; k < 3; ++k)
        for (int i = 0; i < sz; ++i)
          v.get(k, i) = base + k * 100 + i;
      for (int k = 0; k < 3; ++k)
        for (int i = 0; i < sz; ++i)
          c.check(v.get(k)[i] == base + k * 100 + i && v.get_all()[k][i] == v.get(k, i), "vectors", [&] { return log; });
    }
  }
  c.saw("vectors of sizes", vf::hash_str(log));
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "A08", "views show the same elements; walks reach each once; memory order is kept",
                 {{"views", 12000, 120000, views},
                  {"asarray", 6000, 60000, asarrays},
                  {"with", 4000, 40000, with1d},
                  {"typed", 3000, 30000, typeds},
                  {"walk1", 5000, 50000, walk1},
                  {"walk2", 8000, 80000, walk2},
                  {"nested", 3000, 30000, nesteds},
                  {"keeporder", 6000, 60000, keeporder},
                  {"shapes", 8000, 100000, shapes},
                  {"orders", 5000, 50000, orders},
                  {"scalars", 8000, 80000, scalars},
                  {"vectors", 3000, 30000, vectors}});
}
