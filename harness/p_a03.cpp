// A03: array assignment writes the broadcast source, converted, to every destination element and writes nothing else.
// The expected contents are worked out from the raw memory of both sides before the call.
#include "arrgen.hpp"
#include <dynd/assignment.hpp>
#include <dynd/callable.hpp>
#include <dynd/option.hpp>
using namespace dynd;
using dv::Val;
using vf::Ctx;
typedef std::vector<intptr_t> ivec;

static const char *k_value = "a destination element is not the source element for its position";
static const char *k_other = "assignment writes outside the destination elements";
static const char *k_source = "assignment changes its source";
static const char *k_throw = "an assignment whose shapes broadcast throws";
static const char *k_misfit = "an assignment whose shapes do not broadcast is accepted";
static const char *k_part = "a refused assignment between fixed shapes wrote something";

// leaf conversions that keep the value: (source, destination)
static const char *pairs[][2] = {{"int32", "int32"},     {"int8", "int64"},       {"uint8", "int32"},     {"int32", "float64"},
                                 {"float32", "float64"}, {"float64", "float64"},  {"bool", "int32"},      {"int16", "int128"},
                                 {"uint64", "uint64"},   {"uint16", "float32"},   {"string", "string"},   {"bytes", "bytes"},
                                 {"int32", "complex[float64]"}, {"complex[float32]", "complex[float64]"}, {"complex[float64]", "complex[float64]"},
                                 {"fixed_string[7]", "string"}, {"fixed_string[5]", "fixed_string[8]"}, {"fixed_bytes[4]", "fixed_bytes[4]"},
                                 {"fixed_bytes[6, align=2]", "fixed_bytes[6, align=2]"}, {"uint128", "uint128"}, {"bool", "bool"},
                                 {"?int32", "?int32"},   {"?float64", "?float64"}, {"int64", "?int64"},    {"?string", "?string"}};
static const int npairs = sizeof pairs / sizeof pairs[0];
// a value as the destination leaf holds it
static Val conv(const Val &v, const ndt::type &s, const ndt::type &d) {
  switch (d.get_id()) {
  case float32_id:
  case float64_id:
    return v.k == Val::Int ? Val::F((double)v.i) : v;
  case complex_float64_id:
    return v.k == Val::Int ? Val::C((double)v.i, 0) : v;
  case string_id:
    if (v.k == Val::Raw)
      return Val::S(v.s.substr(0, v.s.find('\0')));
    return v;
  case fixed_string_id: {
    Val r = v;
    r.s.resize(d.get_data_size(), '\0');
    return r;
  }
  default:
    (void)s;
    return v;
  }
}

static ivec operand_shape(Ctx &c, const ivec &res) {
  size_t n = res.size(), drop = c.rng.chance(1, 3) ? c.rng.below(n + 1) : 0;
  ivec s(res.begin() + drop, res.end());
  for (intptr_t &x : s)
    if (c.rng.chance(1, 5))
      x = 1;
  return s;
}
static ivec project(const ivec &ix, const ivec &shape) {
  ivec r(ix.end() - shape.size(), ix.end());
  for (size_t i = 0; i < r.size(); ++i)
    if (shape[i] == 1)
      r[i] = 0;
  return r;
}
static bool fits(const ivec &d, const ivec &s) {
  if (s.size() > d.size())
    return false;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] != 1 && s[i] != d[d.size() - s.size() + i])
      return false;
  return true;
}
static std::vector<Val> all(const ag::View &v) {
  std::vector<Val> r;
  const char *md = v.owner.get()->metadata() + sizeof(fixed_dim_type_arrmeta);
  for (size_t k = 0; k < v.count; ++k)
    r.push_back(dv::read(v.elem, md, v.at((intptr_t)k)));
  return r;
}

// ---------------------------------------------------------------- strided to strided
static void strided(Ctx &c) {
  const char *const *pr = pairs[c.rng.below(npairs)];
  std::string se = pr[0], de = pr[1];
  bool rec = c.rng.chance(1, 4);
  if (rec) { // the same fields on both sides
    const char *const *q = pairs[c.rng.below(npairs)];
    const char *open = c.rng.coin() ? "{" : "(", *close = *open == '{' ? "}" : ")", *fa = *open == '{' ? "a: " : "", *fb = *open == '{' ? "b: " : "";
    se = vf::cat(open, fa, se, ", ", fb, "2 * ", q[0], close);
    de = vf::cat(open, fa, de, ", ", fb, "2 * ", q[1], close);
  }
  ivec ds = ag::gen_shape(c, 5, 5), ss = operand_shape(c, ds);
  if (c.rng.chance(1, 8) && !ss.empty())
    ss[c.rng.below(ss.size())] += 1 + c.rng.below(2);
  if (c.rng.chance(1, 30))
    ss.insert(ss.begin(), 2);
  bool fit = fits(ds, ss);
  ag::FillOpts fo;
  fo.small = true;
  ndt::type st(se), dt(de);
  ag::View d = ag::make_view(c, dt, ds, ag::gen_layout(c, false), fo), s = ag::make_view(c, st, ss, ag::gen_layout(c, true), fo);
  std::vector<Val> before = all(d), src = all(s);
  std::string what = vf::cat(d.str(), " = ", s.str());
  c.describe(what);
  std::vector<Val> want = before;
  std::function<Val(const Val &, const ndt::type &, const ndt::type &)> cv = [&](const Val &v, const ndt::type &a, const ndt::type &b) -> Val {
    if (v.k != Val::Seq)
      return conv(v, a, b);
    Val r = Val::L({});
    for (size_t i = 0; i < v.kids.size(); ++i)
      if (a.get_id() == fixed_dim_id)
        r.kids.push_back(cv(v.kids[i], a.extended<ndt::base_dim_type>()->get_element_type(), b.extended<ndt::base_dim_type>()->get_element_type()));
      else if (a.get_id() == tuple_id)
        r.kids.push_back(cv(v.kids[i], a.extended<ndt::tuple_type>()->get_field_types()[i], b.extended<ndt::tuple_type>()->get_field_types()[i]));
      else
        r.kids.push_back(cv(v.kids[i], a.extended<ndt::struct_type>()->get_field_types()[i], b.extended<ndt::struct_type>()->get_field_types()[i]));
    return r;
  };
  if (fit)
    ag::each(ds, [&](const ivec &ix) { want[d.index(ix)] = cv(src[s.index(project(ix, ss))], st, dt); });
  int how = (int)c.rng.below(3);
  dv::Outcome oc = dv::attempt([&] {
    if (how == 0)
      d.a.assign(s.a);
    else if (how == 1)
      d.a.vals() = s.a;
    else
      nd::assign({s.a}, {{"dst", d.a}});
  });
  c.saw(fit ? (rec ? "strided record" : "strided") : "strided misfit", vf::hash_str(what));
  c.check(all(s) == src, k_source, [&] { return what; });
  std::vector<Val> after = all(d);
  if (!fit) {
    c.check(!oc.ok, k_misfit, [&] { return what; });
    c.check(after == before, k_part, [&] { return what; });
    return;
  }
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  std::vector<char> in(d.count, 0);
  ag::each(ds, [&](const ivec &ix) { in[d.index(ix)] = 1; });
  for (size_t k = 0; k < d.count; ++k)
    if (!c.check(after[k] == want[k], in[k] ? k_value : k_other, [&] {
          return vf::cat(what, " at element ", k, " of the owner: ", dv::show(after[k]), " instead of ", dv::show(want[k]));
        }))
      return;
}

// ---------------------------------------------------------------- any nesting, variable dimensions too
struct Misfit {};
struct Unspecified {};
// what `dst` holds after `src` has been assigned to it
static Val expect(const ndt::type &dt, const char *dmd, const char *dp, const ndt::type &st, const Val &src) {
  int nd = (int)dt.get_ndim(), ns = (int)st.get_ndim();
  if (dt.is_builtin() || (dt.get_id() != fixed_dim_id && dt.get_id() != var_dim_id)) {
    if (st.get_id() == fixed_dim_id || st.get_id() == var_dim_id)
      throw Misfit();
    if (dt.get_id() == tuple_id || dt.get_id() == struct_id) {
      bool tup = dt.get_id() == tuple_id;
      auto off = reinterpret_cast<const uintptr_t *>(dmd);
      auto dtt = tup ? dt.extended<ndt::tuple_type>() : nullptr;
      auto dss = tup ? nullptr : dt.extended<ndt::struct_type>();
      auto &df = tup ? dtt->get_field_types() : dss->get_field_types();
      auto &ao = tup ? dtt->get_arrmeta_offsets() : dss->get_arrmeta_offsets();
      auto &sf = tup ? st.extended<ndt::tuple_type>()->get_field_types() : st.extended<ndt::struct_type>()->get_field_types();
      Val r = Val::L({});
      for (size_t i = 0; i < df.size(); ++i)
        r.kids.push_back(expect(df[i], dmd + ao[i], dp + off[i], sf[i], src.kids[i]));
      return r;
    }
    return conv(src, st, dt);
  }
  if (ns > nd)
    throw Misfit();
  const ndt::type &de = dt.extended<ndt::base_dim_type>()->get_element_type();
  bool own = ns == nd;
  const ndt::type &se = own ? st.extended<ndt::base_dim_type>()->get_element_type() : st;
  intptr_t n;
  const char *base = nullptr, *emd;
  intptr_t stride = 0;
  bool fresh = false;
  if (dt.get_id() == fixed_dim_id) {
    auto m = reinterpret_cast<const fixed_dim_type_arrmeta *>(dmd);
    n = m->dim_size;
    base = dp;
    stride = m->stride;
    emd = dmd + sizeof(*m);
  } else {
    auto m = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(dmd);
    auto v = reinterpret_cast<const ndt::var_dim_type::data_type *>(dp);
    emd = dmd + sizeof(*m);
    stride = m->stride;
    if (v->begin) {
      n = v->size;
      base = v->begin + m->offset;
    } else {
      n = own ? (intptr_t)src.kids.size() : 1;
      fresh = true;
    }
  }
  if (own && src.kids.size() != 1 && (intptr_t)src.kids.size() != n)
    throw Misfit();
  // rows of a fresh variable dimension are themselves fresh
  static const char zeros[4096] = {0};
  Val r = Val::L({});
  for (intptr_t i = 0; i < n; ++i) {
    std::vector<char> z;
    const char *p;
    if (fresh)
      p = zeros;
    else
      p = base + i * stride;
    r.kids.push_back(expect(de, emd, p, se, own ? src.kids[src.kids.size() == 1 ? 0 : i] : src));
  }
  return r;
}
// gives some variable rows storage before the assignment
static void preallocate(Ctx &c, const ndt::type &tp, const char *md, char *p, const std::vector<intptr_t> &sizes, size_t level, int mode) {
  if (tp.get_id() == fixed_dim_id) {
    auto m = reinterpret_cast<const fixed_dim_type_arrmeta *>(md);
    for (intptr_t i = 0; i < m->dim_size; ++i)
      preallocate(c, tp.extended<ndt::base_dim_type>()->get_element_type(), md + sizeof(*m), p + i * m->stride, sizes, level + 1, mode);
  } else if (tp.get_id() == var_dim_id) {
    if (mode == 0 || (mode == 1 && c.rng.coin()))
      return;
    auto m = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(md);
    auto d = reinterpret_cast<ndt::var_dim_type::data_type *>(p);
    size_t n = c.rng.chance(1, 8) ? c.rng.below(5) : level < sizes.size() ? sizes[level] : c.rng.below(4);
    d->begin = m->blockref->alloc(n);
    d->size = n;
    for (size_t i = 0; i < n; ++i)
      preallocate(c, tp.extended<ndt::base_dim_type>()->get_element_type(), md + sizeof(*m), d->begin + i * m->stride, sizes, level + 1, mode);
  }
}
static void fill_sizes(Ctx &c, const ndt::type &tp, const char *md, char *p, const std::vector<intptr_t> &sizes, size_t level, const ag::FillOpts &fo) {
  const ndt::type *et = tp.get_id() == fixed_dim_id || tp.get_id() == var_dim_id ? &tp.extended<ndt::base_dim_type>()->get_element_type() : nullptr;
  if (tp.get_id() == fixed_dim_id) {
    auto m = reinterpret_cast<const fixed_dim_type_arrmeta *>(md);
    for (intptr_t i = 0; i < m->dim_size; ++i)
      fill_sizes(c, *et, md + sizeof(*m), p + i * m->stride, sizes, level + 1, fo);
  } else if (tp.get_id() == var_dim_id) {
    auto m = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(md);
    auto d = reinterpret_cast<ndt::var_dim_type::data_type *>(p);
    size_t n = c.rng.chance(1, 6) ? 1 : c.rng.chance(1, 12) ? c.rng.below(5) : level < sizes.size() ? sizes[level] : c.rng.below(4);
    d->begin = m->blockref->alloc(n);
    d->size = n;
    for (size_t i = 0; i < n; ++i)
      fill_sizes(c, *et, md + sizeof(*m), d->begin + i * m->stride, sizes, level + 1, fo);
  } else
    ag::fill(c, tp, md, p, fo);
}
// the two sides of a nested type, dimensions spelled differently
static void twin(Ctx &c, int depth, const std::vector<intptr_t> *sizes, std::string &s, std::string &d) {
  int nd = sizes ? (int)sizes->size() : (int)c.rng.below(3);
  size_t drop = sizes && c.rng.chance(1, 4) ? c.rng.below(nd + 1) : 0;
  for (int i = 0; i < nd; ++i) {
    intptr_t n = sizes ? (*sizes)[i] : 1 + (intptr_t)c.rng.below(3);
    d += c.rng.chance(2, 5) ? "var * " : vf::cat(n, " * ");
    if (i >= (int)drop)
      s += c.rng.chance(1, 3) ? "var * " : vf::cat(c.rng.chance(1, 6) ? 1 : n, " * ");
  }
  if (depth < 2 && c.rng.chance(1, 4)) {
    bool st = c.rng.coin();
    int nf = 1 + (int)c.rng.below(3);
    s += st ? "{" : "(";
    d += st ? "{" : "(";
    for (int i = 0; i < nf; ++i) {
      std::string pre = vf::cat(i ? ", " : "", st ? vf::cat("f", i, ": ") : "");
      s += pre;
      d += pre;
      twin(c, depth + 1, nullptr, s, d);
    }
    s += st ? "}" : ")";
    d += st ? "}" : ")";
  } else {
    const char *const *pr = pairs[c.rng.below(npairs)];
    s += pr[0];
    d += pr[1];
  }
}
static void nested(Ctx &c) {
  std::vector<intptr_t> sizes(c.rng.below(4));
  for (intptr_t &x : sizes)
    x = c.rng.chance(1, 12) ? 0 : 1 + c.rng.below(4);
  std::string ss, ds;
  twin(c, 0, &sizes, ss, ds);
  ndt::type st(ss), dt(ds);
  ag::FillOpts fo;
  fo.small = true;
  fo.max_var = 3;
  nd::array s = nd::empty(st), d = nd::empty(dt);
  size_t drop = sizes.size() - std::min<size_t>(sizes.size(), st.get_ndim());
  fill_sizes(c, st, s.get()->metadata(), s.data(), std::vector<intptr_t>(sizes.begin() + drop, sizes.end()), 0, fo);
  int mode = (int)c.rng.below(3);
  preallocate(c, dt, d.get()->metadata(), d.data(), sizes, 0, mode);
  Val src = dv::read(s), want;
  std::string what = vf::cat(ds, mode == 0 ? " (fresh)" : mode == 1 ? " (half allocated)" : " (allocated)", " = ", ss, " ", dv::show(src));
  c.describe(what);
  bool fit = true;
  try {
    want = expect(dt, d.get()->metadata(), d.cdata(), st, src);
  } catch (Misfit) {
    fit = false;
  }
  dv::Outcome oc = dv::attempt([&] { d.assign(s); });
  c.saw(fit ? "nested" : "nested misfit", vf::hash_str(what));
  c.check(dv::read(s) == src, k_source, [&] { return what; });
  if (!fit) {
    c.check(!oc.ok, k_misfit, [&] { return what + " gave " + dv::show(dv::read(d)); });
    return;
  }
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  Val got = dv::read(d);
  c.check(got == want, k_value, [&] { return what + " gave " + dv::show(got) + " instead of " + dv::show(want); });
}

// ---------------------------------------------------------------- copies are independent
static void copies(Ctx &c) {
  ag::TypeOpts to;
  to.max_size = 4;
  std::string ts = ag::gen_type(c, to);
  nd::array a;
  if (c.rng.coin())
    a = ag::filled(c, ndt::type(ts));
  else {
    ts = ag::gen_leaf(c, to);
    ag::View v = ag::make_view(c, ndt::type(ts), ag::gen_shape(c, 4, 4), ag::gen_layout(c, true));
    a = v.a;
  }
  Val va = dv::read(a);
  std::string what = vf::cat(a.get_type().str(), " ", dv::show(va));
  c.describe(what);
  int how = (int)c.rng.below(4);
  nd::array b;
  dv::Outcome oc = dv::attempt([&] {
    if (how == 0)
      b = a.eval_copy();
    else if (how == 1)
      b = a.eval_copy(nd::read_access_flag | nd::immutable_access_flag);
    else if (how == 2)
      b = nd::array(a.eval_copy());
    else {
      b = nd::empty(a.get_type().get_canonical_type());
      b.assign(a);
    }
  });
  c.saw(vf::cat("copy ", how).c_str(), vf::hash_str(what));
  // no assignment is registered for these two leaf types, and the library says so
  if (!oc.ok && oc.cls.find("type_error") != std::string::npos && (ts.find("float16") != ts.npos || ts.find("char") != ts.npos))
    return;
  if (!c.check(oc.ok, "copying an array throws", [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  c.check(dv::read(b) == va, k_value, [&] { return what + " copied (" + vf::cat(how) + ") is " + b.get_type().str() + " " + dv::show(dv::read(b)); });
  c.check(dv::read(a) == va, k_source, [&] { return what; });
  if (how == 1)
    c.check(b.is_immutable(), "an immutable copy is not immutable", [&] { return what; });
  // no leaf of the copy is a leaf of the original
  std::vector<const ag::Node *> la, lb;
  ag::Node ta = ag::tree(a), tb = ag::tree(b);
  ag::leaves(ta, la);
  ag::leaves(tb, lb);
  std::set<char *> at;
  for (auto *n : la)
    if (n->tp.get_data_size())
      at.insert(n->at);
  for (auto *n : lb)
    if (n->tp.get_data_size())
      c.check(!at.count(n->at), "a copy shares memory with the original", [&] { return what; });
  if (how == 1)
    return;
  // change every leaf of one; the other stays
  bool which = c.rng.coin();
  Val keep = which ? dv::read(b) : va;
  for (auto *n : which ? la : lb)
    ag::fill_leaf(c, n->tp, n->at, ag::FillOpts());
  c.check(dv::read(which ? b : a) == keep, "a copy changes when the other does", [&] { return what; });
}

// ---------------------------------------------------------------- C++ values in and out
template <class T>
static Val vals(const std::vector<T> &v) {
  Val r = Val::L({});
  for (T x : v)
    r.kids.push_back(std::is_floating_point<T>::value ? Val::F((double)x) : Val::I((dv::i128)x));
  return r;
}
template <class T>
static void cpp_type(Ctx &c, const char *tn) {
  std::vector<T> v(c.rng.below(7));
  for (size_t i = 0; i < v.size(); ++i)
    v[i] = std::is_floating_point<T>::value ? (T)(c.rng.range(-10000, 10000) / 16.0) : (T)c.rng.next();
  c.describe(vf::cat(tn, " of ", v.size()));
  nd::array a(v);
  c.check(a.get_type().str() == vf::cat(v.size(), " * ", tn) && dv::read(a) == vals(v), "an array made from a C++ vector does not hold its values",
          [&] { return a.get_type().str() + " " + dv::show(dv::read(a)); });
  c.saw(vf::cat("vector ", tn).c_str(), vf::hash_bytes(v.data(), v.size() * sizeof(T)));
  for (size_t i = 0; i < v.size(); ++i)
    c.check(a((intptr_t)i).as<T>() == v[i], "as<T>() of an element is not the value put in", [&] { return vf::cat(tn, " ", i); });
  // nd::array of a scalar
  T x = v.empty() ? (T)1 : v[0];
  nd::array s(x);
  c.check(s.get_type().str() == tn && s.as<T>() == x, "a scalar array does not hold its value", [&] { return s.get_type().str(); });
  // through a C array
  T raw[2][3];
  Val w = Val::L({});
  for (auto &row : raw) {
    std::vector<T> r;
    for (T &e : row)
      r.push_back(e = std::is_floating_point<T>::value ? (T)(c.rng.range(-10000, 10000) / 16.0) : (T)c.rng.next());
    w.kids.push_back(vals(r));
  }
  nd::array r2(raw);
  c.check(dv::read(r2) == w, "an array made from a C array does not hold its values", [&] { return r2.get_type().str() + " " + dv::show(dv::read(r2)); });
  // into a strided destination, by vals
  nd::array d = nd::empty(ndt::type(vf::cat(v.size(), " * 2 * ", tn)));
  memset(d.data(), 0, v.size() * 2 * sizeof(T));
  if (v.size()) {
    d(irange(), 1).vals() = v;
    Val got = dv::read(d);
    for (size_t i = 0; i < v.size(); ++i)
      c.check(got.kids[i].kids[1] == vals(v).kids[i] && !got.kids[i].kids[0].i && got.kids[i].kids[0].d == 0, k_value, [&] { return dv::show(got); });
  }
}
static void cpp(Ctx &c) {
  switch (c.rng.below(9)) {
  case 0:
    return cpp_type<int8_t>(c, "int8");
  case 1:
    return cpp_type<int16_t>(c, "int16");
  case 2:
    return cpp_type<int32_t>(c, "int32");
  case 3:
    return cpp_type<int64_t>(c, "int64");
  case 4:
    return cpp_type<uint8_t>(c, "uint8");
  case 5:
    return cpp_type<uint16_t>(c, "uint16");
  case 6:
    return cpp_type<uint64_t>(c, "uint64");
  case 7:
    return cpp_type<float>(c, "float32");
  default:
    return cpp_type<double>(c, "float64");
  }
}
static void cpp_strings(Ctx &c) {
  std::vector<std::string> v(c.rng.below(6));
  for (std::string &s : v)
    for (size_t i = 0, n = c.rng.below(40); i < n; ++i)
      s += (char)('a' + c.rng.below(26));
  nd::array a(v);
  c.saw("vector string", vf::hash_str(vf::cat(v.size(), v.empty() ? "" : v[0])));
  Val w = Val::L({});
  for (auto &s : v)
    w.kids.push_back(Val::S(s));
  c.check(dv::read(a) == w, "an array made from C++ strings does not hold them", [&] { return a.get_type().str() + " " + dv::show(dv::read(a)); });
  for (size_t i = 0; i < v.size(); ++i)
    c.check(a((intptr_t)i).as<std::string>() == v[i], "as<std::string>() of an element is not the value put in", [&] { return v[i]; });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "A03",
                 "after each assignment every destination element, and every element around it, is compared with the broadcast model",
                 {{"strided", 24000, 1200000, strided},
                  {"nested", 24000, 1200000, nested},
                  {"copies", 10000, 400000, copies},
                  {"cpp", 4000, 100000, cpp},
                  {"cpp_strings", 1000, 20000, cpp_strings}});
}
