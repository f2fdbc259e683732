// A12: equals_exact says whether two arrays have the same type and equal elements, and nothing else about them matters.
// The answer is worked out from the raw memory of both.
#include "arrgen.hpp"
#include <dynd/comparison.hpp>
using namespace dynd;
using dv::Val;
using vf::Ctx;
typedef std::vector<intptr_t> ivec;

static const char *k_equal = "arrays of equal type and elements are not equal";
static const char *k_differ = "arrays that differ are equal";
static const char *k_throw = "a comparison throws";
static const char *k_sym = "equality depends on the order";
static const char *k_self = "an array is not equal to itself";
static const char *k_changed = "a comparison changes an array";
static const char *k_leak = "a comparison leaves memory behind";

static void set_elem(Ctx &c, ag::View &v, const ivec &ix, uint64_t seed, const ag::FillOpts &fo) {
  auto keep = c.rng;
  c.rng = decltype(c.rng)(seed);
  ag::fill(c, v.elem, v.owner.get()->metadata() + sizeof(fixed_dim_type_arrmeta), v.at(ix), fo);
  c.rng = keep;
}
static Val whole(const ag::View &v) {
  std::function<Val(ivec)> go = [&](ivec ix) -> Val {
    if (ix.size() == v.shape.size())
      return v.val(ix);
    Val r = Val::L({});
    for (intptr_t i = 0; i < v.shape[ix.size()]; ++i) {
      ivec k = ix;
      k.push_back(i);
      r.kids.push_back(go(k));
    }
    return r;
  };
  return go({});
}
// what the comparison functions take: built-in numbers up to 64 bits, strings, bytes, and records of these
static bool comparable(const ndt::type &t) {
  switch (t.get_id()) {
  case bool_id: case int8_id: case int16_id: case int32_id: case int64_id: case uint8_id: case uint16_id: case uint32_id: case uint64_id:
  case float32_id: case float64_id: case complex_float32_id: case complex_float64_id: case string_id: case bytes_id:
    return true;
  case tuple_id:
    for (const ndt::type &f : t.extended<ndt::tuple_type>()->get_field_types())
      if (!comparable(f))
        return false;
    return true;
  case struct_id:
    for (const ndt::type &f : t.extended<ndt::struct_type>()->get_field_types())
      if (!comparable(f))
        return false;
    return true;
  default:
    return false;
  }
}
static bool must(ndt::type t) {
  if (t.get_id() == var_dim_id)
    t = t.extended<ndt::base_dim_type>()->get_element_type();
  while (t.get_id() == fixed_dim_id)
    t = t.extended<ndt::base_dim_type>()->get_element_type();
  return comparable(t);
}
static void ask(Ctx &c, const nd::array &a, const nd::array &b, bool want, const std::string &what) {
  bool r = false, q = false;
  dv::Outcome oc = dv::attempt([&] { r = a.equals_exact(b); });
  if (!oc.ok && a.get_type() == b.get_type() && !must(a.get_type())) {
    c.saw("not comparable", vf::hash_str(what));
    return;
  }
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  c.check(r == want, want ? k_equal : k_differ, [&] { return what; });
  oc = dv::attempt([&] { q = b.equals_exact(a); });
  c.check(oc.ok && q == r, k_sym, [&] { return what + ": " + oc.msg; });
}

static std::string gen_plain(Ctx &c, int depth = 0) {
  static const char *l[] = {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64",
                            "float32", "float64", "complex[float32]", "complex[float64]", "string", "bytes"};
  if (depth == 2 || !c.rng.chance(2, 5))
    return l[c.rng.below(15)];
  bool st = c.rng.coin();
  std::string s = st ? "{" : "(";
  int n = c.rng.chance(1, 8) ? 0 : 1 + (int)c.rng.below(c.rng.chance(1, 6) ? 12 : 4);
  for (int i = 0; i < n; ++i)
    s += vf::cat(i ? ", " : "", st ? vf::cat("f", i, ": ") : "", gen_plain(c, depth + 1));
  return s + (st ? "}" : ")");
}
static std::string gen_elem(Ctx &c, int ndim) {
  if (c.rng.chance(2, 3))
    return gen_plain(c);
  ag::TypeOpts o;
  o.options = false;
  o.max_ndim = ndim;
  for (;;) {
    std::string s = ag::gen_type(c, o);
    if (s.find("char") == s.npos && s.find("float16") == s.npos)
      return s;
  }
}
static void pairs(Ctx &c) {
  std::string es = gen_elem(c, c.rng.chance(2, 3) ? 1 : 0);
  ivec shape = ag::gen_shape(c, 3, 4);
  ndt::type e(es);
  ag::FillOpts fo;
  fo.small = c.rng.coin();
  ag::View a = ag::make_view(c, e, shape, ag::gen_layout(c, false), fo), b = ag::make_view(c, e, shape, ag::gen_layout(c, false), fo);
  uint64_t base = c.rng.next();
  uint64_t n = 0;
  ag::each(shape, [&](const ivec &ix) {
    set_elem(c, a, ix, base + n, fo);
    set_elem(c, b, ix, base + n++, fo);
  });
  int mut = (int)c.rng.below(3);
  std::string how = "same";
  if (n && mut == 1) { // another element altogether
    how = "one element";
    ivec ix;
    for (intptr_t s : shape)
      ix.push_back(c.rng.chance(1, 3) ? s - 1 : (intptr_t)c.rng.below(s));
    set_elem(c, b, ix, c.rng.next(), fo);
  } else if (n && mut == 2) { // one leaf
    ag::Node t = ag::tree(b.a);
    std::vector<const ag::Node *> ls;
    ag::leaves(t, ls);
    if (!ls.empty()) {
      how = "one leaf";
      size_t at = c.rng.chance(1, 3) ? ls.size() - 1 : c.rng.below(ls.size());
      const ag::Node *l = ls[at];
      type_id_t id = l->tp.get_id();
      if ((id == string_id || id == bytes_id) && c.rng.chance(3, 4)) { // nearly the same
        how = "one character";
        std::string x, y;
        size_t len = c.rng.below(40);
        for (size_t i = 0; i < len; ++i)
          x += "a\0b"[c.rng.below(3)];
        y = x;
        if (len && c.rng.chance(2, 3))
          y[c.rng.below(len)] = "a\0b"[c.rng.below(3)];
        else
          y += std::string(c.rng.below(3), '\0');
        ag::Node ta = ag::tree(a.a);
        std::vector<const ag::Node *> la;
        ag::leaves(ta, la);
        auto put = [&](char *p, const std::string &s) {
          if (id == string_id)
            reinterpret_cast<dynd::string *>(p)->assign(s.data(), s.size());
          else
            reinterpret_cast<dynd::bytes *>(p)->assign(s.data(), s.size());
        };
        put(la[at]->at, x);
        put(l->at, y);
      } else
      ag::fill_leaf(c, l->tp, l->at, fo);
    }
  }
  Val va = whole(a), vb = whole(b);
  bool want = va == vb;
  std::string what = vf::cat(a.str(), " and ", b.str(), " ", how, ": ", dv::show(va).substr(0, 300), want ? " is " : " is not ", dv::show(vb).substr(0, 300));
  c.describe(what);
  c.saw(want ? "equal" : "different", vf::hash_str(what));
  ask(c, a.a, b.a, want, what);
  bool self = false;
  nd::array a2 = nd::make_array(a.a.get_type(), const_cast<char *>(a.a.cdata()), a.owner, a.a.get_flags());
  dv::Outcome oc = dv::attempt([&] { self = a.a.equals_exact(a.a); });
  c.check(oc.ok && self, k_self, [&] { return what + " " + oc.msg; });
  c.check(whole(a) == va && whole(b) == vb, k_changed, [&] { return what; });
}
// whole arrays as nd::empty makes them, with a variable dimension in front
static void rows(Ctx &c) {
  std::string es = "var * " + gen_elem(c, 1);
  if (c.rng.chance(1, 4))
    es = vf::cat(c.rng.below(4), " * ") + es;
  else if (c.rng.chance(1, 3))
    es = vf::cat("var * ", 1 + c.rng.below(3), " * ", gen_plain(c));
  ndt::type t(es);
  ag::FillOpts fo, fp;
  fo.small = true;
  auto keep = c.rng;
  nd::array a = ag::filled(c, t, fo);
  if (c.rng.coin()) { // the same contents
    auto later = c.rng;
    c.rng = keep;
    nd::array b = ag::filled(c, t, fo);
    c.rng = later;
    c.rng.next();
    if (c.rng.chance(1, 3)) {
      ag::Node tr = ag::tree(b);
      std::vector<const ag::Node *> ls;
      ag::leaves(tr, ls);
      if (!ls.empty()) {
        const ag::Node *l = ls[c.rng.below(ls.size())];
        ag::fill_leaf(c, l->tp, l->at, fo);
      }
    }
    Val va = dv::read(a), vb = dv::read(b);
    std::string what = vf::cat(es, ": ", dv::show(va).substr(0, 300), " and ", dv::show(vb).substr(0, 300));
    c.describe(what);
    c.saw(va == vb ? "equal rows" : "rows that differ in a leaf", vf::hash_str(what));
    ask(c, a, b, va == vb, what);
  } else {
    nd::array b = ag::filled(c, t, fo);
    Val va = dv::read(a), vb = dv::read(b);
    std::string what = vf::cat(es, ": ", dv::show(va).substr(0, 300), " and ", dv::show(vb).substr(0, 300));
    c.describe(what);
    c.saw("rows of different lengths", vf::hash_str(what));
    ask(c, a, b, va == vb, what);
  }
}
// two views of the same memory, which may start at the same place
static void shared(Ctx &c) {
  std::string es = gen_plain(c);
  intptr_t n = (intptr_t)c.rng.below(5), nd = 1 + (intptr_t)c.rng.below(2);
  ndt::type e(es), t = ndt::make_fixed_dim(n, e);
  if (nd == 2)
    t = ndt::make_fixed_dim(1 + (intptr_t)c.rng.below(3), t);
  ag::FillOpts fo;
  fo.small = true;
  ag::View o = ag::make_view(c, e, {40}, ag::Contiguous, fo);
  uint64_t few = c.rng.next(), kinds = c.rng.coin() ? 1 + c.rng.below(3) : 40; // many equal elements
  for (intptr_t i = 0; i < 40; ++i)
    set_elem(c, o, {i}, few + (kinds == 40 ? (uint64_t)i : c.rng.below(kinds)), fo);
  intptr_t es_size = (intptr_t)e.get_default_data_size(), at = 10 + (intptr_t)c.rng.below(10);
  nd::array v[2];
  for (auto &x : v) {
    x = nd::make_array(t, o.at(c.rng.chance(2, 3) ? at : 10 + (intptr_t)c.rng.below(10)), o.owner, (uint64_t)(nd::read_access_flag | nd::write_access_flag));
    char *md = x.get()->metadata();
    ndt::type w = t;
    for (intptr_t d = 0; d < nd; ++d) {
      auto m = reinterpret_cast<fixed_dim_type_arrmeta *>(md);
      m->dim_size = w.extended<ndt::fixed_dim_type>()->get_fixed_dim_size();
      m->stride = es_size * c.rng.range(-2, 3);
      w = w.extended<ndt::base_dim_type>()->get_element_type();
      md += sizeof(*m);
    }
    if (!e.is_builtin() && e.get_arrmeta_size() > 0)
      e.extended()->arrmeta_copy_construct(md, o.owner.get()->metadata() + sizeof(fixed_dim_type_arrmeta), o.owner);
  }
  Val va = dv::read(v[0]), vb = dv::read(v[1]);
  std::string what = vf::cat(t.str(), " in the same memory, ", v[1].cdata() - v[0].cdata(), " bytes apart: ", dv::show(va).substr(0, 300), " and ", dv::show(vb).substr(0, 300));
  c.describe(what);
  c.saw(va == vb ? "equal views" : "different views of one memory", vf::hash_str(what));
  ask(c, v[0], v[1], va == vb, what);
}
static void types(Ctx &c) {
  std::string s = gen_elem(c, 2), t = gen_elem(c, 2);
  ndt::type x(s), y(t);
  if (x == y)
    return;
  nd::array a = ag::filled(c, x), b = ag::filled(c, y);
  std::string what = s + " and " + t;
  c.describe(what);
  c.saw("types", vf::hash_str(what));
  ask(c, a, b, false, what);
}
static void balance(Ctx &c) {
  ag::FillOpts fo;
  fo.small = true;
  std::string es = gen_elem(c, 2);
  auto keep = c.rng;
  nd::array a = ag::filled(c, ndt::type(es), fo);
  if (c.rng.coin())
    c.rng = keep;
  nd::array b = ag::filled(c, ndt::type(es), fo);
  c.describe(es);
  auto go = [&] { dv::attempt([&] { a.equals_exact(b); }); };
  go();
  go();
  size_t h = vf::heap_bytes();
  go();
  c.saw("balance", vf::hash_str(es));
  c.check(vf::heap_bytes() == h, k_leak, [&] { return vf::cat(es, ": ", (long)(vf::heap_bytes() - h)); });
}
int main(int argc, char **argv) {
  return vf::run(argc, argv, "A12", "two arrays are equal exactly if their types are the same and their elements are equal",
                 {{"pairs", 6000, 60000, pairs}, {"rows", 4000, 40000, rows}, {"shared", 4000, 40000, shared}, {"types", 2000, 20000, types}, {"balance", 2000, 20000, balance}});
}
