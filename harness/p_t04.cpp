// T04: the memory layout of arrays, against the C layout of the same declaration: every leaf in its own aligned bytes,
// inside memory the array owns, and independent of every other leaf.
#include "arrgen.hpp"
#include <dynd/callable.hpp>
using namespace dynd;
using dv::Val;
using vf::Ctx;
typedef std::vector<intptr_t> ivec;

static const char *k_size = "a size or alignment reported is not that of the layout";
static const char *k_offset = "an offset, stride or dimension in the array's metadata is not that of the layout";
static const char *k_align = "an element is not aligned";
static const char *k_overlap = "two leaves overlap, or one lies outside the array's memory";
static const char *k_write = "a leaf does not read back what was written to it, or changed when another was written";
static const char *k_contig = "a fresh C-order array is not contiguous, or is not reported so";
static const char *k_fresh = "fresh variable-sized data is not empty";
static const char *k_throw = "making an array of a concrete type throws";
static const char *k_huge = "an array larger than the address space is made";
static const char *k_fill = "an array made with given contents does not hold them";
static const char *k_like = "an array made like another has not its shape, or not its order of axes";

struct Lay { size_t size, align; };
static size_t up(size_t x, size_t a) { return (x + a - 1) / a * a; }
static Lay leaf_layout(const ndt::type &tp) {
  switch (tp.get_id()) {
  case bool_id: case int8_id: case uint8_id: return {1, 1};
  case int16_id: case uint16_id: case float16_id: return {2, 2};
  case int32_id: case uint32_id: return {4, 4};
  case float32_id: return {4, 4};
  case int64_id: case uint64_id: case float64_id: return {8, 8};
  case int128_id: return {16, alignof(dynd::int128)};
  case uint128_id: return {16, alignof(dynd::uint128)};
  case float128_id: return {16, alignof(dynd::float128)};
  case complex_float32_id: return {8, 4};
  case complex_float64_id: return {16, 8};
  case string_id: case bytes_id: return {16, 8};
  case type_id: case pointer_id: return {8, 8};
  case char_id: {
    size_t u = tp.get_data_size();
    return {u, u};
  }
  case fixed_string_id: {
    auto f = tp.extended<ndt::fixed_string_type>();
    string_encoding_t e = f->get_encoding();
    size_t u = e == string_encoding_utf_32 ? 4 : e == string_encoding_utf_16 || e == string_encoding_ucs_2 ? 2 : 1;
    return {u * f->get_size(), u};
  }
  case fixed_bytes_id: return {tp.get_data_size(), tp.get_data_alignment()}; // as spelled: T01
  case option_id: return leaf_layout(tp.extended<ndt::option_type>()->get_value_type());
  default: return {0, 0};
  }
}
struct Fields {
  std::vector<ndt::type> tp;
  std::vector<uintptr_t> md;
};
static Fields fields(const ndt::type &tp) {
  Fields f;
  if (tp.get_id() == tuple_id)
    f.tp = tp.extended<ndt::tuple_type>()->get_field_types(), f.md = tp.extended<ndt::tuple_type>()->get_arrmeta_offsets();
  else
    f.tp = tp.extended<ndt::struct_type>()->get_field_types(), f.md = tp.extended<ndt::struct_type>()->get_arrmeta_offsets();
  return f;
}
static Lay layout(const ndt::type &tp) {
  switch (tp.get_id()) {
  case fixed_dim_id: {
    Lay e = layout(tp.extended<ndt::base_dim_type>()->get_element_type());
    return {e.size * (size_t)tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size(), e.align};
  }
  case var_dim_id: return {16, 8};
  case tuple_id:
  case struct_id: {
    Lay r{0, 1};
    for (const ndt::type &t : fields(tp).tp) {
      Lay f = layout(t);
      r.size = up(r.size, f.align) + f.size;
      r.align = std::max(r.align, f.align);
    }
    r.size = up(r.size, r.align);
    return r;
  }
  default: return leaf_layout(tp);
  }
}

// compares the metadata of a fresh array with the layout
static std::string meta_wrong(const ndt::type &tp, const char *md) {
  switch (tp.get_id()) {
  case fixed_dim_id: {
    const ndt::type &et = tp.extended<ndt::base_dim_type>()->get_element_type();
    auto m = reinterpret_cast<const fixed_dim_type_arrmeta *>(md);
    if (m->dim_size != tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size())
      return vf::cat("dimension ", m->dim_size, " of ", tp.str());
    if (m->stride != (intptr_t)layout(et).size && m->dim_size > 1)
      return vf::cat("stride ", m->stride, " of ", tp.str(), " instead of ", layout(et).size);
    return meta_wrong(et, md + sizeof *m);
  }
  case var_dim_id: {
    const ndt::type &et = tp.extended<ndt::base_dim_type>()->get_element_type();
    auto m = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(md);
    if (m->stride != (intptr_t)layout(et).size || m->offset != 0)
      return vf::cat("stride ", m->stride, " offset ", m->offset, " of ", tp.str(), " instead of ", layout(et).size);
    return meta_wrong(et, md + sizeof *m);
  }
  case tuple_id:
  case struct_id: {
    auto off = reinterpret_cast<const uintptr_t *>(md);
    size_t o = 0;
    Fields f = fields(tp);
    for (size_t i = 0; i < f.tp.size(); ++i) {
      Lay l = layout(f.tp[i]);
      o = up(o, l.align);
      if (off[i] != o)
        return vf::cat("field ", i, " of ", tp.str(), " at ", off[i], " instead of ", o);
      o += l.size;
      std::string w = meta_wrong(f.tp[i], md + f.md[i]);
      if (!w.empty())
        return w;
    }
    return "";
  }
  default: return "";
  }
}

struct Piece { const char *b, *e; std::string who; };
static void pieces(const ag::Node &n, std::vector<Piece> &out) {
  if (n.k == ag::Node::Leaf)
    out.push_back({n.at, n.at + leaf_layout(n.tp).size, n.tp.str()});
  else if (n.k == ag::Node::Dim && n.tp.get_id() == var_dim_id)
    out.push_back({n.at, n.at + 16, n.tp.str()});
  for (const ag::Node &x : n.kids)
    pieces(x, out);
}
static std::string align_wrong(const ag::Node &n) {
  Lay l = layout(n.tp);
  if ((uintptr_t)n.at % l.align)
    return vf::cat(n.tp.str(), " at an address ", (uintptr_t)n.at % l.align, " past a multiple of ", l.align);
  for (const ag::Node &x : n.kids) {
    std::string w = align_wrong(x);
    if (!w.empty())
      return w;
  }
  return "";
}
static std::string overlap(const ag::Node &t) {
  std::vector<Piece> p;
  pieces(t, p);
  std::sort(p.begin(), p.end(), [](const Piece &a, const Piece &b) { return a.b < b.b; });
  const Piece *last = nullptr;
  for (const Piece &x : p) {
    if (x.b == x.e)
      continue;
    if (last && x.b < last->e)
      return vf::cat(last->who, " and ", x.who, " share ", last->e - x.b, " bytes");
    if (!last || x.e > last->e)
      last = &x;
  }
  return "";
}
// the pieces of the root, not behind a variable dimension, must lie in [b, e)
static std::string outside(const ag::Node &n, const char *b, const char *e) {
  if (n.k == ag::Node::Leaf || n.tp.get_id() == var_dim_id) {
    size_t s = n.k == ag::Node::Leaf ? leaf_layout(n.tp).size : 16;
    if (s && (n.at < b || n.at + s > e))
      return vf::cat(n.tp.str(), " at ", n.at - b, " of ", e - b, " bytes");
    return "";
  }
  for (const ag::Node &x : n.kids) {
    std::string w = outside(x, b, e);
    if (!w.empty())
      return w;
  }
  return "";
}
static std::string gen(Ctx &c) {
  ag::TypeOpts o;
  o.depth = 3;
  o.max_size = c.rng.chance(1, 10) ? 9 : 3;
  std::string s = ag::gen_type(c, o);
  // leaves the generator of arrays does not know
  static const char *extra[] = {"type", "fixed_bytes[16, align=16]", "fixed_bytes[3]", "fixed_bytes[24, align=8]", "fixed_string[5, 'ucs2']", "fixed_string[9, 'A']"};
  if (c.rng.chance(1, 4)) {
    size_t at = s.find(c.rng.coin() ? "int32" : "float64");
    if (at != std::string::npos && (at == 0 || (s[at - 1] != '[' && s[at - 1] != 'u' && s[at - 1] != '?')))
      s.replace(at, s[at] == 'i' ? 5 : 7, extra[c.rng.below(6)]);
  }
  return s;
}

static bool empty_var(const ag::Node &n) {
  if (n.k == ag::Node::Dim && n.tp.get_id() == var_dim_id && !n.kids.empty())
    return false;
  for (const ag::Node &x : n.kids)
    if (!empty_var(x))
      return false;
  return true;
}
static void fill_seen(const ag::Node &n, std::vector<Val> &out) {
  std::vector<const ag::Node *> l;
  ag::leaves(n, l);
  for (const ag::Node *x : l)
    out.push_back(dv::read(x->tp, nullptr, x->at));
}

static double weight(const ndt::type &tp) { // about how many leaves an array of it has
  switch (tp.get_id()) {
  case fixed_dim_id: return tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size() * weight(tp.extended<ndt::base_dim_type>()->get_element_type());
  case var_dim_id: return 4 * weight(tp.extended<ndt::base_dim_type>()->get_element_type());
  case struct_id:
  case tuple_id: {
    double n = 1;
    for (const ndt::type &t : fields(tp).tp)
      n += weight(t);
    return n;
  }
  default: return 1;
  }
}
static void fresh(Ctx &c) {
  ndt::type tp(gen(c));
  for (double most = c.rng.chance(1, 20) ? 2000 : 200; weight(tp) > most;)
    tp = ndt::type(gen(c));
  std::string what = tp.str();
  c.describe(what);
  nd::array a;
  int how = (int)c.rng.below(4);
  dv::Outcome oc = dv::attempt([&] {
    if (how == 0 && tp.get_id() == fixed_dim_id)
      a = nd::empty(tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size(), tp.extended<ndt::base_dim_type>()->get_element_type());
    else if (how == 1 && tp.get_id() == var_dim_id)
      a = nd::empty(-1, tp.extended<ndt::base_dim_type>()->get_element_type());
    else if (how == 2) {
      ivec sh;
      ndt::type t = tp;
      while (t.get_id() == fixed_dim_id || t.get_id() == var_dim_id) {
        sh.push_back(t.get_id() == fixed_dim_id ? t.extended<ndt::fixed_dim_type>()->get_fixed_dim_size() : -1);
        t = ndt::type(t.extended<ndt::base_dim_type>()->get_element_type());
      }
      a = nd::dtyped_empty(sh, t);
    } else
      a = nd::empty(tp);
  });
  c.saw(vf::cat("empty ", how).c_str(), vf::hash_str(what));
  if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.cls, " ", oc.msg); }))
    return;
  c.check(a.get_type() == tp, k_size, [&] { return vf::cat(what, ": an array of it has type ", a.get_type().str()); });
  Lay l = layout(tp);
  c.check(tp.get_default_data_size() == l.size && tp.get_data_alignment() == l.align, k_size,
          [&] { return vf::cat(what, ": size ", tp.get_default_data_size(), " alignment ", tp.get_data_alignment(), " instead of ", l.size, " and ", l.align); });
  std::string w = meta_wrong(tp, a.get()->metadata());
  c.check(w.empty(), k_offset, [&] { return what + ": " + w; });
  ag::Node t = ag::tree(a);
  c.check(empty_var(t), k_fresh, [&] { return what; });
  w = align_wrong(t);
  c.check(w.empty(), k_align, [&] { return what + ": " + w; });
  w = outside(t, a.cdata(), a.cdata() + l.size);
  c.check(w.empty(), k_overlap, [&] { return what + ": " + w; });
  bool contig = true;
  { // dimensions of size one may have any stride
    dv::Outcome q = dv::attempt([&] { contig = tp.get_ndim() == 0 || tp.get_ndim() != tp.get_strided_ndim() || tp.extended()->is_c_contiguous(a.get()->metadata()); });
    bool ones = false;
    for (ndt::type d = tp; d.get_id() == fixed_dim_id; d = ndt::type(d.extended<ndt::base_dim_type>()->get_element_type()))
      ones |= d.extended<ndt::fixed_dim_type>()->get_fixed_dim_size() <= 1;
    if (!ones && tp.get_dtype().is_builtin()) // other elements are never reported to be
      c.check(q.ok && contig, k_contig, [&] { return what; });
  }
  // all bytes of the array belong to it
  if (tp.get_id() != type_id && w.empty()) {
    ag::FillOpts fo;
    fo.max_var = 5;
    ag::fill(c, tp, a.get()->metadata(), a.data(), fo);
    t = ag::tree(a);
    std::string x = overlap(t);
    c.check(x.empty(), k_overlap, [&] { return what + ": " + x; });
    x = align_wrong(t);
    c.check(x.empty(), k_align, [&] { return what + ": " + x; });
    std::vector<const ag::Node *> lv;
    ag::leaves(t, lv);
    if (lv.empty())
      return;
    // one leaf is written again and again, by memory and by assignment; the others have to stay
    for (int turn = 0; turn < 4; ++turn) {
      std::vector<Val> before, after;
      fill_seen(t, before);
      size_t k = c.rng.below(lv.size());
      const ag::Node *n = lv[k];
      Val want;
      if (n->tp.get_id() == type_id) {
        ndt::type nt(c.rng.coin() ? "3 * int8" : "{x: string}");
        *reinterpret_cast<ndt::type *>(n->at) = nt;
        want = Val::S(nt.str());
      } else {
        ag::fill_leaf(c, n->tp, n->at, fo);
        want = dv::read(n->tp, nullptr, n->at);
      }
      fill_seen(ag::tree(a), after);
      before[k] = want;
      c.check(before == after, k_write, [&] { return vf::cat(what, " leaf ", k, " of ", lv.size()); });
      c.check(dv::read(a) == dv::read(a.get_type(), a.get()->metadata(), a.cdata()), k_write, [&] { return what; });
    }
    if (c.idx < 3)
      c.sample(vf::cat(what, ": ", lv.size(), " leaves, size ", l.size, " alignment ", l.align));
  }
}

// writing through the library: every scalar cell of an array
static void cells(Ctx &c) {
  static const char *num[] = {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"};
  std::string s;
  int nd = (int)c.rng.below(4);
  for (int i = 0; i < nd; ++i)
    s += vf::cat(1 + c.rng.below(4), " * ");
  int nf = 1 + (int)c.rng.below(6);
  s += "{";
  for (int i = 0; i < nf; ++i)
    s += vf::cat(i ? ", " : "", "f", i, ": ", c.rng.chance(1, 4) ? vf::cat(1 + c.rng.below(3), " * ") : std::string(), num[c.rng.below(11)]);
  s += "}";
  ndt::type tp(s);
  c.describe(s);
  nd::array a = nd::empty(tp);
  memset(a.data(), 0, tp.get_default_data_size());
  std::vector<const ag::Node *> lv;
  ag::Node t = ag::tree(a);
  ag::leaves(t, lv);
  std::vector<Val> want;
  fill_seen(t, want);
  // walk by indexing in a random order; the leaf number is its place in C order
  for (int turn = 0; turn < 12; ++turn) {
    nd::array x = a;
    const ag::Node *n = &t;
    size_t num0 = 0;
    dv::Outcome oc = dv::attempt([&] {
      while (n->k != ag::Node::Leaf) {
        size_t i = c.rng.below(n->kids.size());
        for (size_t q = 0; q < i; ++q) {
          std::vector<const ag::Node *> skip;
          ag::leaves(n->kids[q], skip);
          num0 += skip.size();
        }
        x = n->k == ag::Node::Rec && c.rng.coin() ? x.p(vf::cat("f", i)) : x((intptr_t)i);
        n = &n->kids[i];
      }
      int64_t v = n->tp.get_id() == bool_id ? c.rng.below(2) : c.rng.below(100);
      x.assign(nd::array(v));
      want[num0] = n->tp.get_id() == bool_id || n->tp.get_base_id() == int_kind_id || n->tp.get_base_id() == uint_kind_id ? Val::I(v) : Val::F((double)v);
    });
    if (!c.check(oc.ok, k_throw, [&] { return vf::cat(s, ": ", oc.msg); }))
      return;
    std::vector<Val> now;
    fill_seen(t, now);
    c.check(now == want, k_write, [&] { return vf::cat(s, " leaf ", num0); });
  }
  c.saw("cells", vf::hash_str(s));
}

static std::vector<size_t> axis_order(const ivec &shape, const ivec &stride) {
  std::vector<size_t> o(shape.size());
  for (size_t i = 0; i < o.size(); ++i)
    o[i] = i;
  std::stable_sort(o.begin(), o.end(), [&](size_t i, size_t j) { return std::abs(stride[i]) > std::abs(stride[j]); });
  return o;
}
static void like(Ctx &c) {
  ag::TypeOpts o;
  o.var = o.rec = false;
  o.max_ndim = 0;
  ndt::type elem(ag::gen_leaf(c, o));
  ag::View v = ag::make_view(c, elem, ag::gen_shape(c, 4, 4), ag::gen_layout(c, false));
  bool other = c.rng.coin();
  ndt::type et = other ? ndt::type(ag::gen_leaf(c, o)) : elem;
  std::string what = vf::cat("empty_like of ", v.str(), other ? " with " + et.str() : "");
  c.describe(what);
  nd::array r;
  dv::Outcome oc = dv::attempt([&] { r = other ? nd::empty_like(v.a, et) : nd::empty_like(v.a); });
  c.saw("empty_like", vf::hash_str(what));
  if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.msg); }))
    return;
  size_t n = v.shape.size();
  bool ok = (size_t)r.get_ndim() == n && r.get_dtype() == et;
  if (!c.check(ok, k_like, [&] { return vf::cat(what, " gives ", r.get_type().str()); }))
    return;
  if (n) {
    ivec sh(n), st(n);
    r.get_shape(sh.data());
    r.get_strides(st.data());
    c.check(sh == v.shape, k_like, [&] { return vf::cat(what, " gives ", r.get_type().str()); });
    bool small = false, neg = false;
    for (size_t i = 0; i < n; ++i)
      small |= sh[i] <= 1, neg |= st[i] < 0;
    if (!small) {
      ivec vs(n);
      v.a.get_strides(vs.data());
      c.check(!neg && axis_order(sh, st) == axis_order(v.shape, vs), k_like, [&] { return vf::cat(what, " has strides in another order"); });
    }
  }
  ag::Node t = ag::tree(r);
  Lay l = layout(et);
  std::string w = outside(t, r.cdata(), r.cdata() + l.size * v.size());
  c.check(w.empty(), k_overlap, [&] { return what + ": " + w; });
  w = overlap(t);
  c.check(w.empty(), k_overlap, [&] { return what + ": " + w; });
  std::vector<const ag::Node *> lv;
  ag::leaves(t, lv);
  std::vector<Val> put, got;
  for (const ag::Node *x : lv) {
    ag::fill_leaf(c, x->tp, x->at, ag::FillOpts());
    put.push_back(dv::read(x->tp, nullptr, x->at));
  }
  fill_seen(t, got);
  c.check(put == got, k_write, [&] { return what; });
}
static void valued(Ctx &c) { // zeros and ones
  static const char *num[] = {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "complex[float64]", "int128"};
  ndt::type et(num[c.rng.below(13)]);
  ivec sh = ag::gen_shape(c, 4, 4);
  bool one = c.rng.coin();
  std::string what = vf::cat(one ? "ones of " : "zeros of ", sh.size(), " dimensions of ", et.str());
  c.describe(what);
  nd::array a;
  dv::Outcome oc = dv::attempt([&] {
    if (sh.size() == 1 && c.rng.coin())
      a = one ? nd::ones(sh[0], et) : nd::zeros(sh[0], et);
    else if (sh.size() == 2 && c.rng.coin())
      a = one ? nd::ones(sh[0], sh[1], et) : nd::zeros(sh[0], sh[1], et);
    else
      a = one ? nd::dtyped_ones(sh.size(), sh.data(), et) : nd::dtyped_zeros(sh.size(), sh.data(), et);
  });
  c.saw(one ? "ones" : "zeros", vf::hash_str(what));
  if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.msg); }))
    return;
  ivec got(a.get_ndim());
  if (a.get_ndim())
    a.get_shape(got.data());
  std::vector<Val> v;
  fill_seen(ag::tree(a), v);
  size_t n = 1;
  for (intptr_t x : sh)
    n *= x;
  bool ok = got == sh && a.get_dtype() == et && v.size() == n;
  for (const Val &x : v)
    ok = ok && (x == Val::I(one) || x == Val::F(one) || x == Val::C(one, 0));
  c.check(ok, k_fill, [&] { return vf::cat(what, " gives ", a.get_type().str(), " ", dv::show(dv::read(a))); });
}
// sizes beyond the address space, some of which wrap around to small numbers
static void huge(Ctx &c) {
  static const char *d[] = {"4294967296", "9223372036854775807", "4611686018427387904", "2305843009213693952", "1152921504606846976", "6148914691236517206", "72057594037927936", "1099511627776"};
  std::string s;
  int nd = 2 + (int)c.rng.below(3);
  long double total = 1;
  for (int i = 0; i < nd; ++i) {
    const char *x = d[c.rng.below(8)];
    s += std::string(x) + " * ";
    total *= strtold(x, nullptr);
  }
  static const char *leaf[] = {"int64", "string", "{a: int32, b: float64}", "int8", "3 * int16", "complex[float64]"};
  s += leaf[c.rng.below(6)];
  if (c.rng.chance(1, 3))
    s = vf::cat("{x: int32, y: ", s, ", z: ", c.rng.coin() ? s : std::string("int8"), "}");
  if (c.rng.chance(1, 4))
    s = vf::cat("2 * ", s);
  if (c.rng.chance(1, 6))
    s = vf::cat("{x: int32, y: var * ", s, "}");
  if (total < 18446744073709551616.0L)
    return;
  c.describe(s);
  bool made = false;
  dv::Outcome oc = dv::attempt([&] {
    nd::array a = nd::empty(ndt::type(s));
    made = true;
  });
  c.saw("huge", vf::hash_str(s));
  c.check(!oc.ok, k_huge, [&] { return s; });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "T04",
                 "fresh arrays of nested types (dimensions, variable dimensions, records three deep, every leaf type) against the C layout; every leaf's interval, alignment and contents "
                 "after writes to others; arrays like others in any axis order; sizes past the address space",
                 {{"fresh", 30000, 900000, fresh}, {"cells", 6000, 200000, cells}, {"like", 12000, 300000, like}, {"valued", 5000, 100000, valued}, {"huge", 2000, 40000, huge}});
}
