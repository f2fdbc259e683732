// Generated arrays: random concrete types, contents written straight into memory by the documented layout, and strided
// views whose metadata is set by hand (so that no indexing or assignment code of the library is needed to make them).
#pragma once
#include "dv.hpp"

namespace ag {
using namespace dynd;
using dv::Val;
using vf::Ctx;

// ---------------------------------------------------------------- leaf addresses
struct Node {
  enum K { Leaf, Dim, Rec } k = Leaf;
  ndt::type tp;            // of this node
  char *at = nullptr;      // Leaf
  std::vector<Node> kids;  // Dim, Rec
};
inline Node tree(const ndt::type &tp, const char *md, char *p) {
  Node n;
  n.tp = tp;
  n.at = p;
  switch (tp.get_id()) {
  case fixed_dim_id: {
    auto m = reinterpret_cast<const fixed_dim_type_arrmeta *>(md);
    n.k = Node::Dim;
    for (intptr_t i = 0; i < m->dim_size; ++i)
      n.kids.push_back(tree(tp.extended<ndt::base_dim_type>()->get_element_type(), md + sizeof(*m), p + i * m->stride));
    break;
  }
  case var_dim_id: {
    auto m = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(md);
    auto d = reinterpret_cast<const ndt::var_dim_type::data_type *>(p);
    n.k = Node::Dim;
    for (size_t i = 0; d->begin && i < d->size; ++i)
      n.kids.push_back(tree(tp.extended<ndt::base_dim_type>()->get_element_type(), md + sizeof(*m),
                            d->begin + m->offset + (intptr_t)i * m->stride));
    break;
  }
  case tuple_id: {
    auto t = tp.extended<ndt::tuple_type>();
    auto off = reinterpret_cast<const uintptr_t *>(md);
    n.k = Node::Rec;
    for (intptr_t i = 0; i < t->get_field_count(); ++i)
      n.kids.push_back(tree(t->get_field_types()[i], md + t->get_arrmeta_offsets()[i], p + off[i]));
    break;
  }
  case struct_id: {
    auto t = tp.extended<ndt::struct_type>();
    auto off = reinterpret_cast<const uintptr_t *>(md);
    n.k = Node::Rec;
    for (intptr_t i = 0; i < t->get_field_count(); ++i)
      n.kids.push_back(tree(t->get_field_types()[i], md + t->get_arrmeta_offsets()[i], p + off[i]));
    break;
  }
  default:
    break;
  }
  return n;
}
inline Node tree(const nd::array &a) {
  return tree(a.get_type(), a.get()->metadata(), const_cast<char *>(a.cdata()));
}
inline void leaves(const Node &n, std::vector<const Node *> &out) {
  if (n.k == Node::Leaf)
    out.push_back(&n);
  for (const Node &x : n.kids)
    leaves(x, out);
}
// same shape, same leaf addresses and leaf types
inline bool same(const Node &a, const Node &b, std::string &why) {
  if (a.k != b.k) {
    why = vf::cat(a.tp.str(), " instead of ", b.tp.str());
    return false;
  }
  if (a.k == Node::Leaf) {
    if (a.at != b.at || a.tp != b.tp) {
      why = vf::cat("leaf ", a.tp.str(), " is ", a.at - b.at, " bytes away from ", b.tp.str());
      return false;
    }
    return true;
  }
  if (a.kids.size() != b.kids.size()) {
    why = vf::cat(a.kids.size(), " elements instead of ", b.kids.size());
    return false;
  }
  for (size_t i = 0; i < a.kids.size(); ++i)
    if (!same(a.kids[i], b.kids[i], why)) {
      why = vf::cat("[", i, "] ") + why;
      return false;
    }
  return true;
}

// ---------------------------------------------------------------- types
struct TypeOpts {
  int max_ndim = 4;
  int max_size = 4;
  bool var = true, rec = true, strings = true, options = true, zero = true, fixed_str = true;
  int depth = 2;
};
inline std::string gen_leaf(Ctx &c, const TypeOpts &o) {
  static const char *num[] = {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64",
                              "float32", "float64", "complex[float32]", "complex[float64]", "int128", "uint128", "float16"};
  for (;;)
    switch (c.rng.below(8)) {
    case 0:
      if (o.strings)
        return "string";
      break;
    case 1:
      if (o.strings)
        return c.rng.coin() ? "bytes" : "string";
      break;
    case 2:
      if (o.options) {
        static const char *on[] = {"?int32", "?float64", "?int64", "?bool", "?int16", "?float32", "?int8", "?complex[float64]"};
        return o.strings && c.rng.chance(1, 4) ? "?string" : on[c.rng.below(8)];
      }
      break;
    case 3:
      if (o.fixed_str) {
        static const char *fs[] = {"fixed_string[7]", "fixed_string[3, 'utf16']", "fixed_bytes[6, align=2]", "fixed_bytes[5]", "char", "fixed_string[2, 'utf32']"};
        return fs[c.rng.below(6)];
      }
      break;
    default:
      return num[c.rng.below(16)];
    }
}
inline std::string gen_dims(Ctx &c, const TypeOpts &o, int n) {
  std::string s;
  for (int i = 0; i < n; ++i)
    if (o.var && c.rng.chance(1, 5))
      s += "var * ";
    else
      s += vf::cat(o.zero && c.rng.chance(1, 12) ? 0 : 1 + c.rng.below(o.max_size), " * ");
  return s;
}
inline std::string gen_type(Ctx &c, const TypeOpts &o, int depth = 0) {
  int nd = depth == 0 ? (int)c.rng.below(o.max_ndim + 1) : c.rng.chance(1, 2) ? (int)c.rng.below(3) : 0;
  std::string s = gen_dims(c, o, nd);
  if (o.rec && depth < o.depth && c.rng.chance(2, 5)) {
    bool st = c.rng.chance(2, 3);
    int nf = (int)c.rng.below(10) == 0 ? 0 : 1 + (int)c.rng.below(4);
    s += st ? "{" : "(";
    for (int i = 0; i < nf; ++i) {
      if (i)
        s += ", ";
      if (st)
        s += std::string(1, (char)('a' + i)) + (c.rng.coin() ? "_x" : "") + ": ";
      s += gen_type(c, o, depth + 1);
    }
    return s + (st ? "}" : ")");
  }
  return s + gen_leaf(c, o);
}

// ---------------------------------------------------------------- contents
inline uint16_t f16_of(Ctx &c) {
  uint16_t h = (uint16_t)c.rng.next();
  return (h & 0x7c00) == 0x7c00 ? (uint16_t)(h & 0x83ff) : h;
}
// small: values that survive arithmetic and text
struct FillOpts {
  int max_var = 4;
  bool null_var = false;
  bool small = false;
  bool ascii = true;
  bool na = true;
};
inline void fill_leaf(Ctx &c, const ndt::type &tp, char *p, const FillOpts &o) {
  auto st = [&](auto v) { memcpy(p, &v, sizeof v); };
  auto sint = [&]() -> int64_t {
    if (o.small)
      return c.rng.range(-50, 50);
    return c.rng.chance(1, 3) ? c.rng.range(-3, 3) : (int64_t)c.rng.next() >> c.rng.below(64);
  };
  auto flt = [&]() -> double {
    if (o.small)
      return c.rng.range(-200, 200) / 4.0;
    return c.rng.coin() ? c.rng.range(-1000, 1000) / 8.0 : std::ldexp(c.rng.unit() - 0.5, (int)c.rng.range(-60, 60));
  };
  switch (tp.get_id()) {
  case type_id: {
    static const char *some[] = {"int32", "3 * float64", "string", "{a: int8, b: ?string}", "var * bool", "(int32) -> int64"};
    *reinterpret_cast<ndt::type *>(p) = ndt::type(std::string(some[c.rng.below(6)]));
    break;
  }
  case bool_id:
    st((uint8_t)c.rng.below(2));
    break;
  case int8_id:
  case uint8_id:
    st((int8_t)(o.small && tp.get_id() == uint8_id ? std::abs(sint()) : sint()));
    break;
  case int16_id:
  case uint16_id:
    st((int16_t)(o.small && tp.get_id() == uint16_id ? std::abs(sint()) : sint()));
    break;
  case int32_id:
  case uint32_id:
    st((int32_t)(o.small && tp.get_id() == uint32_id ? std::abs(sint()) : sint()));
    break;
  case int64_id:
  case uint64_id:
    st((int64_t)(o.small && tp.get_id() == uint64_id ? std::abs(sint()) : sint()));
    break;
  case int128_id:
    st((dv::i128)sint() * ((dv::i128)1 << (o.small ? 0 : c.rng.below(60))));
    break;
  case uint128_id:
    st((dv::u128)(dv::i128)std::abs(sint() / 2) << (o.small ? 0 : c.rng.below(60)));
    break;
  case float16_id:
    st(f16_of(c));
    break;
  case float32_id:
    st((float)flt());
    break;
  case float64_id:
    st(flt());
    break;
  case complex_float32_id: {
    float v[2] = {(float)flt(), (float)flt()};
    memcpy(p, v, 8);
    break;
  }
  case complex_float64_id: {
    double v[2] = {flt(), flt()};
    memcpy(p, v, 16);
    break;
  }
  case string_id: {
    std::string s;
    size_t n = c.rng.chance(1, 4) ? c.rng.below(40) : c.rng.below(8);
    for (size_t i = 0; i < n; ++i)
      s += o.ascii || c.rng.chance(3, 4) ? std::string(1, (char)('!' + c.rng.below(90))) : std::string("\xc3\xa9");
    reinterpret_cast<dynd::string *>(p)->assign(s.data(), s.size());
    break;
  }
  case bytes_id: {
    std::string s;
    size_t n = c.rng.below(30);
    for (size_t i = 0; i < n; ++i)
      s += (char)c.rng.next();
    reinterpret_cast<dynd::bytes *>(p)->assign(s.data(), s.size());
    break;
  }
  case char_id: {
    uint32_t cp = 'a' + (uint32_t)c.rng.below(26);
    memcpy(p, &cp, tp.get_data_size());
    break;
  }
  case fixed_string_id: {
    size_t u = tp.extended<ndt::fixed_string_type>()->get_encoding() == string_encoding_utf_16 ? 2
               : tp.extended<ndt::fixed_string_type>()->get_encoding() == string_encoding_ucs_2 ? 2
               : tp.extended<ndt::fixed_string_type>()->get_encoding() == string_encoding_utf_32 ? 4 : 1;
    size_t n = tp.get_data_size() / u, len = c.rng.below(n + 1);
    memset(p, 0, n * u);
    for (size_t i = 0; i < len; ++i) {
      uint32_t cp = 'a' + (uint32_t)c.rng.below(26);
      memcpy(p + i * u, &cp, u);
    }
    break;
  }
  case option_id: {
    const ndt::type &vt = tp.extended<ndt::option_type>()->get_value_type();
    do {
      fill_leaf(c, vt, p, o);
    } while (vt.get_id() != string_id && dv::na_bits(vt.get_id(), p));
    if (vt.get_id() == string_id) {
      if (o.na && c.rng.chance(1, 4))
        reinterpret_cast<dynd::string *>(p)->clear();
      else if (reinterpret_cast<dynd::string *>(p)->empty())
        reinterpret_cast<dynd::string *>(p)->assign("q", 1);
    } else if (o.na && c.rng.chance(1, 4))
      switch (vt.get_id()) {
      case bool_id:
        st((uint8_t)2);
        break;
      case int8_id:
        st((int8_t)INT8_MIN);
        break;
      case int16_id:
        st((int16_t)INT16_MIN);
        break;
      case int32_id:
        st((int32_t)INT32_MIN);
        break;
      case int64_id:
        st((int64_t)INT64_MIN);
        break;
      case float32_id:
        st((uint32_t)0x7f8007a2u);
        break;
      case float64_id:
        st((uint64_t)0x7ff00000000007a2ull);
        break;
      case complex_float64_id:
        st((uint64_t)0x7ff00000000007a2ull);
        p += 8;
        st((uint64_t)0x7ff00000000007a2ull);
        break;
      default:
        break;
      }
    break;
  }
  default:
    for (size_t i = 0; i < tp.get_data_size(); ++i)
      p[i] = (char)c.rng.next();
  }
}
// Fills an array freshly made by nd::empty: variable dimensions are allocated from the memory block in its metadata
inline void fill(Ctx &c, const ndt::type &tp, const char *md, char *p, const FillOpts &o = FillOpts()) {
  switch (tp.get_id()) {
  case fixed_dim_id: {
    auto m = reinterpret_cast<const fixed_dim_type_arrmeta *>(md);
    for (intptr_t i = 0; i < m->dim_size; ++i)
      fill(c, tp.extended<ndt::base_dim_type>()->get_element_type(), md + sizeof(*m), p + i * m->stride, o);
    break;
  }
  case var_dim_id: {
    auto m = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(md);
    auto d = reinterpret_cast<ndt::var_dim_type::data_type *>(p);
    size_t n = c.rng.below(o.max_var + 1);
    d->begin = m->blockref->alloc(n);
    d->size = n;
    for (size_t i = 0; i < n; ++i)
      fill(c, tp.extended<ndt::base_dim_type>()->get_element_type(), md + sizeof(*m), d->begin + m->offset + i * m->stride, o);
    break;
  }
  case tuple_id:
  case struct_id: {
    bool tup = tp.get_id() == tuple_id;
    auto tt = tup ? tp.extended<ndt::tuple_type>() : nullptr;
    auto ss = tup ? nullptr : tp.extended<ndt::struct_type>();
    auto off = reinterpret_cast<const uintptr_t *>(md);
    for (intptr_t i = 0; i < (tup ? tt->get_field_count() : ss->get_field_count()); ++i)
      fill(c, (tup ? tt->get_field_types() : ss->get_field_types())[i],
           md + (tup ? tt->get_arrmeta_offsets() : ss->get_arrmeta_offsets())[i], p + off[i], o);
    break;
  }
  default:
    fill_leaf(c, tp, p, o);
  }
}
inline nd::array filled(Ctx &c, const ndt::type &tp, const FillOpts &o = FillOpts()) {
  nd::array a = nd::empty(tp);
  fill(c, tp, a.get()->metadata(), a.data(), o);
  return a;
}

// ---------------------------------------------------------------- strided views of a one-dimensional owner
struct View {
  nd::array owner; // count * elem, contiguous
  nd::array a;     // the view
  ndt::type elem;
  std::vector<intptr_t> shape, stride; // stride in elements of the owner
  intptr_t origin = 0;                 // element of the owner at the origin
  size_t count = 0;

  size_t size() const {
    size_t n = 1;
    for (intptr_t s : shape)
      n *= s;
    return n;
  }
  intptr_t index(const std::vector<intptr_t> &ix) const {
    intptr_t o = origin;
    for (size_t i = 0; i < ix.size(); ++i)
      o += ix[i] * stride[i];
    return o;
  }
  char *at(intptr_t k) const { return const_cast<char *>(owner.cdata()) + k * (intptr_t)elem.get_default_data_size(); }
  char *at(const std::vector<intptr_t> &ix) const { return at(index(ix)); }
  Val val(const std::vector<intptr_t> &ix) const {
    return dv::read(elem, owner.get()->metadata() + sizeof(fixed_dim_type_arrmeta), at(ix));
  }
  std::string str() const {
    std::string s = elem.str() + " shape (";
    for (intptr_t x : shape)
      s += vf::cat(x, ",");
    s += ") strides (";
    for (intptr_t x : stride)
      s += vf::cat(x, ",");
    return s + ")";
  }
};
// calls fn for every index of the shape, in C order
template <class F>
void each(const std::vector<intptr_t> &shape, F fn) {
  std::vector<intptr_t> ix(shape.size(), 0);
  for (intptr_t s : shape)
    if (s == 0)
      return;
  for (;;) {
    fn(ix);
    int k = (int)shape.size() - 1;
    while (k >= 0 && ++ix[k] == shape[k])
      ix[k--] = 0;
    if (k < 0)
      return;
  }
}
enum Layout { Contiguous, Strided, Broadcast }; // Broadcast: strides of zero too
inline View make_view(Ctx &c, const ndt::type &elem, const std::vector<intptr_t> &shape, Layout lay,
                      const FillOpts &fo = FillOpts(), uint64_t flags = 0) {
  View v;
  v.elem = elem;
  v.shape = shape;
  size_t n = shape.size();
  v.stride.assign(n, 0);
  std::vector<size_t> order(n);
  for (size_t i = 0; i < n; ++i)
    order[i] = i;
  if (lay != Contiguous && c.rng.coin())
    for (size_t i = n; i > 1; --i)
      std::swap(order[i - 1], order[c.rng.below(i)]);
  intptr_t step = 1, lo = 0;
  for (size_t k = n; k-- > 0;) {
    size_t d = order[k];
    if (lay == Broadcast && c.rng.chance(1, 3))
      continue; // stride 0
    if (lay != Contiguous)
      step *= c.rng.chance(1, 3) ? 1 + (intptr_t)c.rng.below(3) : 1;
    bool neg = lay != Contiguous && c.rng.chance(1, 3);
    v.stride[d] = neg ? -step : step;
    if (neg && shape[d] > 0)
      lo += (shape[d] - 1) * step;
    if (shape[d] > 0)
      step *= shape[d];
  }
  size_t pad = lay == Contiguous ? 0 : c.rng.below(3);
  v.origin = lo + pad;
  // the furthest element
  intptr_t hi = v.origin;
  bool none = false;
  for (size_t i = 0; i < n; ++i) {
    none |= shape[i] == 0;
    if (v.stride[i] > 0 && shape[i] > 0)
      hi += v.stride[i] * (shape[i] - 1);
  }
  v.count = (none ? v.origin : hi) + 1 + pad;
  v.owner = nd::empty(ndt::make_fixed_dim(v.count, elem));
  fill(c, v.owner.get_type(), v.owner.get()->metadata(), v.owner.data(), fo);
  ndt::type tp = elem;
  for (size_t i = n; i-- > 0;)
    tp = ndt::make_fixed_dim(shape[i], tp);
  v.a = nd::make_array(tp, v.owner.data() + v.origin * (intptr_t)elem.get_default_data_size(), v.owner,
                       flags ? flags : (uint64_t)(nd::read_access_flag | nd::write_access_flag));
  char *md = v.a.get()->metadata();
  for (size_t i = 0; i < n; ++i) {
    auto m = reinterpret_cast<fixed_dim_type_arrmeta *>(md);
    m->dim_size = shape[i];
    m->stride = v.stride[i] * (intptr_t)elem.get_default_data_size();
    md += sizeof(*m);
  }
  if (!elem.is_builtin() && elem.get_arrmeta_size() > 0)
    elem.extended()->arrmeta_copy_construct(md, v.owner.get()->metadata() + sizeof(fixed_dim_type_arrmeta), v.owner);
  return v;
}
inline std::vector<intptr_t> gen_shape(Ctx &c, int max_ndim, int max_size, bool zero = true) {
  std::vector<intptr_t> s(c.rng.below(max_ndim + 1));
  for (intptr_t &x : s)
    x = zero && c.rng.chance(1, 20) ? 0 : c.rng.chance(1, 6) ? 1 : 1 + (intptr_t)c.rng.below(max_size);
  return s;
}
inline Layout gen_layout(Ctx &c, bool bcast) {
  return c.rng.chance(1, 4) ? Contiguous : bcast && c.rng.chance(1, 4) ? Broadcast : Strided;
}

} // namespace ag
