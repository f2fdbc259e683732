// A11: choosing elements with a mask gives a new array of exactly the chosen elements, in order, with memory of its own.
// The expected result is read from the raw memory of the source before the call.
#include "arrgen.hpp"
#include <dynd/callable.hpp>
#include <dynd/index.hpp>
using namespace dynd;
using dv::Val;
using vf::Ctx;

static const char *k_type = "a choice has another type than var * the element type";
static const char *k_value = "the elements of a choice are not the chosen ones in order";
static const char *k_source = "a choice changes its source or its mask";
static const char *k_alive = "a choice changes when its source is gone or overwritten";
static const char *k_throw = "a choice is refused";
static const char *k_misfit = "a mask of another size, shape or type is accepted";
static const char *k_leak = "a choice leaves memory behind";
static const char *k_alias = "a choice shares memory with its source";

static ag::View gen_mask(Ctx &c, intptr_t n, std::vector<char> &bits) {
  ag::View m = ag::make_view(c, ndt::make_type<bool1>(), {n}, ag::gen_layout(c, true));
  int style = (int)c.rng.below(5);
  bits.clear();
  bool run = c.rng.coin();
  for (intptr_t i = 0; i < n; ++i) {
    if (c.rng.chance(1, 4))
      run = !run;
    char b = style == 0 ? 0 : style == 1 ? 1 : style == 2 ? run : (char)c.rng.below(2);
    *m.at(std::vector<intptr_t>{i}) = b;
  }
  for (intptr_t i = 0; i < n; ++i) // with a stride of zero the last one written
    bits.push_back(*m.at(std::vector<intptr_t>{i}));
  return m;
}
static std::vector<Val> all(const ag::View &v) {
  std::vector<Val> r;
  const char *md = v.owner.get()->metadata() + sizeof(fixed_dim_type_arrmeta);
  for (size_t k = 0; k < v.count; ++k)
    r.push_back(dv::read(v.elem, md, v.at((intptr_t)k)));
  return r;
}
static std::string bitstr(const std::vector<char> &b) {
  std::string s;
  for (char x : b)
    s += x ? '1' : '0';
  return s;
}
static void overwrite(Ctx &c, ag::View &v) {
  for (size_t k = 0; k < v.count; ++k)
    ag::fill(c, v.elem, v.owner.get()->metadata() + sizeof(fixed_dim_type_arrmeta), v.at((intptr_t)k));
}
// no data of the result may lie in memory of the source
static void datas(const ndt::type &tp, const char *md, const char *p, std::set<const void *> &out) {
  switch (tp.get_id()) {
  case fixed_dim_id: {
    auto m = reinterpret_cast<const fixed_dim_type_arrmeta *>(md);
    for (intptr_t i = 0; i < m->dim_size; ++i)
      datas(tp.extended<ndt::base_dim_type>()->get_element_type(), md + sizeof(*m), p + i * m->stride, out);
    break;
  }
  case var_dim_id: {
    auto m = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(md);
    auto d = reinterpret_cast<const ndt::var_dim_type::data_type *>(p);
    if (d->begin && d->size)
      out.insert(d->begin + m->offset);
    for (size_t i = 0; d->begin && i < d->size; ++i)
      datas(tp.extended<ndt::base_dim_type>()->get_element_type(), md + sizeof(*m), d->begin + m->offset + (intptr_t)i * m->stride, out);
    break;
  }
  case string_id:
    if (reinterpret_cast<const dynd::string *>(p)->size())
      out.insert(reinterpret_cast<const dynd::string *>(p)->begin());
    break;
  case bytes_id:
    if (reinterpret_cast<const dynd::bytes *>(p)->size())
      out.insert(reinterpret_cast<const dynd::bytes *>(p)->begin());
    break;
  case tuple_id:
  case struct_id: {
    bool tup = tp.get_id() == tuple_id;
    auto tt = tup ? tp.extended<ndt::tuple_type>() : nullptr;
    auto ss = tup ? nullptr : tp.extended<ndt::struct_type>();
    auto off = reinterpret_cast<const uintptr_t *>(md);
    for (intptr_t i = 0; i < (tup ? tt->get_field_count() : ss->get_field_count()); ++i)
      datas((tup ? tt->get_field_types() : ss->get_field_types())[i],
            md + (tup ? tt->get_arrmeta_offsets() : ss->get_arrmeta_offsets())[i], p + off[i], out);
    break;
  }
  default:
    break;
  }
}

static std::string gen_elem(Ctx &c) {
  ag::TypeOpts o;
  o.max_ndim = c.rng.chance(2, 3) ? 0 : 2;
  o.depth = 2;
  for (;;) { // neither is assignable
    std::string s = ag::gen_type(c, o);
    if (s.find("float16") == s.npos && s.find("char") == s.npos)
      return s;
  }
}

static void masked(Ctx &c) {
  std::string es = gen_elem(c);
  intptr_t n = c.rng.chance(1, 12) ? 0 : c.rng.chance(1, 6) ? 20 + (intptr_t)c.rng.below(300) : 1 + (intptr_t)c.rng.below(12);
  std::vector<char> bits;
  size_t before = 0, after = 0;
  std::string what;
  {
    ag::View v = ag::make_view(c, ndt::type(es), {n}, ag::gen_layout(c, true));
    ag::View m = gen_mask(c, n, bits);
    what = vf::cat("take ", v.str(), " with ", bitstr(bits), " stride ", m.stride[0]);
    c.describe(what);
    std::vector<Val> was = all(v), mwas = all(m), want;
    for (intptr_t i = 0; i < n; ++i)
      if (bits[i])
        want.push_back(v.val({i}));
    bool given = c.rng.chance(1, 3);
    nd::array r;
    dv::Outcome oc = dv::attempt([&] {
      if (given) {
        r = nd::empty(ndt::make_type<ndt::var_dim_type>(v.elem));
        nd::take({v.a, m.a}, {{"dst", r}});
      } else
        r = nd::take(v.a, m.a);
    });
    c.saw(want.empty() ? "nothing chosen" : (intptr_t)want.size() == n ? "all chosen" : given ? "into a destination" : "chosen", vf::hash_str(what));
    c.check(all(v) == was && all(m) == mwas, k_source, [&] { return what; });
    if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
      return;
    if (!c.check(r.get_type() == ndt::make_type<ndt::var_dim_type>(v.elem), k_type, [&] { return what + ": " + r.get_type().str(); }))
      return;
    Val wv = Val::L(want);
    if (!c.check(dv::read(r) == wv, k_value, [&] { return vf::cat(what, ": ", dv::show(dv::read(r)), " instead of ", dv::show(wv)); }))
      return;
    std::set<const void *> mine, theirs;
    datas(r.get_type(), r.get()->metadata(), r.cdata(), mine);
    datas(v.owner.get_type(), v.owner.get()->metadata(), v.owner.cdata(), theirs);
    for (const void *p : mine)
      if (!c.check(!theirs.count(p), k_alias, [&] { return what; }))
        return;
    if (c.rng.coin())
      overwrite(c, v);
    else {
      v = ag::View();
      m = ag::View();
    }
    c.check(dv::read(r) == wv, k_alive, [&] { return vf::cat(what, ": ", dv::show(dv::read(r)), " instead of ", dv::show(wv)); });
  }
  (void)before;
  (void)after;
}

// each row of a choice has the size of its mask's ones, in one call after another, and the heap is as before
static void balance(Ctx &c) {
  std::string es = gen_elem(c);
  intptr_t n = (intptr_t)c.rng.below(10);
  std::vector<char> bits;
  ag::View v = ag::make_view(c, ndt::type(es), {n}, ag::gen_layout(c, true));
  ag::View m = gen_mask(c, n, bits);
  std::string what = vf::cat("take ", v.str(), " with ", bitstr(bits));
  c.describe(what);
  auto once = [&] {
    try {
      nd::array r = nd::take(v.a, m.a);
    } catch (const std::exception &) {
    }
  };
  once();
  size_t b = vf::heap_bytes();
  once();
  once();
  c.saw("balance", vf::hash_str(what));
  c.check(vf::heap_bytes() == b, k_leak, [&] { return vf::cat(what, ": ", (long)(vf::heap_bytes() - b)); });
}

static void misfit(Ctx &c) {
  std::string es = gen_elem(c);
  intptr_t n = (intptr_t)c.rng.below(9), k = (intptr_t)c.rng.below(9);
  std::vector<char> bits;
  int how = (int)c.rng.below(9);
  ag::View v = ag::make_view(c, ndt::type(es), {n}, ag::gen_layout(c, true));
  std::vector<Val> was = all(v);
  nd::array mask;
  ag::View m;
  if (how < 2) { // another size
    if (k == n)
      ++k;
    m = gen_mask(c, k, bits);
    mask = m.a;
  } else if (how == 2) { // not a mask
    static const char *bad[] = {"int32", "uint8", "float64", "string", "?bool", "char", "complex[float64]", "int128"};
    mask = ag::filled(c, ndt::type(vf::cat(n, " * ", bad[c.rng.below(8)])));
  } else if (how == 3) // a scalar
    mask = nd::array(c.rng.coin());
  else if (how == 4) { // more dimensions
    mask = ag::filled(c, ndt::type(vf::cat(n, " * ", 1 + c.rng.below(3), " * bool")));
  }
  nd::array from = v.a, into;
  if (how > 4) {
    m = gen_mask(c, n, bits);
    mask = m.a;
    if (how == 5) // a scalar source
      from = ag::filled(c, ndt::type("int32"));
    else if (how == 6) // a variable source or mask
      (c.rng.coin() ? from : mask) = ag::filled(c, ndt::type("var * bool"));
    else { // a destination of another type
      ndt::type dt;
      do
        switch (c.rng.below(4)) {
        case 0:
          dt = ndt::make_fixed_dim(c.rng.coin() ? n : std::count(bits.begin(), bits.end(), 1), v.elem);
          break;
        case 1:
          dt = v.elem;
          break;
        case 2:
          dt = ndt::make_type<ndt::var_dim_type>(ndt::make_type<ndt::var_dim_type>(v.elem));
          break;
        default:
          dt = ndt::make_type<ndt::var_dim_type>(ndt::type(gen_elem(c)));
        }
      while (dt == ndt::make_type<ndt::var_dim_type>(v.elem));
      into = nd::empty(dt);
    }
  }
  std::string what = vf::cat("take ", from.get_type().str(), " with a mask of type ", mask.get_type().str(),
                             into.is_null() ? "" : " into " + into.get_type().str());
  c.describe(what);
  nd::array r;
  auto go = [&] {
    if (into.is_null())
      r = nd::take(from, mask);
    else
      r = nd::take({from, mask}, {{"dst", into}});
  };
  dv::Outcome oc = dv::attempt(go);
  c.saw("misfit", vf::hash_str(what));
  c.check(!oc.ok, k_misfit, [&] { return what + " gives " + r.get_type().str(); });
  c.check(all(v) == was, k_source, [&] { return what; });
  r = nd::array();
  dv::attempt(go);
  r = nd::array();
  size_t b = vf::heap_bytes();
  dv::attempt(go);
  r = nd::array();
  c.check(vf::heap_bytes() == b, k_leak, [&] { return vf::cat(what, ": ", (long)(vf::heap_bytes() - b)); });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "A11", "a choice by mask holds exactly the chosen elements, in order, in memory of its own",
                 {{"masked", 8000, 80000, masked}, {"balance", 4000, 40000, balance}, {"misfit", 4000, 40000, misfit}});
}
