// A01: indexing and slicing, by leaf addresses.
#include "arrgen.hpp"
#include <dynd/index.hpp>
#include <dynd/irange.hpp>
#include <dynd/callable.hpp>
#include <dynd/assignment.hpp>
using namespace dynd;
using ag::Node;
using vf::Ctx;

static const intptr_t MIN = std::numeric_limits<intptr_t>::min(), MAX = std::numeric_limits<intptr_t>::max();
enum { Ok = 0, May = 1, Must = 2 }; // whether it throws

struct Sel {
  bool remove = false;
  std::vector<intptr_t> pos;
  int err = Ok;
};
static Sel select(const irange &r, intptr_t n) {
  Sel s;
  if (r.step() == 0) {
    s.remove = true;
    intptr_t i = r.start();
    if (i < -n || i >= n) {
      s.err = Must;
      return s;
    }
    s.pos.push_back(i < 0 ? i + n : i);
    return s;
  }
  // what Python's slices give; a bound that does not fit may be refused instead
  bool up = r.step() > 0;
  intptr_t b, e;
  if (r.start() == MIN)
    b = up ? 0 : n - 1;
  else {
    b = r.start();
    if (b < -n || b >= n)
      s.err = May;
    if (b < 0)
      b = b < -n ? (up ? 0 : -1) : b + n;
    else if (b >= n)
      b = up ? n : n - 1;
  }
  if (r.finish() == MAX)
    e = up ? n : -1;
  else {
    e = r.finish();
    if (up ? (e < -n || e > n) : (e < -n - 1 || e >= n))
      s.err = May;
    if (e < 0)
      e = e < -n ? (up ? 0 : -1) : e + n;
    else if (e >= n)
      e = up ? n : n - 1;
  }
  for (intptr_t i = b; up ? i < e : i > e;) {
    s.pos.push_back(i);
    if (up ? r.step() >= e - i : r.step() <= e - i)
      break;
    i += r.step();
  }
  return s;
}

// whether indexing a value of this type throws, and the type-level facts that do not depend on the data
struct Asker {
  const std::vector<irange> &ix;
  bool excluded = false; // a known limitation: see DESIGN.md A01
  static bool indexable(const ndt::type &t) {
    switch (t.get_id()) {
    case fixed_dim_id:
    case var_dim_id:
    case tuple_id:
    case struct_id:
      return true;
    default:
      return false;
    }
  }
  int err(const ndt::type &t, const Node *n, size_t k, bool leading) {
    if (k == ix.size())
      return Ok;
    if (!indexable(t))
      return Must; // too many indices
    bool nop = ix[k].is_nop();
    if (t.get_id() == fixed_dim_id) {
      Sel s = select(ix[k], t.extended<ndt::fixed_dim_type>()->get_fixed_dim_size());
      if (s.err == Must)
        return Must;
      int e = s.err;
      const ndt::type &et = t.extended<ndt::base_dim_type>()->get_element_type();
      bool lead = leading && s.remove;
      if (s.pos.empty() || !n || n->kids.empty())
        return std::max(e, err(et, nullptr, k + 1, lead));
      for (intptr_t i : s.pos)
        e = std::max(e, err(et, &n->kids[i], k + 1, lead));
      return e;
    }
    if (t.get_id() == var_dim_id) {
      const ndt::type &et = t.extended<ndt::base_dim_type>()->get_element_type();
      if (ix[k].step() == 0 && !leading) {
        excluded = true;
        return May;
      }
      if (ix[k].step() == 0) {
        if (!n)
          return May;
        Sel s = select(ix[k], n->kids.size());
        if (s.err == Must)
          return Must;
        return err(et, &n->kids[s.pos[0]], k + 1, true);
      }
      int e = nop ? Ok : May; // "not implemented"
      if (!n || n->kids.empty())
        return std::max(e, err(et, nullptr, k + 1, false));
      for (const Node &x : n->kids)
        e = std::max(e, err(et, &x, k + 1, false));
      return e;
    }
    bool tup = t.get_id() == tuple_id;
    const std::vector<ndt::type> &ft = tup ? t.extended<ndt::tuple_type>()->get_field_types() : t.extended<ndt::struct_type>()->get_field_types();
    Sel s = select(ix[k], ft.size());
    int e = s.err;
    if (e == Must)
      return e;
    for (intptr_t i : s.pos)
      e = std::max(e, err(ft[i], n ? &n->kids[i] : nullptr, k + 1, leading && s.remove));
    return e;
  }
  Node apply(const Node &n, size_t k) {
    if (k == ix.size() || n.k == Node::Leaf)
      return n;
    Sel s = select(ix[k], n.kids.size());
    if (s.remove)
      return apply(n.kids[s.pos[0]], k + 1);
    Node r;
    r.k = n.k;
    r.tp = n.tp;
    for (intptr_t i : s.pos)
      r.kids.push_back(apply(n.kids[i], k + 1));
    return r;
  }
  // names of the outermost struct's fields, if the result begins with one
};

static intptr_t near(Ctx &c, intptr_t n) {
  switch (c.rng.below(10)) {
  case 0:
    return n;
  case 1:
    return -n - 1;
  case 2:
    return c.rng.coin() ? n + 1 + (intptr_t)c.rng.below(1000) : -n - 2 - (intptr_t)c.rng.below(1000);
  case 3:
    return c.rng.coin() ? MAX - 1 - (intptr_t)c.rng.below(3) : MIN + 1 + (intptr_t)c.rng.below(3);
  default:
    return c.rng.range(-n, n > 0 ? n - 1 : 0);
  }
}
static irange gen_range(Ctx &c, intptr_t n, bool wild) {
  auto any = [&]() -> intptr_t { return wild ? near(c, n) : n > 0 ? c.rng.range(-n, n - 1) : 0; };
  if (c.rng.chance(2, 5))
    return irange(any());
  intptr_t step = c.rng.chance(1, 2) ? 1 : c.rng.chance(1, 2) ? -1 : (intptr_t)c.rng.range(1, 4) * (c.rng.coin() ? 1 : -1);
  if (wild && c.rng.chance(1, 20))
    step = (c.rng.coin() ? 1 : -1) * ((intptr_t)1 << c.rng.range(8, 12));
  switch (c.rng.below(10)) {
  case 0:
  case 1:
    return irange();
  case 2:
    return irange().by(step);
  case 3:
    return irange() < any();
  case 4:
    return any() <= irange();
  case 5:
    return (any() <= irange()) < any();
  case 6: {
    intptr_t last = any();
    return last == MAX || last == MIN ? irange() : (irange() <= last).by(step > 0 ? step : 1);
  }
  case 7: {
    intptr_t last = any();
    return last == MIN ? irange() : (irange().by(-1) >= last);
  }
  default:
    return irange(any(), any(), step);
  }
}
static std::string show(const std::vector<irange> &ix) {
  std::stringstream s;
  for (const irange &r : ix)
    if (r.step() == 0)
      s << "[" << r.start() << "]";
    else {
      s << "[";
      if (r.start() != MIN)
        s << r.start();
      s << ":";
      if (r.finish() != MAX)
        s << r.finish();
      s << ":" << r.step() << "]";
    }
  return s.str();
}
static uint64_t hash_ix(const std::vector<irange> &ix) {
  uint64_t h = 3;
  for (const irange &r : ix)
    h = vf::mix(h, vf::mix(r.start(), vf::mix(r.finish(), r.step())));
  return h;
}
static nd::array index(const nd::array &a, const std::vector<irange> &x, Ctx &c) {
  if (c.rng.coin())
    switch (x.size()) {
    case 1:
      return c.rng.coin() ? a(x[0]) : a.at(x[0]);
    case 2:
      return a(x[0], x[1]);
    case 3:
      return a(x[0], x[1], x[2]);
    case 4:
      return a(x[0], x[1], x[2], x[3]);
    case 5:
      return a(x[0], x[1], x[2], x[3], x[4]);
    }
  return a.at_array(x.size(), x.data());
}
// the dimension sizes met along the first element: what the indices are aimed at
static std::vector<intptr_t> sizes(const Node *n) {
  std::vector<intptr_t> s;
  while (n && n->k != Node::Leaf) {
    s.push_back(n->kids.size());
    n = n->kids.empty() ? nullptr : &n->kids[0];
  }
  return s;
}
static std::vector<std::string> names(const ndt::type &t) {
  return t.get_id() == struct_id ? t.extended<ndt::struct_type>()->get_field_names() : std::vector<std::string>();
}

static void one_step(Ctx &c, nd::array &a, const std::string &what, bool wild, bool &stop) {
  Node before = ag::tree(a);
  std::vector<intptr_t> sz = sizes(&before);
  std::vector<irange> ix;
  size_t k = c.rng.below(sz.size() + 1);
  if (wild && c.rng.chance(1, 10))
    k = sz.size() + 1;
  if (k == 0 && !sz.empty())
    k = 1;
  for (size_t i = 0; i < k; ++i)
    ix.push_back(gen_range(c, i < sz.size() ? sz[i] : 2, wild));
  Asker q{ix};
  int err = q.err(a.get_type(), &before, 0, true);
  if (q.excluded)
    return;
  std::string w = what + show(ix);
  c.describe("index " + w);
  nd::array r;
  auto o = dv::attempt([&] { r = index(a, ix, c); });
  c.saw("index", vf::mix(hash_ix(ix), vf::hash_str(a.get_type().str())));
  c.sample(w);
  c.check(err == Must ? !o.ok : err == Ok ? o.ok : true, err == Must ? "did-not-throw" : "threw", [&] { return w + ": " + o.cls + " " + o.msg; });
  if (!o.ok || err == Must)
    return;
  std::string why;
  Node want = q.apply(before, 0), got = ag::tree(r);
  if (!c.check(ag::same(got, want, why), "wrong-elements", [&] { return w + " gives " + r.get_type().str() + ": " + why; })) {
    stop = true;
    return;
  }
  if (got.k == Node::Dim)
    c.check(r.get_dim_size() == (intptr_t)want.kids.size(), "dim-size", [&] { return w; });
  // names of the fields selected
  if (before.k == Node::Rec && ix.size() == 1 && got.k == Node::Rec && ix[0].step() != 0) {
    std::vector<std::string> wn, gn = names(r.get_type()), on = names(a.get_type());
    if (!on.empty()) {
      for (intptr_t i : select(ix[0], on.size()).pos)
        wn.push_back(on[i]);
      c.check(wn == gn, "field-names", [&] { return w + " gives " + r.get_type().str(); });
    }
  }
  c.check(r.get_flags() == a.get_flags(), "flags", [&] { return w; });
  a = r; // the old one may die here: the view keeps the memory alive
}

static void views(Ctx &c) {
  ag::TypeOpts to;
  to.max_ndim = 4;
  to.max_size = 5;
  std::string text = ag::gen_type(c, to);
  c.describe("array of " + text);
  ndt::type tp(text);
  nd::array root = ag::filled(c, tp), a = root;
  bool wild = c.rng.coin(), stop = false;
  dv::Val v0 = dv::read(root);
  int steps = 1 + (int)c.rng.below(4);
  bool drop = c.rng.coin(); // only the view keeps the memory
  if (drop)
    root = nd::array();
  for (int i = 0; i < steps && !stop; ++i) {
    one_step(c, a, vf::cat(text, i ? " after slicing " : " "), wild, stop);
    text = a.get_type().str();
  }
  if (stop)
    return;
  // reading through the view: the memory is there (ASan) and write-through reaches exactly one place
  dv::Val before = dv::read(a);
  c.saw("view", dv::hash(before));
  if (!drop) {
    c.check(dv::read(root) == v0, "indexing-changed-data", [&] { return text; });
    // assign to a scalar reached by integer indices
    Node n = ag::tree(a), all = ag::tree(root);
    std::vector<const Node *> lv;
    ag::leaves(all, lv);
    const Node *x = &n;
    nd::array s = a;
    while (x->k != Node::Leaf && !x->kids.empty()) {
      intptr_t i = c.rng.below(x->kids.size());
      s = s(c.rng.coin() ? i : i - (intptr_t)x->kids.size());
      x = &x->kids[i];
    }
    if (x->k == Node::Leaf && (x->tp.get_base_id() == int_kind_id || x->tp.get_id() == float64_id || x->tp.get_id() == string_id)) {
      auto bytes_of = [&](const Node *l) { return vf::hash_bytes(l->at, l->tp.get_data_size()); };
      std::vector<uint64_t> h;
      for (const Node *l : lv)
        h.push_back(bytes_of(l));
      c.describe("write through a view of " + text);
      bool str = x->tp.get_id() == string_id;
      if (str)
        s.assign(nd::array("written"));
      else
        s.assign(nd::array((int)77));
      int hits = 0;
      for (size_t i = 0; i < lv.size(); ++i)
        if (lv[i]->at == x->at)
          ++hits;
        else
          c.check(bytes_of(lv[i]) == h[i], "write-elsewhere", [&] { return text; });
      dv::Val now = dv::read(x->tp, nullptr, x->at);
      c.check(hits == 1 && (str ? now.s == "written" : now.k == dv::Val::Flt ? now.d == 77 : now.i == 77), "write-through", [&] { return text + " " + dv::show(now); });
      c.saw("write", vf::mix(x->at - all.at, vf::hash_str(text)));
    }
  }
}

// strided views made by hand: offsets, negative and repeated strides multiply through
static void strided(Ctx &c) {
  static const char *el[] = {"int32", "float64", "uint8", "string", "{a: int16, b: float64}", "(int8, 2 * int32)", "int128"};
  ag::View v = ag::make_view(c, ndt::type(el[c.rng.below(7)]), ag::gen_shape(c, 4, 6), ag::gen_layout(c, true));
  nd::array a = v.a;
  bool stop = false;
  bool wild = c.rng.chance(1, 3);
  for (int i = 0; i < 3 && !stop; ++i)
    one_step(c, a, v.str() + (i ? " sliced " : " "), wild, stop);
}

// vals_at, at with one index at a time, and shape/stride reports
static void reports(Ctx &c) {
  ag::View v = ag::make_view(c, ndt::type("int32"), ag::gen_shape(c, 4, 5, false), ag::gen_layout(c, false));
  const nd::array &a = v.a;
  c.describe(v.str());
  std::vector<intptr_t> sh(v.shape.size() + 1);
  if (a.get_ndim()) {
    a.get_shape(sh.data());
    std::vector<intptr_t> st = a.get_strides(), s2 = a.get_shape();
    for (size_t i = 0; i < v.shape.size(); ++i)
      c.check(sh[i] == v.shape[i] && s2[i] == v.shape[i] && st[i] == v.stride[i] * 4 && a.get_dim_size(i) == v.shape[i], "reported-layout", [&] { return v.str(); });
  }
  std::vector<intptr_t> ix;
  for (intptr_t s : v.shape)
    ix.push_back(c.rng.below(s));
  std::vector<intptr_t> neg = ix;
  for (size_t i = 0; i < ix.size(); ++i)
    if (c.rng.coin())
      neg[i] -= v.shape[i];
  std::vector<int> before((int *)v.owner.cdata(), (int *)v.owner.cdata() + v.count);
  int val = (int)c.rng.next();
  c.describe("vals_at of " + v.str());
  switch (ix.size()) {
  case 0:
    a.vals() = val;
    break;
  case 1:
    a.vals_at(neg[0]) = val;
    break;
  case 2:
    a.vals_at(neg[0], neg[1]) = val;
    break;
  case 3:
    a.vals_at(neg[0], neg[1], neg[2]) = val;
    break;
  case 4:
    a.vals_at(neg[0], neg[1], neg[2], neg[3]) = val;
    break;
  }
  intptr_t k = v.index(ix);
  for (size_t i = 0; i < v.count; ++i)
    c.check(((int *)v.owner.cdata())[i] == ((intptr_t)i == k ? val : before[i]), "vals_at", [&] { return vf::cat(v.str(), " element ", i, " instead of ", k); });
  c.saw("vals_at", vf::mix(k, vf::hash_str(v.str())));
  // a sub-array assigned at once
  if (!ix.empty()) {
    std::memcpy(before.data(), v.owner.cdata(), v.count * 4);
    irange r = gen_range(c, v.shape[0], false);
    Sel s = select(r, v.shape[0]);
    if (s.err == Ok) {
      a.vals_at(r) = val ^ 1;
      std::vector<char> in(v.count, 0);
      ag::each(v.shape, [&](const std::vector<intptr_t> &q) {
        for (intptr_t p : s.pos)
          if (p == q[0])
            in[v.index(q)] = 1;
      });
      for (size_t i = 0; i < v.count; ++i)
        c.check(((int *)v.owner.cdata())[i] == (in[i] ? (val ^ 1) : before[i]), "vals_at-range", [&] { return vf::cat(v.str(), " element ", i, " range ", show({r})); });
    }
  }
}

// every range on every small size, exhaustively
static void exhaustive(Ctx &c) {
  intptr_t n = c.idx % 6;
  nd::array a = nd::empty(ndt::make_fixed_dim(n, ndt::type("int32")));
  Node t = ag::tree(a);
  std::vector<intptr_t> b = {MIN, MAX};
  for (intptr_t i = -n - 2; i <= n + 2; ++i)
    b.push_back(i);
  for (intptr_t s : b)
    for (intptr_t e : b)
      for (intptr_t st : {1, 2, 3, 7, -1, -2, -3, -7}) {
        if (s == MAX || e == MIN)
          continue;
        std::vector<irange> ix = {irange(s, e, st)};
        Asker q{ix};
        int err = q.err(a.get_type(), &t, 0, true);
        c.describe(vf::cat(n, " elements", show(ix)));
        nd::array r;
        auto o = dv::attempt([&] { r = a(ix[0]); });
        c.saw("range", vf::mix(n, hash_ix(ix)));
        if (!c.check(err == Ok ? o.ok : true, "range-threw", [&] { return vf::cat(n, " elements ", show(ix), " ", o.msg); }) || !o.ok)
          continue;
        std::string why;
        c.check(ag::same(ag::tree(r), q.apply(t, 0), why), "range-elements", [&] { return vf::cat(n, " elements ", show(ix), " ", why); });
      }
  for (intptr_t i = -n - 3; i <= n + 2; ++i) {
    auto o = dv::attempt([&] { a(i); });
    c.check(o.ok == (i >= -n && i < n), "single-bounds", [&] { return vf::cat(n, " elements at ", i); });
  }
}

// known limitation: an index into a variable dimension that is not the leading one is not checked
static void var_inner(Ctx &c) {
  nd::array v = nd::empty("2 * var * int32");
  auto m = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(v.get()->metadata() + sizeof(fixed_dim_type_arrmeta));
  auto d = reinterpret_cast<ndt::var_dim_type::data_type *>(v.data());
  for (int i = 0; i < 2; ++i) {
    d[i].begin = m->blockref->alloc(3);
    d[i].size = i ? 1 : 3;
    for (int k = 0; k < 3; ++k)
      ((int *)d[i].begin)[k] = i * 10 + k;
  }
  c.describe("2 * var * int32 with rows of 3 and 1, index (:, 2)");
  nd::array r;
  auto o = dv::attempt([&] { r = v(irange(), 2); });
  c.check(!o.ok, "var-inner-index-unchecked", [&] { return "the second row has one element, but " + r.get_type().str() + " is returned"; });
  o = dv::attempt([&] { r = v(irange(), -1); });
  if (c.check(o.ok, "var-inner-negative-index", [&] { return o.msg; })) {
    const char *off = r.get()->metadata() + sizeof(fixed_dim_type_arrmeta);
    intptr_t x = reinterpret_cast<const pointer_type_arrmeta *>(off)->offset;
    c.check(x == 8, "var-inner-negative-index", [&] { return vf::cat("index -1 of a row of 3 is at byte ", x); });
  }
  c.saw("var-inner", 1);
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "A01",
                 "the leaves of an indexed array are, by address and type, the ones sequence semantics select from the original's",
                 {{"views", 12000, 600000, views, false},
                  {"strided", 6000, 300000, strided, false},
                  {"reports", 4000, 200000, reports, false},
                  {"exhaustive", 6, 6, exhaustive, false},
                  {"var-inner", 1, 1, var_inner, true}});
}
