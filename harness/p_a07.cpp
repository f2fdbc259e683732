// A07: tuple and struct fields are independent.  The reference is the memory itself: a field is the sub-object at its
// offset, wherever the record sits, and an assignment is a map from field names (or positions) to values.
#include "arrgen.hpp"
#include <dynd/access.hpp>
#include <dynd/callable.hpp>
using namespace dynd;
using dv::Val;
using vf::Ctx;
typedef std::vector<intptr_t> ivec;

static const char *k_view = "a field is not the memory of that field and nothing else";
static const char *k_value = "a field does not have the value stored in it";
static const char *k_unknown = "a field that does not exist is not refused";
static const char *k_other = "writing a field changed something else, or did not change the field";
static const char *k_throw = "a valid field access or assignment throws";
static const char *k_accept = "an assignment between records whose fields do not correspond is accepted";
static const char *k_part = "a refused assignment wrote something";
static const char *k_assign = "an assigned record does not have each field's value";
static const char *k_source = "assigning a record changed its source";
static const char *k_meta = "the type's field names, indices, types or count disagree";

static const char *pool[] = {"x",  "y",   "z",    "name", "value", "a",  "b",   "c",    "ab",   "abc", "A", "X",
                             "_x", "x_0", "x_00", "id",   "p",     "at", "get", "size", "type", "é",   "",  "a b"};
static std::vector<std::string> names(Ctx &c, size_t n) {
  std::vector<std::string> v(pool, pool + 24);
  for (size_t i = 0; i < n; ++i)
    std::swap(v[i], v[i + c.rng.below(24 - i)]);
  v.resize(n);
  return v;
}
static size_t field_count(Ctx &c) { return c.rng.chance(1, 6) ? 8 + c.rng.below(7) : c.rng.chance(1, 30) ? 0 : 1 + c.rng.below(5); }

static const std::vector<ndt::type> &types_of(const ndt::type &t) {
  return t.get_id() == tuple_id ? t.extended<ndt::tuple_type>()->get_field_types() : t.extended<ndt::struct_type>()->get_field_types();
}
static ndt::type make(bool st, const std::vector<std::string> &nm, const std::vector<ndt::type> &tp) {
  return st ? ndt::make_type<ndt::struct_type>(nm, tp) : ndt::make_type<ndt::tuple_type>(tp.size(), tp.data());
}

// the tree of the i-th field of every record in t
static ag::Node select(const ag::Node &t, size_t i) {
  if (t.k == ag::Node::Rec)
    return t.kids[i];
  ag::Node r;
  r.k = ag::Node::Dim;
  r.tp = t.tp;
  for (const ag::Node &x : t.kids)
    r.kids.push_back(select(x, i));
  return r;
}

static ndt::type gen_record(Ctx &c, bool st, bool var, std::vector<std::string> &nm) {
  ag::TypeOpts to;
  to.max_ndim = 2;
  to.max_size = 3;
  to.var = var;
  to.depth = 2;
  size_t n = field_count(c);
  nm = names(c, n);
  std::vector<ndt::type> tp;
  for (size_t i = 0; i < n; ++i)
    tp.push_back(ndt::type(n > 7 ? ag::gen_leaf(c, to) : ag::gen_type(c, to, 1)));
  return make(st, nm, tp);
}

// ---------------------------------------------------------------- reading
static void fields(Ctx &c) {
  bool st = c.rng.chance(2, 3);
  std::vector<std::string> nm;
  ndt::type rec = gen_record(c, st, true, nm);
  size_t n = nm.size();
  // the type's own account of itself
  if (st) {
    auto s = rec.extended<ndt::struct_type>();
    bool ok = (size_t)s->get_field_count() == n && s->get_field_names() == nm;
    for (size_t i = 0; i < n; ++i)
      ok = ok && s->get_field_index(nm[i]) == (intptr_t)i && s->get_field_type(i) == types_of(rec)[i];
    ok = ok && s->get_field_index("no such field") < 0;
    c.check(ok, k_meta, [&] { return rec.str(); });
  }
  nd::array a;
  int how = (int)c.rng.below(3);
  if (how == 0) {
    ag::View v = ag::make_view(c, rec, ag::gen_shape(c, 3, 3), ag::gen_layout(c, true));
    a = v.a;
  } else if (how == 1)
    a = ag::filled(c, rec);
  else
    a = ag::filled(c, ndt::type("var * 2 * int32")
                          .with_replaced_dtype(rec)); // a variable dimension in front
  std::string what = vf::cat("fields of ", a.get_type().str(), " ", dv::show(dv::read(a)));
  c.describe(what);
  ag::Node t = ag::tree(a);
  intptr_t ndim = a.get_ndim();
  for (size_t i = 0; i < n; ++i) {
    nd::array f;
    int by = st && c.rng.chance(2, 3) ? 1 : 0;
    dv::Outcome oc = dv::attempt([&] {
      if (by)
        f = c.rng.coin() ? a.p(nm[i]) : nd::access({a}, {{"name", nd::array(nm[i])}});
      else if (ndim == 0)
        f = a((intptr_t)i);
      else {
        std::vector<irange> ix(ndim + 1);
        ix[ndim] = irange((intptr_t)i);
        f = a.at_array(ndim + 1, ix.data());
      }
    });
    c.saw(vf::cat(st ? "struct" : "tuple", by ? " by name" : " by position", ndim ? " in array" : "").c_str(), vf::mix(vf::hash_str(a.get_type().str()), i));
    if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, " field ", i, ": ", oc.cls, " ", oc.msg); }))
      continue;
    std::string why;
    ag::Node want = select(t, i), got = ag::tree(f);
    c.check(ag::same(got, want, why), k_view, [&] { return vf::cat(what, " field ", i, ": ", why); });
    c.check(f.get_dtype() == types_of(rec)[i].get_dtype() && f.get_ndim() == ndim + types_of(rec)[i].get_ndim(), k_view,
            [&] { return vf::cat(what, " field ", i, " has type ", f.get_type().str()); });
  }
  // unknown names and positions
  std::vector<std::string> bad = {"no such field", n && st ? nm[0] + "_" : "q", n && st && nm[0].size() > 1 ? nm[0].substr(0, nm[0].size() - 1) : "w"};
  for (const std::string &s : bad)
    if (!st || std::find(nm.begin(), nm.end(), s) == nm.end())
      c.check(!dv::attempt([&] { a.p(s); }).ok, k_unknown, [&] { return what + " named " + vf::quote(s); });
  if (ndim == 0) {
    c.check(!dv::attempt([&] { a((intptr_t)n); }).ok, k_unknown, [&] { return vf::cat(what, " at ", n); });
    c.check(!dv::attempt([&] { a(-(intptr_t)n - 1); }).ok, k_unknown, [&] { return vf::cat(what, " at ", -(intptr_t)n - 1); });
    if (n) {
      std::string why;
      size_t i = c.rng.below(n);
      nd::array f;
      if (dv::attempt([&] { f = a((intptr_t)i - (intptr_t)n); }).ok)
        c.check(ag::same(ag::tree(f), t.kids[i], why), k_view, [&] { return vf::cat(what, " at ", (intptr_t)i - (intptr_t)n, ": ", why); });
    }
  }
}

// ---------------------------------------------------------------- writing one field
static bool no_assign(const ndt::type &t) { // leaf types the library registers no assignment for
  std::string s = t.str();
  return s.find("float16") != s.npos || s.find("char") != s.npos;
}
static void write(Ctx &c) {
  bool st = c.rng.chance(2, 3);
  std::vector<std::string> nm;
  ndt::type rec = gen_record(c, st, false, nm);
  if (nm.empty())
    return;
  size_t i = c.rng.below(nm.size());
  const ndt::type &ft = types_of(rec)[i];
  if (no_assign(ft))
    return;
  ivec shape = ag::gen_shape(c, 3, 3);
  ag::View v = ag::make_view(c, rec, shape, ag::gen_layout(c, false));
  Val before = dv::read(v.owner);
  bool scalar = c.rng.coin();
  ag::View src = ag::make_view(c, ft, scalar ? ivec() : shape, ag::gen_layout(c, false));
  std::string what = vf::cat("field ", i, " of ", v.str(), " = ", dv::show(dv::read(src.a)));
  c.describe(what);
  int how = (int)c.rng.below(2);
  dv::Outcome oc = dv::attempt([&] {
    nd::array f;
    if (st && how)
      f = v.a.p(nm[i]);
    else {
      std::vector<irange> ix(shape.size() + 1);
      ix.back() = irange((intptr_t)i);
      f = v.a.at_array(ix.size(), ix.data());
    }
    f.assign(src.a);
  });
  c.saw("write", vf::hash_str(what));
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  ag::each(shape, [&](const ivec &ix) { before.kids[v.index(ix)].kids[i] = src.val(scalar ? ivec() : ix); });
  Val after = dv::read(v.owner);
  c.check(after == before, k_other, [&] { return what + " gives " + dv::show(after) + " instead of " + dv::show(before); });
}

// ---------------------------------------------------------------- assignment between records
struct Rec { // a generated record type, as a tree
  bool rec = false, st = false;
  ndt::type leaf, wide; // source and destination leaf
  std::vector<std::string> nm;
  std::vector<Rec> kids;
};
static Rec gen_rec(Ctx &c, int depth) {
  static const char *leaves[][2] = {{"int8", "int64"}, {"int32", "int32"},   {"bool", "int32"},           {"int16", "float64"}, {"string", "string"},
                                    {"float64", "float64"}, {"?int32", "?int32"}, {"2 * int16", "2 * int32"}, {"uint8", "uint16"},  {"bytes", "bytes"},
                                    {"3 * 2 * float32", "3 * 2 * float64"}, {"uint64", "uint64"}, {"int32", "?int32"}, {"float32", "float32"}};
  Rec r;
  if (depth > 0 && (depth > 2 || c.rng.chance(3, 4))) {
    size_t k = c.rng.below(14);
    r.leaf = ndt::type(leaves[k][0]);
    r.wide = ndt::type(leaves[k][1]);
    return r;
  }
  r.rec = true;
  r.st = c.rng.chance(2, 3);
  r.nm = names(c, depth ? 1 + c.rng.below(4) : field_count(c));
  for (size_t i = 0; i < r.nm.size(); ++i)
    r.kids.push_back(gen_rec(c, depth + 1));
  return r;
}
static ndt::type src_type(const Rec &r) {
  if (!r.rec)
    return r.leaf;
  std::vector<ndt::type> t;
  for (const Rec &k : r.kids)
    t.push_back(src_type(k));
  return make(r.st, r.nm, t);
}
// the destination type: struct fields in another order, leaves wider; out maps values
struct Map {
  ndt::type tp;
  bool flt = false, rec = false;
  std::vector<size_t> from;
  std::vector<Map> kids;
};
static bool floating(const ndt::type &t) {
  type_id_t i = t.get_dtype().get_id();
  return i == float64_id || i == float32_id;
}
static Map dst_type(Ctx &c, const Rec &r, bool same_leaves) {
  Map m;
  if (!r.rec) {
    m.tp = same_leaves ? r.leaf : r.wide;
    m.flt = floating(m.tp);
    return m;
  }
  m.rec = true;
  for (size_t i = 0; i < r.kids.size(); ++i)
    m.from.push_back(i);
  if (r.st)
    for (size_t i = m.from.size(); i > 1; --i)
      std::swap(m.from[i - 1], m.from[c.rng.below(i)]);
  std::vector<std::string> nm;
  std::vector<ndt::type> tp;
  for (size_t k : m.from) {
    m.kids.push_back(dst_type(c, r.kids[k], same_leaves));
    nm.push_back(r.nm[k]);
    tp.push_back(m.kids.back().tp);
  }
  m.tp = make(r.st, nm, tp);
  return m;
}
static Val widen(const Val &v, bool flt) {
  if (v.k == Val::Seq) {
    Val r = Val::L({});
    for (const Val &x : v.kids)
      r.kids.push_back(widen(x, flt));
    return r;
  }
  return v.k == Val::Int && flt ? Val::F((double)v.i) : v;
}
static Val apply(const Map &m, const Val &v) {
  if (!m.rec)
    return widen(v, m.flt);
  Val r = Val::L({});
  for (size_t i = 0; i < m.from.size(); ++i)
    r.kids.push_back(apply(m.kids[i], v.kids[m.from[i]]));
  return r;
}
static Rec *pick_rec(Ctx &c, Rec &r) {
  Rec *p = &r;
  for (;;) {
    std::vector<Rec *> k;
    for (Rec &x : p->kids)
      if (x.rec)
        k.push_back(&x);
    if (k.empty() || c.rng.coin())
      return p;
    p = k[c.rng.below(k.size())];
  }
}
static void assign(Ctx &c) {
  Rec r = gen_rec(c, 0);
  Map m = dst_type(c, r, c.rng.coin());
  std::string spoil;
  if (c.rng.chance(1, 3)) { // the source loses, gains or renames a field somewhere
    Rec *p = pick_rec(c, r);
    size_t n = p->nm.size(), k = n ? c.rng.below(n) : 0;
    switch (c.rng.below(3)) {
    case 0:
      if (!n)
        return;
      p->nm.erase(p->nm.begin() + k);
      p->kids.erase(p->kids.begin() + k);
      spoil = "a field less: ";
      break;
    case 1: {
      Rec x;
      x.leaf = x.wide = ndt::type("int32");
      p->nm.insert(p->nm.begin() + k, "extra");
      p->kids.insert(p->kids.begin() + k, x);
      spoil = "a field more: ";
      break;
    }
    default:
      if (!n || !p->st)
        return;
      p->nm[k] += "2";
      spoil = "a field renamed: ";
    }
  }
  ivec ds = ag::gen_shape(c, 2, 3, false), ss = ds;
  if (!ss.empty() && c.rng.chance(1, 3))
    ss.erase(ss.begin());
  ag::View s = ag::make_view(c, src_type(r), ss, ag::gen_layout(c, true)), d = ag::make_view(c, m.tp, ds, ag::gen_layout(c, false));
  Val before = dv::read(d.owner), sv = dv::read(s.owner);
  std::string what = vf::cat(spoil, d.str(), " = ", s.str(), " ", dv::show(dv::read(s.a)));
  c.describe(what);
  dv::Outcome oc = dv::attempt([&] { d.a.assign(s.a); });
  c.saw(spoil.empty() ? "assign" : "assign refused", vf::hash_str(what));
  c.check(dv::read(s.owner) == sv, k_source, [&] { return what; });
  if (!spoil.empty()) {
    c.check(!oc.ok, k_accept, [&] { return what; });
    c.check(dv::read(d.owner) == before, k_part, [&] { return what; });
    return;
  }
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  ag::each(ds, [&](const ivec &ix) { before.kids[d.index(ix)] = apply(m, s.val(ivec(ix.end() - ss.size(), ix.end()))); });
  Val after = dv::read(d.owner);
  c.check(after == before, k_assign, [&] { return what + " gives " + dv::show(after) + " instead of " + dv::show(before); });
}

// ---------------------------------------------------------------- records made from values
static void built(Ctx &c) {
  size_t n = field_count(c);
  bool st = c.rng.coin();
  std::vector<std::string> nm = names(c, n);
  std::vector<nd::array> v;
  std::vector<Val> want;
  std::vector<ndt::type> tp;
  ag::TypeOpts to;
  to.max_ndim = 2;
  to.max_size = 3;
  to.depth = 1;
  while (v.size() < n) {
    nd::array a;
    if (c.rng.coin()) {
      ndt::type t(ag::gen_type(c, to));
      if (no_assign(t))
        continue;
      a = ag::filled(c, t);
    } else {
      ndt::type t(ag::gen_leaf(c, to));
      if (no_assign(t))
        continue;
      a = ag::make_view(c, t, ag::gen_shape(c, 2, 3), ag::gen_layout(c, true)).a;
    }
    v.push_back(a);
    want.push_back(dv::read(a));
    tp.push_back(a.get_type());
  }
  std::string what = vf::cat(st ? "as_struct" : "tuple", " of");
  for (size_t i = 0; i < n; ++i)
    what += vf::cat(" ", nm[i], ": ", tp[i].str(), " ", dv::show(want[i]), ";");
  c.describe(what);
  nd::array r;
  dv::Outcome oc = dv::attempt([&] {
    if (st) {
      std::vector<std::pair<const char *, nd::array>> p;
      for (size_t i = 0; i < n; ++i)
        p.emplace_back(nm[i].c_str(), v[i]);
      r = nd::as_struct(n, p.data());
    } else
      r = nd::tuple(n, v.data());
  });
  c.saw(st ? "as_struct" : "nd::tuple", vf::hash_str(what));
  if (!c.check(oc.ok, k_throw, [&] { return what + ": " + oc.cls + " " + oc.msg; }))
    return;
  c.check(r.get_type() == make(st, nm, tp), k_meta, [&] { return what + " has type " + r.get_type().str(); });
  Val got = dv::read(r), w = Val::L({});
  w.kids = want;
  c.check(got == w, k_value, [&] { return what + " gives " + dv::show(got); });
  for (size_t i = 0; i < n; ++i) {
    Val f;
    if (dv::attempt([&] { f = dv::read(st ? r.p(nm[i]) : r((intptr_t)i)); }).ok)
      c.check(f == want[i], k_value, [&] { return vf::cat(what, " field ", i, " gives ", dv::show(f)); });
    // the record holds its own copy
    std::vector<const ag::Node *> la, lb;
    ag::Node ta = ag::tree(r).kids[i], tb = ag::tree(v[i]);
    ag::leaves(ta, la);
    ag::leaves(tb, lb);
    for (size_t k = 0; k < la.size() && k < lb.size(); ++k)
      if (la[k]->tp.get_data_size() > 0)
        c.check(la[k]->at != lb[k]->at, k_view, [&] { return what; });
  }
}

// a record type of some names and another number of types is no type
static void uneven(Ctx &c) {
  size_t n = c.rng.below(8), m = c.rng.below(8);
  std::vector<std::string> nm = names(c, n);
  std::vector<ndt::type> tp;
  ag::TypeOpts to;
  for (size_t i = 0; i < m; ++i)
    tp.push_back(ndt::type(ag::gen_type(c, to)));
  std::string what = vf::cat("a record type of ", n, " names and ", m, " types");
  c.describe(what);
  c.saw("uneven record types", vf::mix(n, m));
  ndt::type t;
  auto o = dv::attempt([&] { t = ndt::make_type<ndt::struct_type>(nm, tp, c.rng.chance(1, 4)); });
  c.check(o.ok == (n == m), k_meta, [&] { return what + (o.ok ? " gives " + t.str() : ": " + o.msg); });
  if (o.ok && n == m)
    for (size_t i = 0; i < n; ++i)
      c.check(t.extended<ndt::struct_type>()->get_field_name(i) == nm[i] && types_of(t)[i] == tp[i], k_meta, [&] { return what; });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "A07",
                 "records of up to 14 fields and nested records, in strided arrays: each field read is compared with its memory, each write with the whole owner, each "
                 "assignment with a map from names to values",
                 {{"fields", 16000, 600000, fields},
                  {"write", 14000, 600000, write},
                  {"assign", 20000, 800000, assign},
                  {"built", 6000, 200000, built},
                  {"uneven", 1500, 20000, uneven}});
}
