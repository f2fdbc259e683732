// A05: access permissions. Trees of views over arrays of every access mode are grown at random; every view which shares
// memory with a restricted array must stay restricted, every way of writing through it must throw, and the memory must
// be left alone.
#include "arrgen.hpp"
#include <dynd/arithmetic.hpp>
#include <dynd/assignment.hpp>
#include <dynd/callable.hpp>
#include <dynd/functional.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/parse.hpp>
#include <dynd/random.hpp>
#include <dynd/sort.hpp>
#include <dynd/string.hpp>
#include <dynd/view.hpp>
#include <set>
using namespace dynd;
using dv::Val;
using vf::Ctx;

static const char *k_widened = "a view of an array that is not writable is writable";
static const char *k_immut = "a view of memory that may change says it is immutable";
static const char *k_data = "data() does not go by the access flags";
static const char *k_wrote = "writing through a view that is not writable went through";
static const char *k_changed = "the data of an array that is not writable changed";
static const char *k_copyfl = "a copy does not have the access asked for";
static const char *k_copyval = "a copy does not hold the values of its source";
static const char *k_lost = "a write through a writable array was refused or lost";
static const char *k_tuple = "a combination of arrays allows more than each of them";

enum { R = nd::read_access_flag, W = nd::write_access_flag, IM = nd::immutable_access_flag };

struct Item {
  nd::array a;
  std::string how;
};
static void addrs(const ag::Node &n, std::set<const char *> &out) {
  std::vector<const ag::Node *> ls;
  ag::leaves(n, ls);
  for (auto l : ls) {
    const ndt::type &tp = l->tp;
    if (tp.get_default_data_size() == 0)
      continue;
    out.insert(l->at);
    if (tp.get_id() == string_id && reinterpret_cast<const dynd::string *>(l->at)->size() > 0)
      out.insert(reinterpret_cast<const dynd::string *>(l->at)->begin());
    if (tp.get_id() == bytes_id && reinterpret_cast<const dynd::bytes *>(l->at)->size() > 0)
      out.insert(reinterpret_cast<const dynd::bytes *>(l->at)->begin());
    if (tp.get_id() == pointer_id && *reinterpret_cast<char *const *>(l->at))
      out.insert(*reinterpret_cast<char *const *>(l->at));
  }
}
static bool shares(const std::set<const char *> &x, const std::set<const char *> &y) {
  for (const char *p : x)
    if (y.count(p))
      return true;
  return false;
}
static std::string flags_str(uint64_t f) {
  return std::string(f & R ? "r" : "-") + (f & W ? "w" : "-") + (f & IM ? "i" : "-");
}

// an array with the flags given, and where it came from
static nd::array source(Ctx &c, uint64_t flags, std::string &how) {
  ag::TypeOpts o;
  o.max_ndim = 3;
  o.max_size = 4;
  o.var = c.rng.chance(1, 3);
  o.rec = c.rng.chance(1, 2);
  o.strings = c.rng.chance(1, 2);
  o.options = c.rng.chance(1, 4);
  ag::FillOpts fo;
  fo.small = true;
  int kind = (int)c.rng.below(4);
  if (kind == 0) { // a contiguous, strided or broadcast view of plain memory
    std::string el = ag::gen_leaf(c, o);
    ag::View v = ag::make_view(c, ndt::type(el), ag::gen_shape(c, 3, 4), ag::gen_layout(c, true), fo, flags);
    how = v.str();
    return v.a;
  }
  ndt::type tp(kind == 1 ? vf::cat(1 + c.rng.below(3), " * ", ag::gen_leaf(c, o)) : ag::gen_type(c, o));
  nd::array a = ag::filled(c, tp, fo);
  if (kind == 2 && (flags == (R | W) || flags == (R | IM))) {
    nd::array cp;
    if (dv::attempt([&] { cp = a.eval_copy((uint32_t)flags); }).ok) { // some types have no assignment
      how = tp.str() + ", copied";
      return cp;
    }
  }
  how = tp.str();
  nd::array r = nd::make_array(tp, a.data(), a, flags);
  if (tp.get_arrmeta_size() > 0)
    tp.extended()->arrmeta_copy_construct(r.get()->metadata(), a.get()->metadata(), a);
  return r;
}

static irange some_range(Ctx &c, intptr_t n) {
  switch (c.rng.below(4)) {
  case 0:
    return n > 0 ? irange(c.rng.range(-n, n - 1)) : irange();
  case 1:
    return irange().by(-1);
  case 2: {
    intptr_t b = (intptr_t)c.rng.below(n + 1);
    return irange(b, b + (intptr_t)c.rng.below(n - b + 1));
  }
  default:
    return irange();
  }
}

// one way of getting an array from a; copy says that it need not share
static nd::array derive(Ctx &c, const nd::array &a, std::string &how) {
  intptr_t nd_ = a.get_ndim();
  switch (c.rng.below(17)) {
  case 0: case 1: case 2: {
    if (nd_ == 0)
      break;
    int n = 1 + (int)c.rng.below(nd_);
    std::vector<irange> ix;
    intptr_t first = a.get_dim_size();
    for (int i = 0; i < n; ++i)
      ix.push_back(i == 0 ? some_range(c, first) : c.rng.coin() ? irange() : irange(0));
    bool collapse = c.rng.coin();
    how = vf::cat(".at_array(", n, collapse ? ", collapse)" : ")");
    return a.at_array(n, ix.data(), collapse);
  }
  case 3: case 4: {
    ndt::type dt = a.get_dtype();
    if (dt.get_id() == struct_id && dt.extended<ndt::struct_type>()->get_field_count() > 0) {
      auto s = dt.extended<ndt::struct_type>();
      std::string nm = s->get_field_name(c.rng.below(s->get_field_count()));
      how = ".p(" + nm + ")";
      return a.p(nm);
    }
    if (nd_ == 0 && dt.get_id() == tuple_id && dt.extended<ndt::tuple_type>()->get_field_count() > 0) {
      irange i((intptr_t)c.rng.below(dt.extended<ndt::tuple_type>()->get_field_count()));
      how = ".at(field)";
      return a.at(i);
    }
    break;
  }
  case 5: {
    std::vector<intptr_t> ax(nd_);
    for (intptr_t i = 0; i < nd_; ++i)
      ax[i] = i;
    for (intptr_t i = nd_; i > 1; --i)
      std::swap(ax[i - 1], ax[c.rng.below(i)]);
    how = ".permute";
    return a.permute(nd_, ax.data());
  }
  case 6:
    how = ".transpose";
    return a.transpose();
  case 7: {
    how = ".rotate";
    if (nd_ < 2)
      break;
    return a.rotate(c.rng.below(nd_), c.rng.below(nd_));
  }
  case 8:
    how = ".new_axis";
    return a.new_axis(c.rng.below(nd_ + 1), 1 + c.rng.below(2));
  case 9: {
    how = ".reshape";
    std::vector<intptr_t> sh = a.get_shape();
    intptr_t n = 1;
    for (intptr_t s : sh)
      n *= s;
    if (nd_ == 0 || n < 0 || !a.get_dtype().is_builtin() || !a.get_type().is_c_contiguous(a.get()->metadata())) // what reshape asks for
      break;
    return nd::reshape(a, nd::array(c.rng.coin() ? std::vector<intptr_t>{n} : std::vector<intptr_t>{1, n}));
  }
  case 10: {
    static const char *ts[] = {"int8", "uint8", "uint16", "int32", "uint64", "float64", "fixed_bytes[4]"};
    ndt::type t(ts[c.rng.below(7)]);
    how = ".view_scalars(" + t.str() + ")";
    return a.view_scalars(t);
  }
  case 11: {
    size_t n = a.get_dtype().get_default_data_size();
    ndt::type t = c.rng.coin() ? a.get_type() : c.rng.coin() ? ndt::make_fixed_dim(n, ndt::type("uint8")) : ndt::type(n == 8 ? "float64" : n == 4 ? "uint32" : n == 2 ? "uint16" : "uint8");
    how = ".view(" + t.str() + ")";
    return a.view(t);
  }
  case 12:
    how = ".storage";
    return a.storage();
  case 13:
    how = ".eval";
    return a.eval();
  case 14:
    how = ".shallow_copy";
    return nd::shallow_copy_array_memory_block(a);
  case 15:
    how = ".old_view";
    return nd::old_view(a, a.get_type());
  case 16: {
    how = ".combine";
    nd::array two[2] = {a, a};
    nd::array t = nd::combine_into_tuple(c.rng.coin() ? 1 : 2, two);
    if (c.rng.coin())
      return t;
    irange i(0);
    how += "[0]";
    return t.at(i);
  }
  }
  how = " again";
  return nd::array(a);
}

// a way of writing a
static const int n_writes = 14;
static std::string write(Ctx &c, int kind, const nd::array &a) {
  ndt::type dt = a.get_dtype();
  bool text = dt.get_id() == string_id;
  switch (kind) {
  case 0:
    a.assign(text ? nd::array("written") : nd::array(77));
    return "assign(scalar)";
  case 1: {
    nd::array b = nd::empty(ndt::type(dt));
    ag::FillOpts fo;
    fo.small = true;
    ag::fill(c, b.get_type(), b.get()->metadata(), b.data(), fo);
    a.assign(b);
    return "assign(element)";
  }
  case 2:
    a.assign(a.eval_copy());
    return "assign(its copy)";
  case 3:
    nd::array(a).vals() = nd::array(5);
    return "vals()=";
  case 4: {
    nd::array b(a);
    b += nd::array(1);
    return "+=";
  }
  case 5:
    a.assign_na();
    return "assign_na";
  case 6: {
    nd::array b(a);
    nd::sort(b);
    return "sort";
  }
  case 7: {
    std::pair<const char *, nd::array> kw[] = {{"dst", a}};
    nd::array args[] = {nd::array(3)};
    nd::assign.call(1, args, 1, kw);
    return "assign(dst=)";
  }
  case 8: {
    std::pair<const char *, nd::array> kw[] = {{"dst", a}};
    nd::array args[] = {nd::array(3), nd::array(4)};
    nd::add.call(2, args, 1, kw);
    return "add(dst=)";
  }
  case 9: {
    std::pair<const char *, nd::array> kw[] = {{"dst", a}};
    nd::array args[] = {nd::array{1, 2, 3}};
    nd::sum.call(1, args, 1, kw);
    return "sum(dst=)";
  }
  case 10: {
    std::pair<const char *, nd::array> kw[] = {{"dst", a}};
    static nd::callable f = nd::functional::elwise(nd::functional::apply([](int x) { return x + 1; }));
    nd::array args[] = {nd::array(41)};
    f.call(1, args, 1, kw);
    return "elwise(dst=)";
  }
  case 11:
    a(irange()).vals() = nd::array(6);
    return "(range).vals()=";
  case 12: {
    nd::array b(a);
    parse_json(b, std::string(text ? "\"abc\"" : "12"), &eval::default_eval_context);
    return "parse_json";
  }
  default:
    nd::array(a).vals_at(0) = nd::array(9);
    return "vals_at(0)=";
  }
}

static bool extent(const Val &v, size_t &n) {
  if (++n > 600)
    return false;
  for (const Val &x : v.kids)
    if (!extent(x, n))
      return false;
  return true;
}
static bool hollow(const ag::Node &n) { // nothing to be written
  std::vector<const ag::Node *> ls;
  ag::leaves(n, ls);
  for (auto l : ls)
    if (l->tp.get_default_data_size() > 0)
      return false;
  return true;
}

static void views(Ctx &c) {
  static const uint64_t modes[] = {R, R | IM, R | W, R | IM, R};
  uint64_t flags = modes[c.rng.below(5)];
  std::string how;
  nd::array root = source(c, flags, how);
  how = flags_str(flags) + " " + how;
  c.describe(how);
  c.check(root.get_flags() == flags, k_copyfl, [&] { return vf::cat(how, " has ", flags_str(root.get_flags())); });
  Val before = dv::read(root);
  size_t ext = 0;
  if (!extent(before, ext))
    return;
  std::set<const char *> mine;
  addrs(ag::tree(root), mine);
  std::vector<Item> pool = {{root, how}};
  int steps = 2 + (int)c.rng.below(7);
  for (int s = 0; s < steps; ++s) {
    const Item from = pool[c.rng.chance(1, 3) ? c.rng.below(pool.size()) : pool.size() - 1];
    std::string step;
    nd::array got;
    dv::Outcome oc = dv::attempt([&] { got = derive(c, from.a, step); });
    if (!oc.ok || got.is_null())
      continue;
    std::string path = from.how + step;
    c.describe(path);
    std::set<const char *> theirs;
    addrs(ag::tree(got), theirs);
    bool sh = shares(mine, theirs);
    uint64_t f = got.get_flags();
    c.saw("view", vf::mix(vf::hash_str(step), vf::mix(flags, sh * 8 + f)));
    if (sh && !(flags & W))
      c.check(!(f & W), k_widened, [&] { return vf::cat(path, " is ", flags_str(f)); });
    if (sh && !(flags & IM))
      c.check(!(f & IM), k_immut, [&] { return vf::cat(path, " is ", flags_str(f)); });
    dv::Outcome d = dv::attempt([&] { got.data(); });
    c.check(d.ok == ((f & W) != 0), k_data, [&] { return vf::cat(path, " is ", flags_str(f), " and data() ", d.ok ? "works" : "throws"); });
    pool.push_back({got, path});
  }
  // writes
  int n = 1 + (int)c.rng.below(4);
  for (int i = 0; i < n; ++i) {
    const Item &it = pool[c.rng.below(pool.size())];
    uint64_t f = it.a.get_flags();
    int kind = (int)c.rng.below(n_writes);
    std::string op;
    c.describe(vf::cat(it.how, " write ", kind));
    ag::Node t = ag::tree(it.a);
    if (hollow(t))
      continue;
    if (f & W) {
      std::set<const char *> theirs;
      addrs(t, theirs);
      if (!(flags & W) && shares(mine, theirs))
        continue; // already reported
    }
    Val was = dv::read(it.a);
    dv::Outcome oc = dv::attempt([&] { op = write(c, kind, it.a); });
    c.saw(oc.ok ? "written" : "refused", vf::mix(kind, vf::mix(f, vf::hash_str(it.a.get_type().str()))));
    if (!(f & W)) {
      c.check(!oc.ok, k_wrote, [&] { return vf::cat(it.how, " (", it.a.get_type().str(), ", ", flags_str(f), ") took ", op); });
      Val now = dv::read(it.a);
      c.check((was == now), k_changed, [&] { return vf::cat(it.how, " was ", dv::show(was), " and is ", dv::show(now), " after write ", kind, " ", oc.msg); });
    }
    if (!(flags & W)) {
      Val now = dv::read(root);
      c.check((before == now), k_changed, [&] { return vf::cat(how, " was ", dv::show(before), " and is ", dv::show(now), " after write ", kind, " on ", it.how); });
    }
    if ((flags & W))
      before = dv::read(root);
  }
}

// a write through a writable array of a simple type takes; the same write through a restricted view of it does not
static void pairs(Ctx &c) {
  static const char *els[] = {"int8", "int32", "int64", "uint16", "float32", "float64"};
  ndt::type el(els[c.rng.below(6)]);
  ag::FillOpts fo;
  fo.small = true;
  ag::View v = ag::make_view(c, el, ag::gen_shape(c, 3, 4, false), ag::gen_layout(c, false), fo, R | W);
  uint64_t fl = c.rng.coin() ? R : R | IM;
  nd::array ro = nd::make_array(v.a.get_type(), v.a.data(), v.owner, fl);
  if (v.a.get_type().get_arrmeta_size() > 0)
    v.a.get_type().extended()->arrmeta_copy_construct(ro.get()->metadata(), v.a.get()->metadata(), v.owner);
  int kind;
  do
    kind = (int)c.rng.below(n_writes);
  while (kind == 5 || kind == 6 || kind == 9 || ((kind == 13 || kind == 11 || kind == 12) && v.shape.empty()) || (kind == 12 && !v.shape.empty()));
  std::string how = vf::cat(v.str(), " write ", kind);
  c.describe(how);
  Ctx c2 = c;
  Val was = dv::read(v.a);
  std::string op;
  dv::Outcome r = dv::attempt([&] { op = write(c, kind, ro); });
  Val after = dv::read(v.a);
  c.check(!r.ok, k_wrote, [&] { return vf::cat(how, " ", op, " through ", flags_str(fl)); });
  c.check((was == after), k_changed, [&] { return vf::cat(how, " through ", flags_str(fl), " was ", dv::show(was), " and is ", dv::show(after)); });
  dv::Outcome w = dv::attempt([&] { op = write(c2, kind, v.a); });
  Val now = dv::read(v.a);
  c.saw("pair", vf::mix(kind, vf::mix(fl, vf::hash_str(v.str()))));
  bool lossless = kind != 4 && kind != 8 && kind != 10; // those may want another type or shape of destination
  if (lossless || w.ok)
    c.check(w.ok, k_lost, [&] { return vf::cat(how, " refused: ", w.msg); });
  if (w.ok) {
    static const int put[] = {77, 0, 0, 5, 0, 0, 0, 3, 7, 0, 42, 6, 12, 0};
    Val first = dv::read(el, nullptr, v.at(v.origin));
    if (put[kind]) {
      bool good = (first.k == Val::Int && first.i == put[kind]) || (first.k == Val::Flt && first.d == put[kind]);
      c.check(good, k_lost, [&] { return vf::cat(how, " ", op, " gives ", dv::show(now)); });
    }
    // the restricted view sees the same memory
    c.check((now == dv::read(ro)), k_lost, [&] { return vf::cat(how, " ", op, ": the two views differ"); });
  }
}

// copies: own memory, with the access asked for, not touched by later writes to the source
static void copies(Ctx &c) {
  std::string how;
  static const uint64_t modes[] = {R, R | IM, R | W};
  uint64_t flags = modes[c.rng.below(3)];
  nd::array src = source(c, flags, how);
  how = flags_str(flags) + " " + how;
  c.describe(how);
  Val was = dv::read(src);
  size_t ext = 0;
  if (!extent(was, ext))
    return;
  static const uint32_t ask[] = {0, R, R | W, R | IM};
  uint32_t want = ask[c.rng.below(4)];
  nd::array cp;
  dv::Outcome oc = dv::attempt([&] { cp = src.eval_copy(want); });
  if (!oc.ok) {
    c.saw("copy_refused", vf::hash_str(oc.msg.substr(0, 40)));
    return;
  }
  uint64_t f = cp.get_flags(), expect = want == 0 ? (uint64_t)(R | W) : want == R ? (uint64_t)(R | IM) : want;
  c.saw("copy", vf::mix(flags, vf::mix(want, vf::hash_str(src.get_type().str()))));
  c.check(f == expect, k_copyfl, [&] { return vf::cat(how, " copied with ", want, " gives ", flags_str(f)); });
  Val got = dv::read(cp);
  c.check((was == got), k_copyval, [&] { return vf::cat(how, " is ", dv::show(was), " and its copy ", dv::show(got)); });
  std::set<const char *> mine, theirs;
  addrs(ag::tree(src), mine);
  addrs(ag::tree(cp), theirs);
  c.check(!shares(mine, theirs), k_copyval, [&] { return vf::cat(how, ": the copy shares memory with its source"); });
  // write to the one that can be written; the other stays
  const nd::array &wr = c.rng.coin() ? cp : src, &other = &wr == &cp ? src : cp;
  for (int i = 0; i < 3; ++i) {
    int kind = (int)c.rng.below(n_writes);
    dv::attempt([&] { write(c, kind, wr); });
    Val o = dv::read(other);
    c.check((o == was), k_changed, [&] { return vf::cat(how, ": writing ", &wr == &cp ? "the copy" : "the source", " (", kind, ") changed the other from ", dv::show(was), " to ", dv::show(o)); });
  }
  if (!(wr.get_flags() & W)) {
    Val o = dv::read(wr);
    c.check((o == was), k_changed, [&] { return vf::cat(how, ": ", flags_str(wr.get_flags()), " changed from ", dv::show(was), " to ", dv::show(o)); });
  }
}

// tuples of views of several arrays: no more access than each
static void combined(Ctx &c) {
  static const uint64_t modes[] = {R, R | IM, R | W};
  int n = 1 + (int)c.rng.below(4);
  std::vector<nd::array> parts;
  std::vector<Val> was;
  uint64_t meet = R | W | IM;
  std::string how;
  for (int i = 0; i < n; ++i) {
    uint64_t fl = modes[c.rng.below(3)];
    std::string h;
    nd::array a = source(c, fl, h);
    Val v = dv::read(a);
    size_t ext = 0;
    if (!extent(v, ext))
      return;
    parts.push_back(a);
    was.push_back(v);
    meet &= fl;
    how += flags_str(fl) + " " + h + "; ";
  }
  c.describe(how);
  nd::array t;
  dv::Outcome oc = dv::attempt([&] { t = nd::combine_into_tuple(n, parts.data()); });
  if (!oc.ok)
    return;
  c.saw("combined", vf::mix(n, vf::hash_str(how)));
  c.check(!(t.get_flags() & ~meet & (W | IM)), k_tuple, [&] { return vf::cat(how, " gives ", flags_str(t.get_flags())); });
  for (int i = 0; i < n; ++i) {
    nd::array e;
    dv::Outcome g = dv::attempt([&] { irange ix(i); e = t.at(ix); });
    if (!g.ok)
      continue;
    uint64_t pf = parts[i].get_flags(), ef = e.get_flags();
    c.check(!(ef & W) || (pf & W), k_tuple, [&] { return vf::cat(how, " field ", i, " is ", flags_str(ef)); });
    int kind = (int)c.rng.below(n_writes);
    dv::attempt([&] { write(c, kind, e); });
    Val now = dv::read(parts[i]);
    if (!(pf & W))
      c.check((now == was[i]), k_changed, [&] { return vf::cat(how, " field ", i, " changed from ", dv::show(was[i]), " to ", dv::show(now)); });
  }
}

// values made from C++ scalars are immutable: operators, views, assignment to copies of the handle
static void scalars(Ctx &c) {
  nd::array a;
  Val v;
  switch (c.rng.below(6)) {
  case 0: a = nd::array((int)c.rng.range(-100, 100)); break;
  case 1: a = nd::array(c.rng.range(-100, 100) / 4.0); break;
  case 2: a = nd::array("some text"); break;
  case 3: a = nd::array(std::string(1 + c.rng.below(40), 'x')); break;
  case 4: a = nd::array(c.rng.coin()); break;
  default: a = nd::array(ndt::type("3 * int32")); break;
  }
  v = dv::read(a);
  std::string tp = a.get_type().str();
  c.describe("scalar " + tp);
  c.check((a.get_flags() & (W | IM)) == IM, k_copyfl, [&] { return vf::cat("a scalar ", tp, " has ", flags_str(a.get_flags())); });
  nd::array b = a;
  for (int i = 0; i < 3; ++i) {
    std::string step;
    nd::array d = b;
    if (c.rng.coin())
      dv::attempt([&] { d = derive(c, a, step); });
    if (d.is_null())
      continue;
    int kind = (int)c.rng.below(n_writes);
    std::string op;
    bool ro = !(d.get_flags() & W);
    dv::Outcome oc = dv::attempt([&] { op = write(c, kind, d); });
    c.saw("scalar", vf::mix(kind, vf::hash_str(tp + step)));
    c.check(!ro || !oc.ok || hollow(ag::tree(d)), k_wrote, [&] { return vf::cat("a scalar ", tp, step, " took ", op); });
    Val now = dv::read(a);
    c.check((v == now), k_changed, [&] { return vf::cat("a scalar ", tp, " changed from ", dv::show(v), " to ", dv::show(now), " by ", step, " write ", kind); });
  }
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "A05",
                 "chains of up to 8 view operations on arrays of random type, layout and access mode, then writes of 14 kinds through any of them; copies with every access asked for; "
                 "combinations of arrays of different access; C++ scalars",
                 {{"views", 12000, 400000, views}, {"pairs", 6000, 200000, pairs}, {"copies", 6000, 150000, copies}, {"combined", 3000, 80000, combined}, {"scalars", 4000, 80000, scalars}});
}
