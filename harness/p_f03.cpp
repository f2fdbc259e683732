// F03: sort, binary_search and the comparisons behind them, against std::stable_sort on values read from memory.
#include "arrgen.hpp"
#include <dynd/callable.hpp>
#include <dynd/comparison.hpp>
#include <dynd/search.hpp>
#include <dynd/sort.hpp>
using namespace dynd;
using dv::Val;
using vf::Ctx;
typedef std::vector<intptr_t> ivec;

static const char *k_order = "a sorted array is not in ascending order";
static const char *k_elems = "a sorted array does not have the elements it had before";
static const char *k_other = "sorting changed memory outside the array, or its shape";
static const char *k_throw = "sorting or searching an array of a supported type throws";
static const char *k_found = "a search gives a position that does not hold the value sought";
static const char *k_missed = "a search does not find a value that is there";
static const char *k_source = "a search changed the array";
static const char *k_cmp = "comparisons of equal-typed values are not a consistent order";
static const char *k_quiet = "a search among values of another type is answered as if they were of the type sought";

static const char *kinds[] = {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string", "int128", "uint128", "fixed_string[6]"};

// strict order by value
static bool before(const ndt::type &tp, const Val &a, const Val &b) {
  if (a.k == Val::Int)
    return tp.get_id() == uint128_id ? (dv::u128)a.i < (dv::u128)b.i : a.i < b.i;
  if (a.k == Val::Flt)
    return a.d < b.d;
  if (tp.get_id() == fixed_string_id && (tp.get_data_size() == 8)) { // two utf-32 units
    for (int i = 0; i < 2; ++i) {
      uint32_t x, y;
      memcpy(&x, a.s.data() + 4 * i, 4);
      memcpy(&y, b.s.data() + 4 * i, 4);
      if (x != y)
        return x < y;
    }
    return false;
  }
  return a.s.compare(b.s) < 0;
}
static ndt::type gen_elem(Ctx &c) { return ndt::type(kinds[c.rng.below(sizeof kinds / sizeof *kinds)]); }
// few distinct values in many places
static void fill(Ctx &c, ag::View &v) {
  ag::FillOpts fo;
  fo.small = c.rng.coin();
  fo.ascii = c.rng.coin();
  size_t distinct = c.rng.chance(1, 3) ? 1 + c.rng.below(4) : 1000000;
  for (size_t i = 0; i < v.count; ++i)
    if (i < distinct || v.elem.get_id() == string_id)
      ag::fill_leaf(c, v.elem, v.at((intptr_t)i), fo);
    else
      memcpy(v.at((intptr_t)i), v.at((intptr_t)c.rng.below(distinct)), v.elem.get_data_size());
  if (v.elem.get_id() == string_id && distinct < 100)
    for (size_t i = distinct; i < v.count; ++i)
      *reinterpret_cast<dynd::string *>(v.at((intptr_t)i)) = *reinterpret_cast<dynd::string *>(v.at((intptr_t)c.rng.below(distinct)));
  if (c.rng.chance(1, 4) && v.elem.get_base_id() == float_kind_id) // zeros of both signs, infinities
    for (size_t i = 0; i < v.count; i += 1 + c.rng.below(4)) {
      double d[] = {0.0, -0.0, HUGE_VAL, -HUGE_VAL};
      double x = d[c.rng.below(4)];
      float f = (float)x;
      memcpy(v.at((intptr_t)i), v.elem.get_id() == float32_id ? (void *)&f : (void *)&x, v.elem.get_data_size());
    }
}
// element types whose order the library does not define are refused
static bool refused(const dv::Outcome &oc) { return !oc.ok && oc.msg.find("signature not found") != std::string::npos; }
static bool orderless(const ndt::type &tp) { return tp.get_id() == int128_id || tp.get_id() == uint128_id || tp.get_id() == fixed_string_id; }
static size_t gen_n(Ctx &c) { return c.rng.chance(1, 3) ? c.rng.below(4) : c.rng.chance(1, 3) ? 14 + c.rng.below(6) : c.rng.chance(1, 12) ? 500 + c.rng.below(1500) : c.rng.below(60); }
static std::vector<Val> all(const ag::View &v) {
  std::vector<Val> r;
  for (size_t i = 0; i < v.count; ++i)
    r.push_back(dv::read(v.elem, v.owner.get()->metadata() + sizeof(fixed_dim_type_arrmeta), v.at((intptr_t)i)));
  return r;
}
static std::string show(const std::vector<Val> &v) { return dv::show(Val::L(v)); }

static void sorted(Ctx &c) {
  ndt::type el = gen_elem(c);
  size_t n = gen_n(c);
  ag::View v = ag::make_view(c, el, {(intptr_t)n}, ag::gen_layout(c, false));
  fill(c, v);
  if (c.rng.chance(1, 4) && el.get_id() != string_id && n) { // ready-made orders
    std::vector<std::string> raw;
    std::vector<std::pair<Val, std::string>> k;
    for (size_t i = 0; i < n; ++i)
      k.push_back({v.val({(intptr_t)i}), std::string(v.at(ivec{(intptr_t)i}), el.get_data_size())});
    bool down = c.rng.coin();
    std::stable_sort(k.begin(), k.end(), [&](auto &x, auto &y) { return down ? before(el, y.first, x.first) : before(el, x.first, y.first); });
    if (c.rng.chance(1, 3))
      std::swap(k[c.rng.below(n)], k[c.rng.below(n)]);
    for (size_t i = 0; i < n; ++i)
      memcpy(v.at(ivec{(intptr_t)i}), k[i].second.data(), el.get_data_size());
  }
  std::vector<Val> was = all(v), want = was, b;
  for (size_t i = 0; i < n; ++i)
    b.push_back(v.val({(intptr_t)i}));
  std::stable_sort(b.begin(), b.end(), [&](const Val &x, const Val &y) { return before(el, x, y); });
  for (size_t i = 0; i < n; ++i)
    want[v.index({(intptr_t)i})] = b[i];
  std::string what = vf::cat("sort of ", v.str(), n <= 30 ? " " + dv::show(dv::read(v.a)) : "");
  c.describe(what);
  dv::Outcome oc = dv::attempt([&] { nd::sort(v.a); });
  c.saw(vf::cat("sort ", n < 17 ? "short" : "long").c_str(), vf::mix(vf::hash_str(v.str()), dv::hash(Val::L(b))));
  if (orderless(el) && refused(oc)) {
    c.check(all(v) == was, k_other, [&] { return what; });
    return;
  }
  if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.cls, " ", oc.msg); }))
    return;
  std::vector<Val> now = all(v), got;
  for (size_t i = 0; i < n; ++i)
    got.push_back(now[v.index({(intptr_t)i})]);
  bool asc = true;
  for (size_t i = 1; i < n; ++i)
    asc = asc && !before(el, got[i], got[i - 1]);
  c.check(asc, k_order, [&] { return vf::cat(what, " gives ", show(got)); });
  std::vector<Val> g2 = got, w2 = b; // as multisets (zeros of different signs compare equal)
  auto tot = [&](const Val &x, const Val &y) { return before(el, x, y) || (!before(el, y, x) && x.k == Val::Flt && std::signbit(x.d) && !std::signbit(y.d)); };
  std::stable_sort(g2.begin(), g2.end(), tot);
  std::stable_sort(w2.begin(), w2.end(), tot);
  c.check(g2 == w2, k_elems, [&] { return vf::cat(what, " gives ", show(got)); });
  std::vector<bool> in(v.count, false);
  for (size_t i = 0; i < n; ++i)
    in[v.index({(intptr_t)i})] = true;
  bool rest = v.a.get_dim_size() == (intptr_t)n;
  for (size_t i = 0; i < v.count; ++i)
    rest = rest && (in[i] || now[i] == want[i]);
  c.check(rest, k_other, [&] { return what; });
  if (c.idx < 2)
    c.sample(what);
}

// one row of a larger array, or one field
static void part(Ctx &c) {
  ndt::type el = gen_elem(c);
  intptr_t r = 1 + c.rng.below(4), n = c.rng.below(30), k = c.rng.below(r);
  ag::View v = ag::make_view(c, el, {r, n}, ag::gen_layout(c, false));
  fill(c, v);
  std::string what = vf::cat("sort of row ", k, " of ", v.str());
  c.describe(what);
  std::vector<Val> was = all(v), want = was, b;
  for (intptr_t i = 0; i < n; ++i)
    b.push_back(v.val({k, i}));
  std::stable_sort(b.begin(), b.end(), [&](const Val &x, const Val &y) { return before(el, x, y); });
  for (intptr_t i = 0; i < n; ++i)
    want[v.index({k, i})] = b[i];
  dv::Outcome oc = dv::attempt([&] {
    nd::array row = v.a(k);
    nd::sort(row);
  });
  c.saw("row", vf::mix(vf::hash_str(what), dv::hash(Val::L(b))));
  if (orderless(el) && refused(oc)) {
    c.check(all(v) == was, k_other, [&] { return what; });
    return;
  }
  if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.cls, " ", oc.msg); }))
    return;
  std::vector<Val> now = all(v);
  bool ok = true;
  for (size_t i = 0; i < now.size(); ++i)
    ok = ok && !before(el, now[i], want[i]) && !before(el, want[i], now[i]);
  c.check(ok, k_other, [&] { return vf::cat(what, " gives ", dv::show(dv::read(v.a))); });
}

static void search(Ctx &c) {
  static const char *t[] = {"int32", "string", "bool"};
  ndt::type el(t[c.rng.below(3)]);
  size_t n = gen_n(c);
  ag::View v = ag::make_view(c, el, {(intptr_t)n}, ag::gen_layout(c, false));
  fill(c, v);
  std::vector<std::pair<Val, std::string>> k;
  for (size_t i = 0; i < n; ++i)
    k.push_back({v.val({(intptr_t)i}), std::string(v.at(ivec{(intptr_t)i}), el.get_data_size())});
  std::stable_sort(k.begin(), k.end(), [&](auto &x, auto &y) { return before(el, x.first, y.first); });
  for (size_t i = 0; i < n; ++i)
    memcpy(v.at(ivec{(intptr_t)i}), k[i].second.data(), el.get_data_size()); // strings only change places
  std::vector<Val> was = all(v);
  for (int turn = 0; turn < 6; ++turn) {
    nd::array x = nd::empty(el);
    if (n && c.rng.coin()) {
      size_t i = c.rng.below(n);
      if (el.get_id() == string_id)
        *reinterpret_cast<dynd::string *>(x.data()) = *reinterpret_cast<dynd::string *>(v.at(ivec{(intptr_t)i}));
      else
        memcpy(x.data(), v.at(ivec{(intptr_t)i}), el.get_data_size());
      if (el.get_id() == int32_id && c.rng.coin())
        *reinterpret_cast<int32_t *>(x.data()) = (int32_t)((uint32_t)*reinterpret_cast<int32_t *>(x.data()) + (c.rng.coin() ? 1u : -1u));
    } else
      ag::fill_leaf(c, el, x.data(), ag::FillOpts());
    Val xv = dv::read(x);
    bool there = false;
    for (auto &y : k)
      there |= y.first == xv;
    std::string what = vf::cat("search for ", dv::show(xv), " in ", v.str(), n <= 30 ? " " + dv::show(dv::read(v.a)) : "");
    c.describe(what);
    intptr_t at = -2;
    dv::Outcome oc = dv::attempt([&] { at = nd::binary_search(v.a, x).as<intptr_t>(); });
    c.saw(there ? "search: there" : "search: absent", vf::hash_str(what));
    if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.cls, " ", oc.msg); }))
      return;
    c.check(at == -1 || (at >= 0 && at < (intptr_t)n && v.val({at}) == xv), k_found, [&] { return vf::cat(what, " gives ", at); });
    c.check(at >= 0 || !there, k_missed, [&] { return vf::cat(what, " gives ", at); });
  }
  c.check(all(v) == was, k_source, [&] { return v.str(); });
}
// a value of another type, or an element type without an order: refused, or answered by value
static void mixed(Ctx &c) {
  ndt::type el = gen_elem(c), xt = c.rng.chance(1, 3) ? el : gen_elem(c);
  if (c.rng.chance(1, 4))
    xt = ndt::type("3 * int32");
  intptr_t n = c.rng.below(8);
  nd::array a = ag::filled(c, ndt::make_fixed_dim(n, el)), x = ag::filled(c, xt);
  std::string what = vf::cat("search for ", x.get_type().str(), " ", dv::show(dv::read(x)), " in ", a.get_type().str(), " ", dv::show(dv::read(a)));
  c.describe(what);
  intptr_t at = -2;
  dv::Outcome oc = dv::attempt([&] { at = nd::binary_search(a, x).as<intptr_t>(); });
  c.saw(oc.ok ? "mixed answered" : "mixed refused", vf::hash_str(what));
  if (!oc.ok || el == xt)
    return;
  Val xv = dv::read(x), av = dv::read(a);
  auto num = [](const Val &v) { return v.k == Val::Int ? (long double)v.i : (long double)v.d; };
  bool ok = at == -1;
  if (at >= 0 && at < n) {
    const Val &y = av.kids[at];
    ok = y == xv || ((y.k == Val::Int || y.k == Val::Flt) && (xv.k == Val::Int || xv.k == Val::Flt) && num(y) == num(xv));
  }
  c.check(ok, k_quiet, [&] { return vf::cat(what, " gives ", at); });
}
// the six comparisons of two values of one type
static void compare(Ctx &c) {
  ndt::type el = gen_elem(c);
  nd::array a[3];
  Val v[3];
  ag::FillOpts fo;
  fo.small = c.rng.coin();
  fo.ascii = c.rng.coin();
  for (int i = 0; i < 3; ++i)
    a[i] = ag::filled(c, el, fo), v[i] = dv::read(a[i]);
  if (c.rng.chance(1, 3)) {
    memset(a[1].data(), 0, 0);
    dv::attempt([&] { a[1].assign(a[0]); });
    v[1] = dv::read(a[1]);
  }
  if (el.get_id() == string_id && c.rng.coin()) { // one the beginning of another
    dynd::string *s = reinterpret_cast<dynd::string *>(a[0].data());
    reinterpret_cast<dynd::string *>(a[1].data())->assign(s->begin(), c.rng.below(s->size() + 1));
    v[1] = dv::read(a[1]);
  }
  std::string what = vf::cat("order of ", el.str(), " ", dv::show(v[0]), " ", dv::show(v[1]), " ", dv::show(v[2]));
  c.describe(what);
  bool lt[3][3], eq[3][3], ok = true;
  dv::Outcome oc = dv::attempt([&] {
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) {
        lt[i][j] = (a[i] < a[j]).as<bool>();
        eq[i][j] = (a[i] == a[j]).as<bool>();
        bool le = (a[i] <= a[j]).as<bool>(), ge = (a[i] >= a[j]).as<bool>(), gt = (a[i] > a[j]).as<bool>(), ne = (a[i] != a[j]).as<bool>();
        ok = ok && lt[i][j] == before(el, v[i], v[j]) && eq[i][j] == (!before(el, v[i], v[j]) && !before(el, v[j], v[i])) && ne == !eq[i][j] && le == !before(el, v[j], v[i]) &&
             ge == !before(el, v[i], v[j]) && gt == before(el, v[j], v[i]);
      }
  });
  c.saw("compare", vf::hash_str(what));
  if (orderless(el) && refused(oc))
    return;
  if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.cls, " ", oc.msg); }))
    return;
  for (int i = 0; i < 3 && ok; ++i)
    for (int j = 0; j < 3; ++j) {
      ok = ok && (int)lt[i][j] + (int)lt[j][i] + (int)eq[i][j] == 1;
      for (int k = 0; k < 3; ++k)
        ok = ok && (!(lt[i][j] && lt[j][k]) || lt[i][k]);
    }
  c.check(ok, k_cmp, [&] { return what; });
}

// types whose order is partial (numbers with NaN) or which may have none: the elements stay the same ones, and nothing
// else is touched
static void partial(Ctx &c) {
  static const char *t[] = {"float32", "float64", "?int32", "?float64", "?bool", "(int32, int16)", "{x: int8, y: float64}", "complex[float64]", "complex[float32]", "float16",
                            "char", "type", "bytes", "fixed_bytes[4]", "?string", "fixed_string[3, 'utf16']", "int128", "2 * int32", "var * int8"};
  int which = (int)(c.rng.coin() ? c.rng.below(2) : c.rng.below(sizeof t / sizeof *t));
  ndt::type el(t[which]);
  intptr_t n = (intptr_t)gen_n(c);
  std::string what;
  std::vector<std::string> was, now;
  ag::FillOpts fo;
  fo.na = c.rng.coin();
  fo.small = c.rng.coin();
  if (which < 2) {
    ag::View v = ag::make_view(c, el, {n}, ag::gen_layout(c, false));
    fill(c, v);
    size_t some = 1 + c.rng.below(8);
    std::vector<Val> a, b;
    for (intptr_t i = 0; i < n; ++i)
      if (c.rng.chance(1, some)) {
        double x = std::nan("");
        float f = std::nanf("");
        memcpy(v.at(ivec{i}), which ? (void *)&x : (void *)&f, el.get_data_size());
      }
    what = vf::cat("sort of ", v.str(), n <= 30 ? " " + dv::show(dv::read(v.a)) : "");
    c.describe(what);
    was.reserve(n);
    for (intptr_t i = 0; i < n; ++i)
      was.push_back(std::string(v.at(ivec{i}), el.get_data_size()));
    dv::Outcome oc = dv::attempt([&] { nd::sort(v.a); });
    c.saw("unordered numbers", vf::hash_str(what));
    if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.cls, " ", oc.msg); }))
      return;
    for (intptr_t i = 0; i < n; ++i)
      now.push_back(std::string(v.at(ivec{i}), el.get_data_size()));
  } else {
    nd::array a = ag::filled(c, ndt::make_fixed_dim(n, el), fo);
    Val x = dv::read(a);
    what = vf::cat("sort of ", a.get_type().str(), n <= 30 ? " " + dv::show(x) : "");
    c.describe(what);
    for (const Val &y : x.kids)
      was.push_back(dv::show(y));
    dv::Outcome oc = dv::attempt([&] { nd::sort(a); });
    c.saw(oc.ok ? "other type sorted" : "other type refused", vf::mix(vf::hash_str(t[which]), dv::hash(x)));
    x = dv::read(a);
    for (const Val &y : x.kids)
      now.push_back(dv::show(y));
    if (!oc.ok) {
      c.check(was == now, k_other, [&] { return vf::cat(what, ": ", oc.msg, " ", dv::show(x)); });
      return;
    }
  }
  std::sort(was.begin(), was.end());
  std::sort(now.begin(), now.end());
  c.check(was == now, k_elems, [&] { return what; });
}

// nd::total_order says for every pair of elements whether the first comes before the second
static void total(Ctx &c) {
  static const char *tps[] = {"bool", "int32", "string"};
  ndt::type el(tps[c.rng.below(3)]);
  ivec sh = ag::gen_shape(c, 2, 5);
  ag::View v = ag::make_view(c, el, sh, ag::gen_layout(c, true)), w = ag::make_view(c, el, sh, ag::gen_layout(c, true));
  fill(c, v);
  fill(c, w);
  if (v.count && w.count) // some the same on both sides
    for (size_t i = 0; i < w.count; ++i)
      if (c.rng.chance(1, 3)) {
        char *from = v.at((intptr_t)c.rng.below(v.count)), *to = w.at((intptr_t)i);
        if (el.get_id() == string_id)
          *reinterpret_cast<dynd::string *>(to) = *reinterpret_cast<dynd::string *>(from);
        else
          memcpy(to, from, el.get_data_size());
      }
  ag::each(sh, [&](const ivec &ix) {
    Val x = v.val(ix), y = w.val(ix);
    nd::array a = v.a, b = w.a;
    for (intptr_t i : ix)
      a = a(i), b = b(i);
    std::string what = vf::cat("nd::total_order of ", dv::show(x), " and ", dv::show(y), " of ", el.str());
    c.describe(what);
    c.saw("total order", vf::mix(dv::hash(x), dv::hash(y)));
    for (int turn = 0; turn < 2; ++turn) {
      nd::array r;
      dv::Outcome oc = dv::attempt([&] { r = turn ? nd::total_order(b, a) : nd::total_order(a, b); });
      if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.cls, " ", oc.msg); }))
        return;
      bool want = turn ? before(el, y, x) : before(el, x, y);
      c.check(dv::show(dv::read(r)) == dv::show(Val::I(want)), k_cmp, [&] { return vf::cat(what, turn ? " the other way round" : "", " gives ", dv::show(dv::read(r))); });
    }
  });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "F03",
                 "arrays of fifteen element types, up to 2000 long, any stride and sign, few or many distinct values, ready-made orders; searches for values there, next to them and "
                 "absent; all six comparisons on triples",
                 {{"sorted", 12000, 400000, sorted}, {"part", 5000, 120000, part}, {"search", 6000, 200000, search}, {"mixed", 4000, 100000, mixed}, {"partial", 8000, 200000, partial}, {"compare", 8000, 200000, compare}, {"total", 3000, 80000, total}});
}
