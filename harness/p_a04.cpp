// A04: lifetime of memory. Random histories of making, viewing, copying, moving, writing, failing and dropping arrays,
// types and callables; every live handle is compared with what it held, every object counted, and the heap balance taken.
#include "arrgen.hpp"
#include "typegen.hpp"
#include <algorithm>
#include <dynd/arithmetic.hpp>
#include <dynd/callable.hpp>
#include <dynd/functional.hpp>
#include <dynd/io.hpp>
#include <dynd/json_formatter.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/memblock/external_memory_block.hpp>
#include <dynd/string.hpp>
#include <dynd/view.hpp>
using namespace dynd;
using dv::Val;
using vf::Ctx;

static const char *k_stale = "data held through a live array changed when other objects were dropped or written";
static const char *k_leak = "memory is not given back when the last reference is dropped";
static const char *k_early = "memory held through a live view was given back";
static const char *k_twice = "an owner was released more or less often than once";
static const char *k_type = "a type held changed when other types were dropped";
static const char *k_call = "a callable held stopped giving its result, or its parts were not released exactly once";

struct Item {
  nd::array a;
  Val want;
  int group;
};
struct Pool {
  std::vector<Item> v;
  int groups = 0;
  std::string log;
  bool judge = true;
};
static Val look(const nd::array &a) { return a.is_null() ? Val() : dv::read(a); }
static size_t extent(const Val &v) {
  size_t n = 1 + v.s.size() / 16;
  for (const Val &x : v.kids)
    n += extent(x);
  return n;
}
static void keep(Pool &p, const nd::array &a, int group) {
  if (a.is_null())
    return;
  Val v = look(a);
  if (extent(v) < 4000)
    p.v.push_back({a, v, group});
}
static bool big(const Val &v) { // values that arithmetic could take over the edge
  if (v.k == Val::Int)
    return v.i > 1000000 || v.i < -1000000;
  for (const Val &x : v.kids)
    if (big(x))
      return true;
  return false;
}
static bool writable(const nd::array &a) { return (a.get_flags() & nd::write_access_flag) != 0; }

static ndt::type elem_type(Ctx &c) {
  ag::TypeOpts o;
  o.max_ndim = 3;
  if (c.rng.chance(1, 3)) {
    static const char *some[] = {"string", "3 * string", "var * string", "{a: string, b: var * int32}", "var * var * int16", "2 * {x: int32, y: bytes}", "var * {s: string, v: var * string}",
                                 "type", "3 * type", "(type, string)", "var * type", "?string", "2 * var * ?string", "{n: {t: type, s: string}, m: 3 * bytes}"};
    return ndt::type(std::string(some[c.rng.below(14)]));
  }
  return ndt::type(ag::gen_type(c, o));
}
static nd::array fresh(Ctx &c) {
  ag::FillOpts fo;
  fo.null_var = c.rng.chance(1, 8);
  fo.small = true;
  return ag::filled(c, elem_type(c), fo);
}
static irange rnd_range(Ctx &c) {
  switch (c.rng.below(5)) {
  case 0: return irange();
  case 1: return irange().by(c.rng.coin() ? -1 : 2);
  case 2: return irange((intptr_t)c.rng.below(2), (intptr_t)(2 + c.rng.below(3)));
  case 3: return irange((intptr_t)c.rng.range(-2, 3));
  default: return irange(0);
  }
}
// one step of the history
static void step(Ctx &c, Pool &p) {
  ag::FillOpts sm;
  sm.small = true;
  static const char *names[] = {"make", "copy", "move", "view", "field", "axes", "fresh copy", "write", "write part", "drop", "drop", "call", "json", "fail", "self", "same type", "record", "overwrite handle", "grow", "iterate"};
  int op = (int)c.rng.below(20);
  if (p.v.empty() || (p.v.size() < 3 && c.rng.chance(1, 3)))
    op = 0;
  if (p.v.size() > 14 && c.rng.coin())
    op = 9;
  p.log += vf::cat(" ", names[op]);
  size_t i = p.v.empty() ? 0 : c.rng.below(p.v.size());
  nd::array out;
  int group = p.v.empty() ? 0 : p.v[i].group;
  bool wrote = false;
  if (!p.v.empty() && (op == 11 || op == 16) && extent(p.v[i].want) > 300)
    return; // keeps what a history doubles over and over small
  auto run = [&](const std::function<void()> &f) {
    dv::Outcome oc = dv::attempt(f);
    if (!oc.ok)
      p.log += "!";
    return oc.ok;
  };
  switch (op) {
  case 0: keep(p, fresh(c), ++p.groups); return;
  case 1: keep(p, p.v[i].a, group); return;
  case 2: {
    nd::array m(std::move(p.v[i].a));
    p.v[i].a = std::move(m);
    return;
  }
  case 3: { // index with numbers and ranges
    int n = (int)c.rng.below(std::min<intptr_t>(p.v[i].a.get_ndim(), 3) + 1);
    irange ix[3] = {rnd_range(c), rnd_range(c), rnd_range(c)};
    run([&] { out = p.v[i].a.at_array(n, ix, c.rng.coin()); });
    break;
  }
  case 4: {
    const ndt::type dt = p.v[i].a.get_dtype();
    if (dt.get_id() == struct_id && dt.extended<ndt::struct_type>()->get_field_count()) {
      std::string f = dt.extended<ndt::struct_type>()->get_field_name(c.rng.below(dt.extended<ndt::struct_type>()->get_field_count()));
      run([&] { out = p.v[i].a.p(f); });
    }
    break;
  }
  case 5: {
    int how = (int)c.rng.below(5);
    run([&] {
      const nd::array &a = p.v[i].a;
      if (how == 0)
        out = a.transpose();
      else if (how == 1)
        out = a.rotate(a.get_ndim() - 1, 0);
      else if (how == 2)
        out = a.new_axis((intptr_t)c.rng.below(a.get_ndim() + 1));
      else if (how == 3)
        out = nd::view(a, a.get_type());
      else
        out = a.eval();
    });
    break;
  }
  case 6:
    group = ++p.groups;
    run([&] { out = p.v[i].a.eval_copy(c.rng.coin() ? (uint32_t)nd::default_access_flags : (uint32_t)(nd::read_access_flag | nd::immutable_access_flag)); });
    break;
  case 7: { // write the whole of a handle
    if (!writable(p.v[i].a))
      return;
    size_t j = c.rng.below(p.v.size());
    nd::array x;
    if (c.rng.coin()) {
      run([&] { x = nd::empty(p.v[i].a.get_type()); });
      if (x.is_null())
        return;
      ag::fill(c, x.get_type(), x.get()->metadata(), x.data(), sm);
    } else
      x = p.v[j].a;
    if (x.cdata() == p.v[i].a.cdata() || (j != i && p.v[j].group == group))
      return; // overlapping source and destination are not specified
    run([&] { p.v[i].a.assign(x); });
    wrote = true;
    break;
  }
  case 8: { // write an element
    nd::array e;
    run([&] { e = p.v[i].a(irange(0)); });
    if (e.is_null() || !writable(e))
      return;
    nd::array x;
    run([&] { x = nd::empty(e.get_type()); });
    if (x.is_null())
      return;
    ag::fill(c, x.get_type(), x.get()->metadata(), x.data(), sm);
    run([&] { e.assign(x); });
    wrote = true;
    break;
  }
  case 9: case 10: p.v.erase(p.v.begin() + i); return;
  case 11: {
    group = ++p.groups;
    size_t j = c.rng.below(p.v.size());
    int how = (int)c.rng.below(6);
    if (how < 3 && (big(p.v[i].want) || big(p.v[j].want)))
      return;
    run([&] {
      const nd::array &a = p.v[i].a, &b = p.v[j].a;
      switch (how) {
      case 0: out = a + a; break;
      case 1: out = a + b; break;
      case 2: out = nd::sum(a); break;
      case 3: out = nd::string_concatenation(a, a); break;
      case 4: out = nd::concatenate(a, b); break;
      default: out = a == b;
      }
    });
    break;
  }
  case 12: {
    group = ++p.groups;
    std::string s;
    run([&] {
      nd::array t = format_json(p.v[i].a);
      s = std::string(t.as<std::string>());
    });
    if (s.empty())
      return;
    if (c.rng.chance(1, 3))
      s.resize(c.rng.below(s.size())); // cut off: refused on the way
    run([&] { out = parse_json(p.v[i].a.get_type(), s.data(), s.data() + s.size(), &eval::default_eval_context); });
    break;
  }
  case 13: { // calls that end in an exception
    const nd::array &a = p.v[i].a;
    nd::array bad;
    int how = (int)c.rng.below(8);
    run([&] {
      switch (how) {
      case 0: bad = a(irange(1000)); break;
      case 1: bad = a.p("no such field"); break;
      case 2: bad = nd::empty(ndt::make_fixed_dim(3, a.get_type())); bad.assign(nd::array("text")); break;
      case 3: bad = nd::sum(nd::array("text")); break;
      case 4: bad = nd::empty(ndt::type("3 * {a: string, b: int32}")); bad.assign(a); break;
      case 5: bad = parse_json(ndt::type("var * {a: string, v: var * string}"), "[{\"a\": \"a long enough text\", \"v\": [\"x\", \"another long enough text\", 5"); break;
      case 6: bad = nd::sum(a, a, a); break;
      default: { // conversion fails half-way
        nd::array s = parse_json(ndt::type("4 * string"), "[\"1\", \"2\", \"a longer text than fits inside\", \"4\"]");
        bad = nd::empty(ndt::type("4 * int32"));
        bad.assign(s);
      }
      }
    });
    return;
  }
  case 14: {
    nd::array &a = p.v[i].a;
    nd::array &b = a;
    a = b;
    return;
  }
  case 15: {
    group = ++p.groups;
    run([&] { out = nd::empty_like(p.v[i].a); });
    if (!out.is_null()) {
      ag::fill(c, out.get_type(), out.get()->metadata(), out.data(), sm);
    }
    break;
  }
  case 16: {
    group = ++p.groups;
    size_t j = c.rng.below(p.v.size());
    run([&] {
      if (c.rng.coin())
        out = nd::as_struct({{"x", p.v[i].a}, {"y", p.v[j].a}});
      else {
        nd::array f[2] = {p.v[i].a, p.v[j].a};
        out = nd::tuple(2, f);
      }
    });
    break;
  }
  case 17: {
    size_t j = c.rng.below(p.v.size());
    p.v[i] = Item(p.v[j]);
    return;
  }
  case 18: { // elements of variable dimensions given new sizes
    if (!writable(p.v[i].a) || p.v[i].a.get_type().get_id() != var_dim_id)
      return;
    nd::array x;
    run([&] { x = nd::empty(p.v[i].a.get_type()); });
    if (x.is_null())
      return;
    ag::FillOpts fo;
    size_t vars = 0;
    const std::string text = x.get_type().str();
    for (size_t at = text.find("var"); at != std::string::npos; at = text.find("var", at + 1))
      ++vars;
    fo.max_var = vars == 1 ? 400 : vars == 2 ? 12 : 4;
    fo.small = true;
    ag::fill(c, x.get_type(), x.get()->metadata(), x.data(), fo);
    group = ++p.groups;
    out = x;
    run([&] {
      nd::array y = nd::empty(x.get_type());
      y.assign(x);
      out = y;
    });
    break;
  }
  default: { // hold elements longer than the whole
    intptr_t n = 0;
    run([&] { n = p.v[i].a.get_dim_size(); });
    for (intptr_t k = 0; k < n && k < 3; ++k)
      run([&] { keep(p, p.v[i].a(irange(k)), group); });
    if (c.rng.coin() && p.v.size() > 4)
      p.v.erase(p.v.begin() + i);
    return;
  }
  }
  if (wrote) {
    for (Item &x : p.v)
      if (x.group == group)
        x.want = look(x.a);
    return;
  }
  if (!out.is_null())
    keep(p, out, group);
}
static void history(Ctx &c) {
  auto saved = c.rng;
  size_t bal[3] = {0, 0, 0};
  std::string log;
  size_t most = 0;
  for (int turn = 0; turn < 3; ++turn) { // the first may fill caches
    c.rng = saved;
    size_t h0 = vf::heap_bytes();
    {
      Pool p;
      int n = 12 + (int)c.rng.below(40);
      for (int k = 0; k < n; ++k) {
        step(c, p);
        most = std::max(most, p.v.size());
        if (turn == 0) {
          c.describe("history:" + p.log);
          for (Item &x : p.v)
            if (!c.check(look(x.a) == x.want, k_stale, [&] { return vf::cat("history:", p.log, " leaves ", x.a.get_type().str(), " as ", dv::show(look(x.a)), " instead of ", dv::show(x.want)); }))
              return;
        }
      }
      if (turn == 0)
        log = p.log;
      while (!p.v.empty()) {
        p.v.erase(p.v.begin() + c.rng.below(p.v.size()));
        if (turn == 0)
          for (Item &x : p.v)
            if (!c.check(look(x.a) == x.want, k_stale, [&] { return vf::cat("history:", p.log, " then dropping leaves ", x.a.get_type().str(), " as ", dv::show(look(x.a)), " instead of ", dv::show(x.want)); }))
              return;
      }
    }
    bal[turn] = vf::heap_bytes() - h0;
  }
  c.saw("history", vf::hash_str(log));
  c.saw("most handles alive", most);
  // something the library holds on to is filled once; what leaks, leaks each time
  c.check(bal[1] == 0 || bal[2] == 0, k_leak, [&] { return vf::cat("history:", log, " leaves ", (long)bal[1], " then ", (long)bal[2], " bytes"); });
  if (c.idx < 2)
    c.sample("history:" + log);
}

// ---------------------------------------------------------------- memory owned by somebody else
static int g_freed;
static char *g_mem;
static size_t g_size;
static void give_back(void *o) {
  ++g_freed;
  if (o == g_mem)
    memset(g_mem, 0xdd, g_size);
}
static void external(Ctx &c) {
  ag::TypeOpts o;
  o.var = o.strings = false;
  ndt::type tp(ag::gen_type(c, o));
  size_t size = tp.get_default_data_size();
  std::unique_ptr<char[]> mem(new char[size + 64]);
  char *at = (char *)(((uintptr_t)mem.get() + 63) & ~(uintptr_t)63);
  g_freed = 0, g_mem = at, g_size = size;
  c.describe(vf::cat("array of ", tp.str(), " in memory of another owner"));
  std::vector<nd::array> v;
  Val want;
  {
    nd::memory_block owner(new nd::external_memory_block(at, give_back), false);
    nd::array a = nd::make_array(tp, at, owner, nd::readwrite_access_flags);
    if (tp.get_arrmeta_size() > 0)
      tp.extended()->arrmeta_default_construct(const_cast<char *>(a.get()->metadata()), true);
    memset(at, 0, size);
    ag::fill(c, tp, a.get()->metadata(), at);
    want = dv::read(a);
    v.push_back(a);
  }
  std::vector<Val> wants = {want};
  int n = (int)c.rng.below(12);
  for (int k = 0; k < n; ++k) {
    size_t i = c.rng.below(v.size());
    nd::array x;
    dv::attempt([&] {
      switch (c.rng.below(5)) {
      case 0: x = v[i]; break;
      case 1: x = v[i](irange()); break;
      case 2: x = v[i](irange(0)); break;
      case 3: x = v[i].transpose(); break;
      default: x = nd::view(v[i], v[i].get_type());
      }
    });
    if (!x.is_null())
      v.push_back(x), wants.push_back(dv::read(x));
  }
  c.saw("external", vf::hash_str(c.current));
  c.saw("views of external memory", v.size());
  while (!v.empty()) {
    c.check(g_freed == 0, k_early, [&] { return vf::cat(tp.str(), " with ", v.size(), " views left"); });
    for (size_t i = 0; i < v.size(); ++i)
      if (!c.check(dv::read(v[i]) == wants[i], k_early, [&] { return vf::cat(tp.str(), " with ", v.size(), " views left: ", dv::show(dv::read(v[i]))); }))
        return;
    size_t i = c.rng.below(v.size());
    v.erase(v.begin() + i), wants.erase(wants.begin() + i);
  }
  c.check(g_freed == 1, k_twice, [&] { return vf::cat(tp.str(), ": released ", g_freed, " times"); });
}

// ---------------------------------------------------------------- types
static void parts(const ndt::type &t, std::vector<ndt::type> &out) {
  switch (t.get_id()) {
  case fixed_dim_id: case var_dim_id: out.push_back(t.extended<ndt::base_dim_type>()->get_element_type()); break;
  case option_id: out.push_back(t.extended<ndt::option_type>()->get_value_type()); break;
  case tuple_id:
    for (const ndt::type &x : t.extended<ndt::tuple_type>()->get_field_types())
      out.push_back(x);
    break;
  case struct_id:
    for (const ndt::type &x : t.extended<ndt::struct_type>()->get_field_types())
      out.push_back(x);
    break;
  case callable_id:
    out.push_back(t.extended<ndt::callable_type>()->get_return_type());
    for (const ndt::type &x : t.extended<ndt::callable_type>()->get_argument_types())
      out.push_back(x);
    break;
  default: break;
  }
}
static void types(Ctx &c) {
  auto saved = c.rng;
  size_t bal[3];
  for (int turn = 0; turn < 3; ++turn) {
    c.rng = saved;
    size_t h0 = vf::heap_bytes();
    {
      std::vector<std::pair<ndt::type, std::string>> v;
      tg::GenOpts go;
      int n = 10 + (int)c.rng.below(30);
      for (int k = 0; k < n; ++k) {
        size_t i = v.empty() ? 0 : c.rng.below(v.size());
        ndt::type x;
        switch (v.empty() ? 0 : c.rng.below(10)) {
        case 0: x = ndt::type(tg::spell(tg::gen(c.rng, 3, go), c.rng, 0)); break;
        case 1: x = v[i].first; break;
        case 2: {
          std::vector<ndt::type> p;
          parts(v[i].first, p);
          if (!p.empty())
            x = p[c.rng.below(p.size())];
          break;
        }
        case 3: dv::attempt([&] { x = v[i].first.get_canonical_type(); }); break;
        case 4: dv::attempt([&] { x = ndt::make_fixed_dim(1 + c.rng.below(4), v[i].first); }); break;
        case 5: dv::attempt([&] { x = ndt::make_type<ndt::option_type>(v[i].first); }); break;
        case 6: dv::attempt([&] { x = ndt::make_type<ndt::tuple_type>({v[i].first, v[c.rng.below(v.size())].first}); }); break;
        case 7: dv::attempt([&] { ndt::type(v[i].second + " * "); }); break; // refused
        case 8: {
          std::map<std::string, ndt::type> tv;
          dv::attempt([&] { (void)v[i].first.match(v[c.rng.below(v.size())].first, tv); });
          break;
        }
        default: v.erase(v.begin() + i);
        }
        if (!x.is_null() && x.get_id() != uninitialized_id)
          v.push_back({x, x.str()});
      }
      std::string all;
      for (auto &x : v)
        all += "; " + x.second;
      if (turn == 0)
        c.describe("types" + all), c.saw("types", vf::hash_str(all));
      while (!v.empty()) {
        v.erase(v.begin() + c.rng.below(v.size()));
        if (turn == 0)
          for (auto &x : v)
            if (!c.check(x.first.str() == x.second, k_type, [&] { return vf::cat(x.second, " became ", x.first.str()); }))
              return;
      }
    }
    bal[turn] = vf::heap_bytes() - h0;
  }
  c.check(bal[1] == 0 || bal[2] == 0, k_leak, [&] { return vf::cat(c.current, " leaves ", (long)bal[1], " then ", (long)bal[2], " bytes"); });
}

// ---------------------------------------------------------------- callables
struct Token {
  std::shared_ptr<int> live;
  int k;
  int operator()(int a, int b) const { return a * k + b; }
};
struct Token1 {
  std::shared_ptr<int> live;
  int k;
  int operator()(int a) const {
    if (a == 7777777)
      throw std::runtime_error("seventy-seven");
    return a + k;
  }
};
static void callables(Ctx &c) {
  auto live = std::make_shared<int>(0);
  struct H {
    nd::callable f;
    std::function<int(int, int)> ref;
    bool lifted; int kind; // 0: two ints, 1: one int, 2: three ints summed by the second argument...
  };
  size_t bal[3];
  auto saved = c.rng;
  for (int turn = 0; turn < 3; ++turn) {
    c.rng = saved;
    size_t h0 = vf::heap_bytes();
    {
      std::vector<H> v;
      std::string log;
      int n = 6 + (int)c.rng.below(16);
      for (int k = 0; k < n; ++k) {
        size_t i = v.empty() ? 0 : c.rng.below(v.size());
        int kk = (int)c.rng.range(-9, 9);
        switch (v.empty() ? c.rng.below(2) : c.rng.below(9)) {
        case 0:
          log += " make2";
          v.push_back({nd::functional::apply(Token{live, kk}), [kk](int a, int b) { return a * kk + b; }, false, 0});
          break;
        case 1:
          log += " make1";
          v.push_back({nd::functional::apply(Token1{live, kk}), [kk](int a, int) { return a + kk; }, false, 1});
          break;
        case 2:
          log += " copy";
          v.push_back(H(v[i]));
          break;
        case 3: {
          log += " elwise";
          H h = v[i];
          h.lifted = true;
          dv::Outcome oc = dv::attempt([&] { h.f = nd::functional::elwise(v[i].f); });
          if (oc.ok)
            v.push_back(h);
          break;
        }
        case 4: {
          log += " compose";
          size_t j = c.rng.below(v.size());
          if (v[i].kind != 1 || v[j].kind != 1 || v[i].lifted || v[j].lifted)
            break;
          H h;
          auto f = v[i].ref, g = v[j].ref;
          h.lifted = false, h.kind = 1, h.ref = [f, g](int a, int b) { return g(f(a, b), 0); };
          dv::Outcome oc = dv::attempt([&] { h.f = nd::functional::compose(v[i].f, v[j].f, ndt::make_type<int>()); });
          if (oc.ok)
            v.push_back(h);
          break;
        }
        case 5: { // as an array element
          log += " array";
          dv::attempt([&] {
            nd::array a = nd::empty(v[i].f->get_type());
            (void)a;
          });
          break;
        }
        case 6: // calls that fail
          log += " fail";
          dv::attempt([&] { (void)v[i].f(nd::array("x"), nd::array("y"), nd::array(1)); });
          dv::attempt([&] { (void)v[i].f(nd::array(7777777)); });
          dv::attempt([&] { (void)v[i].f(nd::array(1), nd::array("text")); });
          break;
        case 7: {
          log += " move";
          nd::callable m(std::move(v[i].f));
          v[i].f = std::move(m);
          break;
        }
        default:
          log += " drop";
          v.erase(v.begin() + i);
        }
        if (turn == 0)
          c.describe("callables:" + log);
        for (H &h : v) {
          int a = (int)c.rng.range(-20, 20), b = (int)c.rng.range(-20, 20), got = 0;
          dv::Outcome oc = dv::attempt([&] { got = (h.kind == 1 ? h.f(nd::array(a)) : h.f(nd::array(a), nd::array(b))).as<int>(); });
          if (turn == 0 && !c.check(oc.ok && got == h.ref(a, b), k_call, [&] { return vf::cat("callables:", log, ": kind ", h.kind, " of ", a, ", ", b, " gives ", oc.ok ? vf::cat(got) : oc.msg); }))
            return;
        }
      }
      if (turn == 0)
        c.saw("callables", vf::hash_str(log));
      while (!v.empty())
        v.erase(v.begin() + c.rng.below(v.size()));
      if (turn == 0)
        c.check(live.use_count() == 1, k_call, [&] { return vf::cat("callables:", log, " leaves ", live.use_count() - 1, " copies of what they captured"); });
    }
    bal[turn] = vf::heap_bytes() - h0;
  }
  c.check(bal[1] == 0 || bal[2] == 0, k_leak, [&] { return vf::cat(c.current, " leaves ", (long)bal[1], " then ", (long)bal[2], " bytes"); });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "A04",
                 "histories of 12 to 50 operations (make, view, copy, move, write, fail, drop in any order) on arrays of strings, bytes, types, variable dimensions and records; the same for "
                 "types and callables; views of memory with its own release function",
                 {{"history", 3500, 120000, history}, {"external", 5000, 200000, external}, {"types", 2500, 80000, types}, {"callables", 2000, 60000, callables}});
}
