// J01: arrays formatted as JSON and read back, and JSON text in many spellings read into arrays, against a strict JSON
// reader and the meaning of its values.
#include "jsonref.hpp"
#include <dynd/callable.hpp>
#include <dynd/eval/eval_context.hpp>
#include <dynd/json_formatter.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/parse.hpp>
using namespace dynd;
using dv::Val;
using vf::Ctx;

static const char *k_valid = "formatted text is not valid JSON";
static const char *k_text = "formatted text does not say what the array holds";
static const char *k_back = "formatted text parsed back with the array's type does not give equal data";
static const char *k_parse = "JSON text that fits the type does not give the values in the text";
static const char *k_throw = "formatting an array, or parsing JSON text that fits the type, throws";

static std::string format(const nd::array &a, bool list) { return format_json(a, list).as<std::string>(); }

static bool has_tuple(const ndt::type &tp) {
  switch (tp.get_id()) {
  case tuple_id: return true;
  case fixed_dim_id:
  case var_dim_id: return has_tuple(tp.extended<ndt::base_dim_type>()->get_element_type());
  case struct_id:
    for (const ndt::type &t : tp.extended<ndt::struct_type>()->get_field_types())
      if (has_tuple(t))
        return true;
  default: return false;
  }
}

static nd::array parse_path(Ctx &c, const ndt::type &tp, const std::string &s, std::string &how) {
  switch (c.rng.below(6)) {
  case 0: {
    how = "parse_json into an array";
    nd::array a = nd::empty(tp);
    parse_json(a, s, &eval::default_eval_context);
    return a;
  }
  case 1: {
    how = "parse_json of a range";
    std::unique_ptr<char[]> b(new char[s.size()]);
    memcpy(b.get(), s.data(), s.size());
    return parse_json(tp, b.get(), b.get() + s.size(), &eval::default_eval_context);
  }
  case 2: how = "parse_json of a string array"; return parse_json(tp, nd::array(s), &eval::default_eval_context);
  case 3: {
    if (s.size() > 4000)
      break;
    how = "parse_json of a fixed_string array";
    if (s.find('\0') != std::string::npos)
      break;
    nd::array f = nd::empty(ndt::make_type<ndt::fixed_string_type>(s.size() + 1, string_encoding_utf_8));
    memset(f.data(), 0, s.size() + 1);
    memcpy(f.data(), s.data(), s.size());
    return parse_json(tp, f, &eval::default_eval_context);
  }
  case 4: {
    how = "parse_json of a bytes array";
    nd::array b = nd::empty(ndt::type("bytes"));
    reinterpret_cast<dynd::bytes *>(b.data())->assign(s.data(), s.size());
    return parse_json(tp, b, &eval::default_eval_context);
  }
  default: break;
  }
  how = "parse_json";
  return parse_json(tp, s, &eval::default_eval_context);
}

static void roundtrip(Ctx &c) {
  ndt::type tp = js::gen_type(c, false);
  // the elements of a variable dimension may start at an offset
  int inner = c.rng.chance(1, 6) ? 1 + c.rng.below(3) : 0;
  if (inner) {
    intptr_t k = 1 + c.rng.below(4);
    if (inner == 1)
      tp = ndt::make_fixed_dim(k, tp);
    else
      tp = ndt::make_type<ndt::struct_type>({{ndt::type("int8"), "a"}, {tp, "b"}, {ndt::type("int32"), "c"}});
    tp = ndt::make_type<ndt::var_dim_type>(tp);
    if (inner == 3)
      tp = ndt::make_fixed_dim(2, tp);
  }
  nd::array a = ag::filled(c, tp);
  bool special = c.rng.chance(1, 8);
  js::widen(c, a, special);
  if (tp.get_id() == fixed_dim_id && c.rng.chance(1, 3))
    a = a(irange().by(c.rng.coin() ? 2 : -1));
  if (inner == 1)
    a = a(irange(), (intptr_t)c.rng.below(tp.extended<ndt::base_dim_type>()->get_element_type().extended<ndt::fixed_dim_type>()->get_fixed_dim_size()));
  else if (inner)
    a = a.p("b");
  Val v = dv::read(a);
  bool list = c.rng.chance(1, 4);
  std::string what = vf::cat("format_json of ", a.get_type().str(), " ", dv::show(v), list ? " with structs as lists" : ""), s;
  c.describe(what);
  dv::Outcome oc = dv::attempt([&] { s = format(a, list); });
  c.saw(vf::cat("format ", list ? "lists " : "objects ", v.k == Val::Seq ? "nested" : "scalar").c_str(), vf::hash_str(s));
  if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.cls, " ", oc.msg); }))
    return;
  js::J j;
  if (!c.check(js::parse(s, j), k_valid, [&] { return vf::cat(what, " gives ", s); }))
    return;
  js::Meaning m = js::meaning(j, a.get_type());
  c.check(m.f != js::No && m.f != js::Any && m.v == v, k_text, [&] { return vf::cat(what, " gives ", s); });
  std::string how;
  Val b;
  oc = dv::attempt([&] { b = dv::read(parse_path(c, a.get_type().get_canonical_type(), s, how)); });
  c.check(oc.ok && b == v, k_back, [&] { return vf::cat(what, " gives ", s, ", read by ", how, ": ", oc.ok ? dv::show(b) : oc.cls + " " + oc.msg); });
  if (c.idx < 3)
    c.sample(what + ": " + s.substr(0, 200));
}

static void spelled(Ctx &c) {
  ndt::type tp = js::gen_type(c, true);
  nd::array a = ag::filled(c, tp);
  js::widen(c, a, c.rng.chance(1, 10));
  Val v = dv::read(a);
  std::string s = js::ws(c) + js::spell(c, tp, a.get()->metadata(), a.cdata()) + js::ws(c);
  std::string what = vf::cat("JSON ", s, " as ", tp.str());
  c.describe(what);
  js::J j;
  js::Meaning m;
  if (!js::parse(s, j) || (m = js::meaning(j, tp)).f == js::No || m.f == js::Any || m.v != v) {
    vf::Ctx *p = &c; // the harness contradicts itself
    p->violation("harness", vf::cat(what, " for ", dv::show(v), " fit ", (int)m.f, " ", dv::show(m.v)));
    return;
  }
  std::string how;
  Val b;
  dv::Outcome oc = dv::attempt([&] { b = dv::read(parse_path(c, tp, s, how)); });
  c.saw(how.empty() ? "parse" : how.c_str(), vf::hash_str(s));
  if (!c.check(oc.ok || m.f == js::May, k_throw, [&] { return vf::cat(how, " of ", what, ": ", oc.cls, " ", oc.msg); }) || !oc.ok)
    return;
  c.check(b == v, k_parse, [&] { return vf::cat(how, " of ", what, " gives ", dv::show(b)); });
}

// an array that already holds something, or an element of a larger one
static void into(Ctx &c) {
  ndt::type tp = js::gen_type(c, true);
  intptr_t n = 1 + c.rng.below(4), k = c.rng.below(n);
  nd::array all = ag::filled(c, ndt::make_fixed_dim(n, tp));
  nd::array src = ag::filled(c, tp);
  js::widen(c, src, false);
  Val want = dv::read(src), before = dv::read(all);
  std::string s = js::spell(c, tp, src.get()->metadata(), src.cdata());
  std::string what = vf::cat("JSON ", s, " into element ", k, " of ", all.get_type().str());
  c.describe(what);
  js::J j;
  if (!js::parse(s, j) || js::meaning(j, tp).f != js::Yes)
    return;
  dv::Outcome oc = dv::attempt([&] {
    nd::array e = all(k);
    parse_json(e, s, &eval::default_eval_context);
  });
  c.saw("into an element", vf::hash_str(what));
  if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.cls, " ", oc.msg); }))
    return;
  before.kids[k] = want;
  Val got = dv::read(all);
  c.check(got == before, k_parse, [&] { return vf::cat(what, " gives ", dv::show(got), " instead of ", dv::show(before)); });
}

// the second parser of the library
static void parse2(Ctx &c) {
  static const char *tn[] = {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "string", "?int32", "?int64", "?int8", "?bool"};
  ndt::type tp(tn[c.rng.below(14)]);
  nd::array a = ag::filled(c, tp);
  js::widen(c, a, false);
  Val v = dv::read(a);
  std::string s = js::ws(c) + js::spell(c, tp, a.get()->metadata(), a.cdata()) + js::ws(c);
  std::string what = vf::cat("nd::json::parse of ", s, " as ", tp.str());
  c.describe(what);
  Val b;
  dv::Outcome oc = dv::attempt([&] { b = dv::read(nd::json::parse(tp, s)); });
  c.saw("nd::json::parse", vf::hash_str(what));
  if (!c.check(oc.ok, k_throw, [&] { return vf::cat(what, ": ", oc.cls, " ", oc.msg); }))
    return;
  c.check(b == v, k_parse, [&] { return vf::cat(what, " gives ", dv::show(b)); });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "J01",
                 "arrays of nested types with any Unicode and numbers at their limits, formatted, checked with a strict JSON reader and parsed back; their values in random spellings "
                 "(escapes, exponents, white space, field order, extra and omitted fields) parsed on six paths",
                 {{"roundtrip", 24000, 900000, roundtrip}, {"spelled", 30000, 1200000, spelled}, {"into", 10000, 300000, into}, {"parse2", 10000, 200000, parse2}});
}
