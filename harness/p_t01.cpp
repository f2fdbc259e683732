// T01: type text and types are inverse to each other.
#include "typegen.hpp"
using namespace dynd;
using vf::Ctx;

static std::string text(const ndt::type &t) {
  std::stringstream ss;
  ss << t;
  return ss.str();
}

static void round_trip(Ctx &c, const ndt::type &t, const std::string &how) {
  std::string s = text(t);
  ndt::type u;
  auto o = dv::attempt([&] { u = ndt::type(s); });
  if (!c.check(o.ok, "printed-text-not-parsed", [&] { return how + " prints as " + vf::quote(s) + ": " + o.msg; }))
    return;
  c.check(u == t && t == u, "print-parse-changes-type", [&] { return how + " prints as " + s + ", which parses as " + text(u); });
  c.check(!(u != t), "inequality-disagrees", [&] { return s; });
  c.check(text(u) == s, "print-not-stable", [&] { return s + " then " + text(u); });
  c.check(t.str() == s, "str-differs-from-print", [&] { return s + " vs " + t.str(); });
  c.check(u.get_id() == t.get_id() && u.get_ndim() == t.get_ndim() && u.get_data_size() == t.get_data_size() &&
              u.get_data_alignment() == t.get_data_alignment() && u.get_arrmeta_size() == t.get_arrmeta_size() &&
              u.is_symbolic() == t.is_symbolic() && u.get_flags() == t.get_flags() &&
              (t.is_symbolic() || u.get_default_data_size() == t.get_default_data_size()),
          "equal-types-differ-in-layout", [&] { return s; });
  c.saw("type-text", vf::hash_str(s));
}

static void tree(Ctx &c) {
  tg::GenOpts o;
  o.symbolic = c.rng.chance(2, 3);
  tg::P p = tg::gen(c.rng, 1 + c.rng.below(5), o);
  std::string plain = tg::spell(p, c.rng, 0), fancy = tg::spell(p, c.rng, 1);
  c.describe(fancy);
  c.sample(plain);
  ndt::type a, b, d;
  auto oa = dv::attempt([&] { a = ndt::type(plain); });
  if (!c.check(oa.ok, "valid-text-refused", [&] { return plain + ": " + oa.msg; }))
    return;
  auto ob = dv::attempt([&] { b = ndt::type(fancy); });
  if (!c.check(ob.ok, "spelling-refused", [&] { return vf::quote(fancy) + ": " + ob.msg; }))
    return;
  std::string df = tg::diff(p, a);
  c.check(df.empty(), "text-means-another-type", [&] { return plain + " parsed as " + text(a) + ": " + df; });
  c.check(a == b && b == a, "spelling-changes-type", [&] { return vf::quote(fancy) + " vs " + plain; });
  d = tg::build(p);
  c.check(a == d && d == a, "built-type-differs", [&] { return plain + " vs " + text(d); });
  df = tg::diff(p, d);
  c.check(df.empty(), "built-type-structure", [&] { return plain + ": " + df; });
  round_trip(c, a, "parsed " + plain);
  round_trip(c, d, "built " + plain);
  c.check(text(a) == text(d) && text(a) == text(b), "equal-types-print-differently", [&] { return text(a) + " vs " + text(d); });
}

static void pairs(Ctx &c) {
  tg::GenOpts o;
  o.symbolic = c.rng.chance(2, 3);
  tg::P p = tg::gen(c.rng, c.rng.below(5), o), q;
  if (c.rng.chance(3, 4)) {
    q = tg::clone(p);
    if (c.rng.chance(4, 5))
      tg::mutate(q, c.rng);
  } else
    q = tg::gen(c.rng, 1 + c.rng.below(4), o);
  std::string sp = tg::spell(p, c.rng, 1), sq = tg::spell(q, c.rng, 1);
  c.describe(sp + "  <>  " + sq);
  bool same = tg::key(p) == tg::key(q);
  ndt::type a, b;
  auto o1 = dv::attempt([&] {
    a = ndt::type(sp);
    b = ndt::type(sq);
  });
  if (!o1) { // a mutation may have made an ill-formed tree, such as an option of an option
    c.saw("pair-ill-formed", 1);
    return;
  }
  c.check((a == b) == same && (b == a) == same, same ? "same-structure-unequal" : "different-structure-equal",
          [&] { return text(a) + " and " + text(b); });
  c.check((text(a) == text(b)) == same, same ? "same-structure-different-text" : "different-structure-same-text",
          [&] { return text(a) + " and " + text(b); });
  c.check((a != b) != same, "inequality-disagrees", [&] { return text(a); });
  c.saw(same ? "equal-pair" : "unequal-pair", vf::mix(vf::hash_str(text(a)), vf::hash_str(text(b))));
}

// the library's own derived types: whatever it computes from a type must still print and parse
static void derived(Ctx &c) {
  tg::GenOpts o;
  o.symbolic = false;
  tg::P p = tg::gen(c.rng, 1 + c.rng.below(4), o);
  ndt::type t = tg::build(p);
  c.describe(text(t));
  ndt::type canon;
  // (an option of a pointer to an option has no canonical type: refusing is right)
  if (dv::attempt([&] { canon = t.get_canonical_type(); }))
    round_trip(c, canon, "canonical type of " + text(t));
  if (t.get_ndim() > 0) {
    round_trip(c, t.get_dtype(), "dtype of " + text(t));
    intptr_t k = c.rng.below(t.get_ndim() + 1);
    round_trip(c, t.get_type_at_dimension(NULL, k), "dimension of " + text(t));
    round_trip(c, t.with_replaced_dtype(ndt::type("?complex[float32]")), "replaced dtype of " + text(t));
    c.check(t.get_dtype().get_ndim() == 0, "dtype-has-dimensions", [&] { return text(t); });
    ndt::type e = t.get_type_at_dimension(NULL, k);
    c.check(e.get_ndim() == t.get_ndim() - k, "dimension-count-of-element", [&] { return text(t); });
  }
}

// -------- fixed awkward types, one per case
static const char *awkward[] = {"(...)", "{...}", "(...) -> void", "(int32, ...) -> Any", "() -> ()", "{'': int32}",
  "Fixed**N * int32", "3**N * int32", "var**N * int32", "M**N * {x: T}", "0 * 0 * void", "pointer[pointer[(...)]]",
  "(x: int32, ...) -> T", "(..., x: int32) -> T", "(int32, ..., x: ?int32, ...) -> T", "9223372036854775807 * int8",
  "{x: (a: int32) -> {...}}", "A... * B... * (T, ...)", "?(int32) -> ?float64", "T[T[T[int32]]]", "State", "{\"\\u00e9\": int8}",
  "{'\\U0001f600': int8}", "{'a\\\\': int8}"};
static void fixed_cases(Ctx &c) {
  std::string s = awkward[c.idx];
  c.describe(s);
  ndt::type t;
  auto o = dv::attempt([&] { t = ndt::type(s); });
  if (c.check(o.ok, "valid-text-refused", [&] { return s + ": " + o.msg; }))
    round_trip(c, t, s);
}

// -------- types only constructors make, whose text is known not to parse back (see known-findings.jsonl)
static void constructed(Ctx &c) {
  ndt::type t;
  switch (c.idx) {
  case 0:
    c.describe("callable_type(int32, (int32, ...), {})");
    t = ndt::make_type<ndt::callable_type>(ndt::type("int32"), ndt::type("(int32, ...)"), ndt::type("{}"));
    break;
  case 1:
    c.describe("callable_type(int32, (int32), {...})");
    t = ndt::make_type<ndt::callable_type>(ndt::type("int32"), ndt::type("(int32)"), ndt::type("{...}"));
    break;
  }
  round_trip(c, t, c.current);
}

int main(int argc, char **argv) {
  size_t nf = sizeof(awkward) / sizeof(awkward[0]);
  return vf::run(argc, argv, "T01",
                 "type trees from a grammar over every type constructor, each spelled twice (plain, and with random white "
                 "space/comments/aliases/quotes), parsed, built by constructors, printed and re-parsed; distinct = "
                 "distinct printed types and distinct compared pairs",
                 {{"tree", 6000, 400000, tree}, {"pairs", 6000, 400000, pairs}, {"derived", 2500, 100000, derived},
                  {"awkward", nf, nf, fixed_cases},
                  {"constructed", 2, 2, constructed}});
}
