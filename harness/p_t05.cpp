// T05: what is registered under a name is found under it: type constructors with their arguments, and functions.
#include "dv.hpp"
#include "vf.hpp"
#include <dynd/arithmetic.hpp>
#include <dynd/assignment.hpp>
#include <dynd/callable.hpp>
#include <dynd/comparison.hpp>
#include <dynd/functional.hpp>
#include <dynd/index.hpp>
#include <dynd/io.hpp>
#include <dynd/math.hpp>
#include <dynd/option.hpp>
#include <dynd/pointer.hpp>
#include <dynd/random.hpp>
#include <dynd/range.hpp>
#include <dynd/registry.hpp>
#include <dynd/statistics.hpp>
#include <dynd/type_registry.hpp>
#include <dynd/types/datashape_parser.hpp>
using namespace dynd;
using vf::Ctx;
using dv::Val;

// ---- type arguments ---------------------------------------------------------------------------------------------------
static std::string ws(Ctx &c) {
  switch (c.rng.below(8)) {
  case 0:
    return " ";
  case 1:
    return "\n\t";
  case 2:
    return " # a comment, with ] and [ \n ";
  default:
    return "";
  }
}
struct Arg {
  std::string text, tp;
  Val val;
};
static const char *const some_types[] = {"int32", "string", "fixed[3] * int16", "var * float64", "(int8, bool)", "{x: int32, y: ?string}",
                                         "Fixed * M", "T", "Dims... * int32", "(int32) -> void", "bytes[align=4]", "void", "complex[float32]"};
static const char *const more_types[] = {"3 * int32", "1 * var * {a: bool}", "0 * void"}; // after the first of a list
static Val type_val(const std::string &t) { return Val::S(ndt::type(t).str()); }
static int64_t an_int(Ctx &c) {
  switch (c.rng.below(6)) {
  case 0:
    return 0;
  case 1:
    return std::numeric_limits<int64_t>::max();
  case 2:
    return std::numeric_limits<int64_t>::min();
  case 3:
    return -(int64_t)c.rng.below(1000);
  default:
    return (int64_t)c.rng.below(100000);
  }
}
static void a_string(Ctx &c, std::string &text, std::string &value) {
  char q = c.rng.coin() ? '"' : '\'';
  text = std::string(1, q);
  size_t n = c.rng.below(4) ? c.rng.below(12) : c.rng.below(60);
  for (size_t i = 0; i < n; ++i) {
    switch (c.rng.below(12)) {
    case 0:
      text += "\\n";
      value += '\n';
      break;
    case 1:
      text += "\\\\";
      value += '\\';
      break;
    case 2:
      text += std::string("\\") + q;
      value += q;
      break;
    case 3:
      text += "\\u00e9";
      value += "\xc3\xa9";
      break;
    case 4: {
      char x = "[],:#*"[c.rng.below(6)];
      text += x;
      value += x;
      break;
    }
    default: {
      char x = (char)('a' + c.rng.below(26));
      text += x;
      value += x;
    }
    }
  }
  text += q;
}
static Arg one_int(Ctx &c) {
  Arg a;
  int64_t x = an_int(c);
  a.text = std::to_string(x);
  a.tp = "int64";
  a.val = Val::I(x);
  return a;
}
static Arg one_string(Ctx &c) {
  Arg a;
  std::string v;
  a_string(c, a.text, v);
  a.tp = "string";
  a.val = Val::S(v);
  return a;
}
static Arg one_type(Ctx &c, bool any) {
  Arg a;
  a.text = any && c.rng.chance(1, 3) ? more_types[c.rng.below(3)] : some_types[c.rng.below(13)];
  a.tp = "type";
  a.val = type_val(a.text);
  return a;
}
static Arg one_arg(Ctx &c) {
  switch (c.rng.below(6)) {
  case 0:
    return one_int(c);
  case 1:
    return one_string(c);
  case 2:
    return one_type(c, false);
  default: {
    int k = c.rng.below(3);
    size_t n = c.rng.chance(1, 5) ? 0 : c.rng.chance(1, 4) ? 1 : c.rng.below(9);
    Arg a;
    std::vector<Val> v;
    std::string elem = "void";
    a.text = "[" + ws(c);
    for (size_t i = 0; i < n; ++i) {
      Arg e = k == 0 ? one_int(c) : k == 1 ? one_string(c) : one_type(c, true);
      a.text += vf::cat(i ? "," + ws(c) : "", e.text, ws(c));
      v.push_back(e.val);
      elem = e.tp;
    }
    a.text += "]";
    a.tp = vf::cat(n, " * ", elem);
    a.val = Val::L(v);
    return a;
  }
  }
}
struct Args {
  std::string text, tp;
  std::vector<std::string> pos, kw; // texts
  Val val;
};
static Args make_args(Ctx &c) {
  static const char *const names[] = {"a", "bb", "size", "x1", "_y", "int32", "align", "Zed"};
  Args r;
  size_t np = c.rng.below(5), nk = c.rng.coin() ? 0 : c.rng.below(5), first = c.rng.below(8);
  std::vector<Val> p, k;
  std::string ptp, ktp;
  r.text = "[" + ws(c);
  for (size_t i = 0; i < np + nk; ++i) {
    Arg a = one_arg(c);
    std::string t;
    if (i < np) {
      t = a.text;
      r.pos.push_back(t);
      p.push_back(a.val);
      ptp += (i ? ", " : "") + a.tp;
    } else {
      std::string name = names[(first + i - np) % 8];
      t = name + ws(c) + ":" + ws(c) + a.text;
      r.kw.push_back(t);
      k.push_back(a.val);
      ktp += vf::cat(i > np ? ", " : "", name, ": ", a.tp);
    }
    r.text += vf::cat(i ? "," + ws(c) : "", t, ws(c));
  }
  r.text += "]";
  r.tp = "((" + ptp + "), {" + ktp + "})";
  r.val = Val::L({Val::L(p), Val::L(k)});
  return r;
}
static Val read(const nd::buffer &b) { return dv::read(b.get_type(), b.get()->metadata(), b.cdata()); }

static void balanced(Ctx &c, const char *what, const std::function<void()> &f) {
  size_t bal = 0;
  for (int turn = 0; turn < 3; ++turn) { // something may be made once and kept
    size_t h0 = vf::heap_bytes();
    f();
    bal = vf::heap_bytes() - h0;
    if (!bal)
      break;
  }
  c.check(bal == 0, vf::cat("leak:", what), [&] { return vf::cat((long)bal, " bytes more each time"); });
}

static void args(Ctx &c) {
  Args a = make_args(c);
  std::string text = ws(c) + a.text + ws(c);
  c.describe(text);
  nd::buffer b;
  auto o = dv::attempt([&] { b = dynd::datashape::parse_type_constr_args(text); });
  if (!c.check(o.ok, "args-refused", [&] { return vf::cat(vf::quote(text), ": ", o.msg); }))
    return;
  std::string t = b.get_type().str();
  if (t != a.tp) { // field names which need quotes are spelled otherwise
    auto eq = dv::attempt([&] { c.check(b.get_type() == ndt::type(a.tp), "args-type", [&] { return vf::cat(vf::quote(text), " is ", t, " instead of ", a.tp); }); });
    c.check(eq.ok, "args-type", [&] { return vf::cat(t, " instead of ", a.tp); });
  }
  Val got = read(b);
  c.check(got == a.val, "args-value", [&] { return vf::cat(vf::quote(text), " gives ", dv::show(got), " instead of ", dv::show(a.val)); });
  // a copy of the buffer is the same
  nd::buffer copy = b;
  b = nd::buffer();
  c.check(read(copy) == a.val, "args-value", [&] { return std::string("after the first reference went"); });
  copy = nd::buffer();
  balanced(c, "args", [&] { dynd::datashape::parse_type_constr_args(text); });
  c.saw("args", vf::mix(vf::hash_str(a.tp), dv::hash(a.val)));
}

// texts which are no list of arguments
static void bad_args(Ctx &c) {
  Args a = make_args(c);
  std::string text = a.text;
  std::vector<std::string> all = a.pos;
  all.insert(all.end(), a.kw.begin(), a.kw.end());
  auto join = [&](size_t at, const std::string &sep) {
    std::string s = "[";
    for (size_t i = 0; i < all.size(); ++i)
      s += (i ? i == at ? sep : std::string(", ") : std::string()) + all[i];
    return s + "]";
  };
  const char *why = "";
  switch (c.rng.below(12)) {
  case 0:
    text.erase(text.size() - 1);
    why = "no closing bracket";
    break;
  case 1:
    text.erase(0, text.find('[') + 1);
    why = "no opening bracket";
    break;
  case 2:
    text += c.rng.coin() ? " x" : "]";
    why = "text after the list";
    break;
  case 3: {
    if (all.size() < 2)
      return;
    size_t at = 1 + c.rng.below(all.size() - 1);
    if (all[at].find('[') == all[at].find_first_not_of(" \t\n")) // "T [int32]" is a type
      return;
    text = join(at, c.rng.coin() ? " " : "\n");
    why = "no comma";
    break;
  }
  case 4:
    if (all.empty())
      return;
    text = join(all.size() > 1 ? 1 + c.rng.below(all.size() - 1) : 0, ", , ");
    if (all.size() == 1)
      text = "[, " + all[0] + "]";
    why = "an argument too few";
    break;
  case 5:
    if (all.empty())
      return;
    text = join(0, "");
    text.insert(text.size() - 1, ",");
    why = "a trailing comma";
    break;
  case 6:
    if (a.kw.empty())
      return;
    all.push_back("17");
    text = join(0, "");
    why = "a position after a keyword";
    break;
  case 7:
    text = "[" + std::string(c.rng.coin() ? "x:" : "3, x: ") + "]";
    why = "a keyword without a value";
    break;
  case 8: {
    static const char *const v[] = {"[1, 'a']", "['a', 1]", "['a', int32]", "[int32, 'a']", "[1, int32]", "[[1], [2]]", "[1,, 2]", "[1 2]", "['a' 'b']", "[int32 int64]", "[1,]", "['a',]", "[int32,]", "[,]", "[[]]"};
    text = vf::cat("[", v[c.rng.below(15)], "]");
    why = "no list of one kind";
    break;
  }
  case 9:
    text = c.rng.coin() ? "['abc]" : "[\"abc\\\"]";
    why = "a string without an end";
    break;
  case 10:
    text = std::string("[") + (c.rng.coin() ? "" : "-") + "9" + std::string(19 + c.rng.below(30), '9') + "]";
    why = "a number which does not fit";
    break;
  default:
    text = c.rng.coin() ? "" : c.rng.coin() ? "int32" : "()";
    why = "no list";
  }
  c.describe(vf::cat(why, ": ", text));
  nd::buffer b;
  auto o = dv::attempt([&] { b = dynd::datashape::parse_type_constr_args(text); });
  c.check(!o.ok, vf::cat("bad-args:", why), [&] { return vf::cat(vf::quote(text), " gives ", b.get_type(), " ", dv::show(read(b))); });
  b = nd::buffer();
  balanced(c, "bad-args", [&] { dv::attempt([&] { dynd::datashape::parse_type_constr_args(text); }); });
  c.saw("bad", vf::hash_str(text));
}

// random damage: a result or an error, nothing leaked, and the same answer twice
static void damaged(Ctx &c) {
  std::string text = make_args(c).text;
  int n = 1 + c.rng.below(3);
  static const char set[] = "[],:'\"\\#*0-9aTx {}()?.\n\x80";
  for (int i = 0; i < n && !text.empty(); ++i) {
    size_t at = c.rng.below(text.size());
    switch (c.rng.below(4)) {
    case 0:
      text.erase(at, 1 + c.rng.below(3));
      break;
    case 1:
      text.insert(at, 1, set[c.rng.below(sizeof(set) - 1)]);
      break;
    case 2:
      text[at] = set[c.rng.below(sizeof(set) - 1)];
      break;
    default:
      text.resize(at);
    }
  }
  c.describe(text);
  Val v[2];
  dv::Outcome o[2];
  for (int i = 0; i < 2; ++i)
    o[i] = dv::attempt([&] { v[i] = read(dynd::datashape::parse_type_constr_args(text)); });
  c.check(o[0].ok == o[1].ok && o[0].msg == o[1].msg && v[0] == v[1], "damaged-twice", [&] { return vf::quote(text); });
  balanced(c, "damaged", [&] { dv::attempt([&] { dynd::datashape::parse_type_constr_args(text); }); });
  c.saw(o[0].ok ? "damaged but read" : "damaged", vf::hash_str(text));
}

// ---- registered types -------------------------------------------------------------------------------------------------
static struct Call {
  int n = 0;
  type_id_t id;
  bool no_args;
  std::string args_tp;
  Val args;
  ndt::type elem;
} last;
static ndt::type construct(type_id_t id, const nd::buffer &args, const ndt::type &elem) {
  ++last.n;
  last.id = id;
  last.no_args = args.is_null();
  last.args_tp = args.is_null() ? "" : args.get_type().str();
  last.args = args.is_null() ? Val() : read(args);
  last.elem = elem;
  if (!args.is_null() && last.args.kids.size() == 2 && !last.args.kids[0].kids.empty() && last.args.kids[0].kids[0] == Val::S("refuse"))
    throw std::invalid_argument("refused by the constructor");
  ndt::type e = elem.is_null() ? ndt::type("int16") : elem;
  return elem.is_null() ? ndt::make_type<ndt::tuple_type>({e, e}) : ndt::make_fixed_dim(4, e);
}
static ndt::type construct2(type_id_t, const nd::buffer &, const ndt::type &) { return ndt::type("float16"); }
struct Reg {
  type_id_t id;
  std::string name;
  type_id_t base;
  bool single, cons;
  std::string singleton;
};
static std::vector<Reg> regs;
static int regs_made;

static void types(Ctx &c) {
  type_id_t before = (type_id_t)detail::infos().size();
  if (regs.size() < 400 && (regs.empty() || c.rng.chance(1, 3))) {
    Reg r;
    r.name = vf::cat(c.rng.coin() ? "u" : c.rng.coin() ? "My_" : "_t", ++regs_made, c.rng.coin() ? "x" : "_Y");
    r.base = c.rng.coin() ? scalar_kind_id : regs.empty() || c.rng.coin() ? any_kind_id : regs[c.rng.below(regs.size())].id;
    r.single = r.cons = false;
    c.check(lookup_id_by_name(r.name).first == uninitialized_id && lookup_id_by_name(r.name).second == nullptr, "lookup-absent",
            [&] { return r.name; });
    c.check(!dv::attempt([&] { ndt::type(r.name + " * int32 -> int32"); }).ok, "absent-text", [&] { return r.name; });
    std::string tmp = r.name;
    r.id = new_id(tmp.c_str(), r.base);
    tmp.assign(tmp.size(), '?');
    c.check(r.id == before && detail::infos().size() == (size_t)before + 1, "new_id", [&] { return vf::cat((int)r.id, " after ", (int)before); });
    regs.push_back(r);
  }
  Reg &r = regs[c.rng.below(regs.size())];
  c.describe(vf::cat(r.name, " id ", (int)r.id, r.single ? " with a singleton" : "", r.cons ? " with a constructor" : ""));
  auto found = [&] {
    auto f = lookup_id_by_name(r.name);
    c.check(f.first == r.id && f.second == &detail::infos()[r.id] && f.second->name == r.name && f.second->base_id == r.base, "lookup",
            [&] { return vf::cat(r.name, ": id ", (int)f.first, " instead of ", (int)r.id); });
  };
  found();
  // registering: once, all or nothing
  if (c.rng.chance(2, 3)) {
    int k = c.rng.below(4);
    bool single = k & 1, cons = k & 2, parser_only = !cons && c.rng.coin(), empty = !single && !cons && !parser_only;
    std::string s = some_types[c.rng.below(13)];
    ndt::type st = single ? ndt::type(s) : ndt::type();
    bool want = !r.single && !r.cons && !parser_only;
    auto o = dv::attempt([&] {
      register_known_type_id_constructor(r.id, std::move(st), cons ? &construct : nullptr,
                                         parser_only ? &default_parse_type_args : nullptr);
    });
    c.check(o.ok == want, "register", [&] { return vf::cat(r.name, ": ", o.ok ? "registered" : o.msg); });
    if (o.ok && !empty) {
      r.single = single;
      r.cons = cons;
      r.singleton = single ? ndt::type(s).str() : "";
    }
  }
  if (r.single || r.cons) {
    auto o = dv::attempt([&] { register_known_type_id_constructor(r.id, ndt::type("float16"), &construct2); });
    c.check(!o.ok, "register-twice", [&] { return r.name; });
  }
  c.check(!dv::attempt([&] { register_known_type_id_constructor((type_id_t)detail::infos().size(), ndt::type("int32"), &construct); }).ok,
          "register-range", [&] { return std::string("an id which was never given out"); });
  found();
  // the name alone
  ndt::type t;
  auto o = dv::attempt([&] { t = ndt::type(r.name); });
  c.check(o.ok == r.single, "name-alone", [&] { return vf::cat(r.name, ": ", o.ok ? t.str() : o.msg); });
  if (o.ok && r.single)
    c.check(t.str() == r.singleton, "singleton", [&] { return vf::cat(r.name, " is ", t, " instead of ", r.singleton); });
  // as a dimension without arguments
  last = Call();
  o = dv::attempt([&] { t = ndt::type(r.name + ws(c) + "*" + ws(c) + "{q: int8}"); });
  c.check(o.ok == r.cons, "as-dim", [&] { return vf::cat(r.name, " * {q: int8}: ", o.ok ? t.str() : o.msg); });
  if (o.ok && r.cons)
    c.check(last.n == 1 && last.id == r.id && last.no_args && last.elem.str() == "{q: int8}" && t.str() == "4 * {q: int8}", "as-dim-call",
            [&] { return vf::cat("called ", last.n, " times with ", last.elem); });
  // with arguments
  Args a = make_args(c);
  bool refuse = c.rng.chance(1, 8), dim = c.rng.coin();
  if (refuse)
    a.text = "['refuse']", a.val = Val::L({Val::L({Val::S("refuse")}), Val::L({})});
  std::string text = r.name + ws(c) + a.text + ws(c) + (dim ? "*" + ws(c) + "var * bool" : "");
  last = Call();
  o = dv::attempt([&] { t = ndt::type(text); });
  c.check(o.ok == (r.cons && !refuse), "with-args", [&] { return vf::cat(vf::quote(text), ": ", o.ok ? t.str() : o.msg); });
  if (r.cons) {
    c.check(last.n == 1 && last.id == r.id && !last.no_args && last.args == a.val, "with-args-call",
            [&] { return vf::cat(vf::quote(text), ": called ", last.n, " times with ", dv::show(last.args), " for ", dv::show(a.val)); });
    c.check(dim ? last.elem.str() == "var * bool" : last.elem.is_null(), "with-args-elem", [&] { return vf::cat(vf::quote(text), " element ", last.elem); });
    if (o.ok)
      c.check(t.str() == (dim ? "4 * var * bool" : "(int16, int16)"), "with-args-result", [&] { return vf::cat(t); });
  }
  // inside of other types
  if (r.cons && !refuse) {
    last = Call();
    o = dv::attempt([&] { t = ndt::type("3 * {f: " + r.name + a.text + ", g: (" + r.name + a.text + ") -> int32}"); });
    c.check(o.ok && last.n == 2 && t.str() == "3 * {f: (int16, int16), g: ((int16, int16)) -> int32}", "nested", [&] { return o.ok ? t.str() : o.msg; });
  }
  balanced(c, "registered", [&] { dv::attempt([&] { ndt::type x(text); }); last = Call(); });
  c.saw("type", vf::mix(vf::hash_str(text), r.single * 2 + r.cons));
}

// the built-in names: each names one id, and its own type
static bool has_construction(type_id_t id) {
  const id_info &i = detail::infos()[id];
  return !i.singleton_type.is_null() || i.construct_type || i.parse_type_args;
}
static void builtin_names(Ctx &c) {
  size_t n = 61;
  type_id_t id = (type_id_t)(1 + c.rng.below(n - 1));
  const id_info &i = detail::infos()[id];
  c.describe(i.name);
  if (i.name.empty())
    return;
  auto f = lookup_id_by_name(i.name);
  c.check(f.first == id && f.second == &i, "builtin-lookup", [&] { return vf::cat(i.name, " is ", (int)f.first, " and ", (int)id); });
  if (!i.singleton_type.is_null()) {
    c.check(i.singleton_type.get_id() == id, "builtin-singleton", [&] { return vf::cat(i.name, ": ", i.singleton_type); });
    c.check(i.singleton_type.get_base_id() == i.base_id, "builtin-base", [&] { return i.name; });
  }
  // the bases lead to Any
  int steps = 0;
  type_id_t b = id;
  while (b != any_kind_id && b != uninitialized_id && steps < 10)
    b = detail::infos()[b].base_id, ++steps;
  c.check(b == any_kind_id, "builtin-bases", [&] { return vf::cat(i.name, " ", steps, " steps"); });
  if (has_construction(id))
    c.check(!dv::attempt([&] { register_known_type_id_constructor(id, ndt::type("float16"), &construct2); }).ok, "builtin-register", [&] { return i.name; });
  c.saw("name", id);
}
static void builtin_names_safe(Ctx &c) {
  type_id_t id = (type_id_t)(1 + c.rng.below(60));
  if (!has_construction(id)) { // registering would be right here, once: leave it alone
    c.saw("open", id);
    return;
  }
  builtin_names(c);
}

// ---- functions --------------------------------------------------------------------------------------------------------
static nd::callable a_function(int k) {
  return nd::functional::apply([k](int x) { return 7 * k + x; });
}
struct Node {
  bool ns = false;
  int value = 0;
  std::map<std::string, Node> kids;
};
static struct Seen {
  int n = 0;
  registry_entry *at;
  std::string name;
  registry_entry *entry;
} seen[2];
static void watch0(registry_entry *at, const char *name, registry_entry *e) {
  ++seen[0].n;
  seen[0].at = at;
  seen[0].name = name;
  seen[0].entry = e;
}
static void watch1(registry_entry *at, const char *name, registry_entry *e) {
  ++seen[1].n;
  seen[1].at = at;
  seen[1].name = name;
  seen[1].entry = e;
}
static registry_entry build(const Node &n) {
  if (!n.ns)
    return registry_entry(a_function(n.value));
  // one, two or three entries at once, or none
  std::vector<std::pair<std::string, registry_entry>> v;
  for (auto &k : n.kids)
    v.emplace_back(k.first, build(k.second));
  typedef std::pair<const std::string, registry_entry> P;
  if (v.empty())
    return registry_entry(std::initializer_list<P>{});
  if (v.size() == 1)
    return registry_entry{P(v[0].first, v[0].second)};
  if (v.size() == 2)
    return registry_entry{P(v[0].first, v[0].second), P(v[1].first, v[1].second)};
  return registry_entry{P(v[0].first, v[0].second), P(v[1].first, v[1].second), P(v[2].first, v[2].second)};
}
static Node random_node(Ctx &c, int depth) {
  static const char *const names[] = {"a", "b", "nd", "sum", "x_1", "Add", "a b", "\xc3\xa9", "dynd"};
  Node n;
  n.ns = depth > 0 && c.rng.chance(1, 2);
  n.value = 1 + c.rng.below(1000);
  if (n.ns)
    for (size_t k = c.rng.below(4); k > 0; --k)
      n.kids[names[c.rng.below(9)]] = random_node(c, depth - 1);
  return n;
}
static void same_tree(Ctx &c, registry_entry &e, const Node &n, const std::string &path, registry_entry &root) {
  c.check(e.path() == path, "path", [&] { return vf::cat(vf::quote(e.path()), " instead of ", vf::quote(path)); });
  c.check(e.is_namespace() == n.ns, "is_namespace", [&] { return path; });
  if (!path.empty())
    c.check(&root[path] == &e, "by-path", [&] { return path; });
  size_t count = 0;
  for (auto &k : e) {
    ++count;
    auto it = n.kids.find(k.first);
    if (!c.check(it != n.kids.end(), "extra-entry", [&] { return vf::cat(path, " has ", k.first); }))
      continue;
    same_tree(c, k.second, it->second, path.empty() ? k.first : path + "." + k.first, root);
  }
  c.check(count == n.kids.size(), "entries", [&] { return vf::cat(count, " in ", path, " instead of ", n.kids.size()); });
  c.check(e.find("no such name") == e.end(), "find-absent", [&] { return path; });
  if (!n.ns) {
    int x = (int)c.rng.below(100);
    c.check(e.value()(x).as<int>() == 7 * n.value + x, "value", [&] { return path; });
  }
}
static void functions(Ctx &c) {
  Node model;
  model.ns = true;
  while (model.kids.empty())
    model = random_node(c, 3), model.ns = true;
  registry_entry root = build(model);
  same_tree(c, root, model, "", root);
  std::string log;
  int nstep = 1 + c.rng.below(8);
  for (int s = 0; s < nstep; ++s) {
    // a namespace to work on
    registry_entry *e = &root;
    Node *n = &model;
    std::string path;
    for (;;) {
      std::vector<std::string> down;
      for (auto &k : n->kids)
        if (k.second.ns)
          down.push_back(k.first);
      if (down.empty() || c.rng.chance(1, 3))
        break;
      std::string d = down[c.rng.below(down.size())];
      path += path.empty() ? d : "." + d;
      n = &n->kids[d];
      e = &(*e)[d];
    }
    static const char *const names[] = {"a", "b", "nd", "sum", "new", "z", "f2", "g"};
    std::string name = names[c.rng.below(8)];
    Node add = random_node(c, 2);
    log += vf::cat(" insert ", path, "/", name);
    c.describe(log);
    int watchers = c.rng.below(3);
    registry_entry fresh = build(add);
    std::vector<std::pair<registry_entry *, std::string>> kept;
    for (auto &k : *e)
      kept.emplace_back(&k.second, k.first);
    seen[0] = seen[1] = Seen();
    bool dup = n->kids.count(name) > 0;
    // the watchers stay with the namespace: count the calls of this step only
    static thread_local std::map<registry_entry *, int> watching;
    if (s == 0)
      watching.clear();
    if (watching[e] == 0 && watchers > 0) {
      e->observe(&watch0);
      if (watchers > 1)
        e->observe(&watch1);
      watching[e] = watchers;
    }
    int w = watching[e];
    auto o = dv::attempt([&] { e->insert(std::pair<std::string, const registry_entry &>(name, fresh)); });
    c.check(o.ok == !dup, "insert", [&] { return vf::cat(path, "/", name, o.ok ? " inserted again" : o.msg); });
    if (o.ok) {
      n->kids[name] = add;
      registry_entry *in = &(*e)[name];
      for (int i = 0; i < 2; ++i)
        c.check(i < w ? seen[i].n == 1 && seen[i].at == e && seen[i].name == name && seen[i].entry == in : seen[i].n == 0, "observed",
                [&] { return vf::cat("observer ", i, " called ", seen[i].n, " times"); });
    } else
      c.check(seen[0].n == 0 && seen[1].n == 0, "observed-refusal", [&] { return path; });
    for (auto &k : kept)
      c.check(&e->find(k.second)->second == k.first, "entry-moved", [&] { return k.second; });
    same_tree(c, root, model, "", root);
  }
  static const char *const missing[] = {"", ".", "no", "a.no", "no.a", "a..b", ".a", "dynd.nd.", "nd.sum.x"};
  std::string m = missing[c.rng.below(9)];
  // what the model says about it
  bool there = true;
  Node *n = &model;
  size_t at = 0;
  for (;;) {
    size_t dot = m.find('.', at);
    auto it = n->kids.find(m.substr(at, dot == std::string::npos ? dot : dot - at));
    if (it == n->kids.end()) {
      there = false;
      break;
    }
    n = &it->second;
    if (dot == std::string::npos)
      break;
    at = dot + 1;
  }
  auto o = dv::attempt([&] { root[m]; });
  c.check(o.ok == there, "missing", [&] { return vf::cat(vf::quote(m), o.ok ? " found" : " not found"); });
  c.saw("tree", vf::hash_str(log));
}

// the functions the library registers are the ones it exports
static void exported(Ctx &c) {
  static const std::vector<std::pair<const char *, nd::callable *>> all = {
      {"add", &nd::add}, {"assign", &nd::assign}, {"assign_na", &nd::assign_na}, {"bitwise_and", &nd::bitwise_and},
      {"bitwise_not", &nd::bitwise_not}, {"bitwise_or", &nd::bitwise_or}, {"bitwise_xor", &nd::bitwise_xor}, {"cbrt", &nd::cbrt},
      {"compound_add", &nd::compound_add}, {"compound_div", &nd::compound_div}, {"conj", &nd::conj}, {"cos", &nd::cos},
      {"divide", &nd::divide}, {"equal", &nd::equal}, {"exp", &nd::exp}, {"greater", &nd::greater}, {"greater_equal", &nd::greater_equal},
      {"imag", &nd::imag}, {"is_na", &nd::is_na}, {"left_shift", &nd::left_shift}, {"less", &nd::less}, {"less_equal", &nd::less_equal},
      {"logical_and", &nd::logical_and}, {"logical_not", &nd::logical_not}, {"logical_or", &nd::logical_or}, {"logical_xor", &nd::logical_xor},
      {"max", &nd::max}, {"min", &nd::min}, {"minus", &nd::minus}, {"mod", &nd::mod}, {"multiply", &nd::multiply},
      {"not_equal", &nd::not_equal}, {"plus", &nd::plus}, {"pow", &nd::pow}, {"range", &nd::range}, {"real", &nd::real},
      {"right_shift", &nd::right_shift}, {"serialize", &nd::serialize}, {"sin", &nd::sin}, {"sqrt", &nd::sqrt}, {"subtract", &nd::subtract},
      {"sum", &nd::sum}, {"take", &nd::take}, {"tan", &nd::tan}, {"total_order", &nd::total_order}, {"random.uniform", &nd::random::uniform}};
  auto &p = all[c.rng.below(all.size())];
  std::string path = std::string("dynd.nd.") + p.first;
  c.describe(path);
  registry_entry &e = registered(path);
  c.check(e.path() == path, "exported-path", [&] { return vf::cat(e.path(), " for ", path); });
  c.check(!e.is_namespace() && !e.value().is_null() && e.value().get() == p.second->get(), "exported", [&] { return path; });
  c.check(!dv::attempt([&] { registered("dynd." + std::string(p.first)); }).ok, "exported-missing", [&] { return path; });
  c.check(!dv::attempt([&] { registered("dynd.nd").insert({p.first, registry_entry(nd::add)}); }).ok || std::string(p.first).find('.') != std::string::npos,
          "exported-again", [&] { return path; });
  // extending the library's own namespace
  static int made;
  if (made < 50) {
    std::string name = vf::cat("extra_", c.idx, "_", made++);
    int k = c.rng.below(100);
    registry_entry fresh(a_function(k));
    registered("dynd.nd").insert(std::pair<std::string, const registry_entry &>(name, fresh));
    c.check(registered("dynd.nd." + name).path() == "dynd.nd." + name, "extended-path", [&] { return registered("dynd.nd." + name).path(); });
    nd::array a(3);
    c.check(a.f(name.c_str()).as<int>() == 7 * k + 3, "extended-call", [&] { return name; });
  }
  c.saw("exported", vf::hash_str(path));
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "T05",
                 "what is registered under a name is found under it, with exactly the arguments that were written; texts which are no "
                 "arguments, second registrations and unknown names are refused and change nothing",
                 {{"args", 9000, 300000, args, false},
                  {"bad_args", 6000, 200000, bad_args, false},
                  {"damaged", 8000, 300000, damaged, false},
                  {"types", 6000, 150000, types, false},
                  {"names", 500, 5000, builtin_names_safe, false},
                  {"functions", 3000, 80000, functions, false},
                  {"exported", 800, 10000, exported, false}});
}
