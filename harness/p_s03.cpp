// S03: decimal text to numbers and numbers to text, on every path there is, against an exact decimal model.
#include "arrgen.hpp"
#include "decimal.hpp"
#include <cfloat>
#include <dynd/callable.hpp>
#include <dynd/eval/eval_context.hpp>
#include <dynd/json_formatter.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/parse.hpp>
#include <dynd/parse_util.hpp>
using namespace dynd;
using dv::i128;
using dv::u128;
using dv::Val;
using namespace dec;
using vf::Ctx;

static const char *k_int = "text of an integer is parsed as another number, or refused though it is in range";
static const char *k_range = "text of a number out of the type's range is accepted";
static const char *k_junk = "text that is not a number of the type is accepted";
static const char *k_flt = "decimal text is not parsed as the nearest floating point number, or is refused";
static const char *k_bool = "text of a truth value is parsed wrongly";
static const char *k_print = "the printed text of a number is not that number";
static const char *k_tostr = "a number assigned to a string does not give text of that number";
static const char *k_na = "text of a missing value is not parsed as missing";
static const char *k_elem = "parsing an array of strings differs from parsing each";

// ---------------------------------------------------------------- texts
static std::string int_text(Ctx &c, type_id_t t) {
  u128 m;
  bool neg = c.rng.coin();
  switch (c.rng.below(6)) {
  case 0: m = c.rng.below(300); break;
  case 1: m = top(t) - 3 + c.rng.below(8); break; // wraps for 128 bits: another value
  case 2: m = (top(t) << 1) - 2 + c.rng.below(6); break;
  case 3: m = (((u128)c.rng.next() << 64) | c.rng.next()) >> c.rng.below(128); break;
  case 4: { // a power of ten or a multiple of the limit
    m = 1;
    for (int k = (int)c.rng.below(39); k-- > 0;)
      m *= 10;
    m -= c.rng.below(2);
    break;
  }
  default: m = (((u128)c.rng.next() << 64) | c.rng.next()) & top(t); break;
  }
  std::string s = dec_u(m);
  if (c.rng.chance(1, 20)) // more digits than any type has
    for (int k = 1 + (int)c.rng.below(4); k-- > 0;)
      s += (char)('0' + c.rng.below(10));
  if (c.rng.chance(1, 12))
    s = std::string(1 + c.rng.below(4), '0') + s;
  switch (c.rng.below(14)) {
  case 0: s += "." + std::string(c.rng.below(4), '0'); break;
  case 1: s += vf::cat(c.rng.coin() ? "e" : "E", c.rng.coin() ? "+" : "", c.rng.chance(1, 3) ? "0" : "", c.rng.below(c.rng.coin() ? 4 : 130)); break;
  case 2:
    for (size_t z = s.size(); z > 1 && s[z - 1] == '0'; z = s.size()) // 1200 -> 12e2
      s.pop_back();
    s += vf::cat("e", c.rng.below(25));
    break;
  case 3: s.insert(c.rng.below(s.size() + 1), "."); break;
  }
  return (neg ? "-" : "") + s;
}
static std::string dbl_text(double v, int prec, char f) {
  char buf[2000], fmt[16];
  snprintf(fmt, sizeof fmt, "%%.%d%c", prec, f);
  snprintf(buf, sizeof buf, fmt, v);
  return buf;
}
static double rnd_double(Ctx &c, bool single) {
  uint64_t r = c.rng.next();
  if (single) {
    float f;
    uint32_t u = (uint32_t)r;
    if (c.rng.chance(1, 5))
      u &= 0x807fffff; // subnormal
    else if (c.rng.chance(1, 4))
      u = (u & 0x807fffff) | ((uint32_t)(117 + c.rng.below(30)) << 23);
    memcpy(&f, &u, 4);
    return std::isfinite(f) ? f : 1.5f;
  }
  if (c.rng.chance(1, 6))
    r &= 0x800fffffffffffffull;
  else if (c.rng.chance(1, 3))
    r = (r & 0x800fffffffffffffull) | ((uint64_t)(1003 + c.rng.below(60)) << 52);
  double d;
  memcpy(&d, &r, 8);
  return std::isfinite(d) ? d : -2.25;
}
// the exact decimal digits of the point half way between v and the next number of its type, possibly nudged
static std::string half_way(Ctx &c, double v, bool single) {
  long double m;
  if (single)
    m = ((long double)v + (long double)std::nextafter((float)v, INFINITY)) / 2;
  else
    m = ((long double)v + (long double)std::nextafter(v, (double)INFINITY)) / 2; // 64 bits of mantissa hold it
  if (!std::isfinite(m))
    return "1.7976931348623157e308";
  char buf[3000];
  snprintf(buf, sizeof buf, "%.1100Le", m);
  std::string s = buf;
  size_t e = s.find('e');
  std::string man = s.substr(0, e), ex = s.substr(e);
  while (man.size() > 3 && man.back() == '0')
    man.pop_back();
  switch (c.rng.below(3)) {
  case 0: break; // exactly half way: to even
  case 1: man += std::string(c.rng.below(30), '0') + "1"; break;
  default:
    if (man.back() > '0' && isdigit((unsigned char)man.back()))
      man.back()--, man += std::string(1 + c.rng.below(20), '9');
  }
  return man + ex;
}
static std::string flt_text(Ctx &c, bool single) {
  double v = rnd_double(c, single);
  if (c.rng.chance(1, 8)) // near the limits
    v = (single ? (double)FLT_MAX : DBL_MAX) * (c.rng.coin() ? 1 : 1 - 1e-8 * c.rng.unit());
  switch (c.rng.below(8)) {
  case 0: return dbl_text(v, single ? 8 : 16, 'e');
  case 1: return dbl_text(v, (int)c.rng.below(20), 'g');
  case 2: return dbl_text(v, (int)c.rng.below(30), 'f');
  case 3:
  case 4: return half_way(c, v, single);
  case 5: return vf::cat(c.rng.coin() ? "-" : "", c.rng.below(10), ".", c.rng.next(), c.rng.coin() ? "e" : "E", c.rng.coin() ? "-" : c.rng.coin() ? "+" : "",
                         c.rng.below(c.rng.coin() ? 45 : 420));
  case 6: {
    std::string s = int_text(c, c.rng.coin() ? int128_id : int64_id);
    return s;
  }
  default: { // limits in decimal
    static const char *l[] = {"3.4028234663852886e38", "3.4028235677973366e38", "3.40282356779733661637539395458142568447e38", "3.402823567797336616e38", "1.7976931348623157e308",
                              "1.7976931348623158e308", "1.7976931348623159e308", "1.797693134862315807e308", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324",
                              "1.401298464324817e-45", "7.006492321624085e-46", "7.006492321624086e-46", "2.2250738585072011e-308", "2.2250738585072014e-308", "1e400", "1e39", "-1e39",
                              "-1e309", "1e-400", "0e999999", "9007199254740993", "16777217", "0.1", ".5", "5.", "00.5", "-0", "-0.0"};
    return l[c.rng.below(sizeof l / sizeof *l)];
  }
  }
}
static std::string junk(Ctx &c, std::string s) {
  static const char alpha[] = "0123456789..--+eE xXaAnNiIfF#,_'\"\t\n\0";
  for (int k = 1 + (int)c.rng.below(3); k-- > 0;)
    switch (c.rng.below(5)) {
    case 0: s.insert(c.rng.below(s.size() + 1), 1, alpha[c.rng.below(sizeof alpha - 1)]); break;
    case 1:
      if (!s.empty())
        s.erase(c.rng.below(s.size()), 1);
      break;
    case 2:
      if (!s.empty())
        s[c.rng.below(s.size())] = alpha[c.rng.below(sizeof alpha - 1)];
      break;
    case 3: s = s.substr(0, c.rng.below(s.size() + 1)); break;
    default: {
      static const char *w[] = {"", "-", ".", "e5", "-e5", ".e1", "E", "+", "--1", "1e", "1e+", "0x10", "1.5.2", "1 2", "NaN", "inf", "-inf", "infinity", "NA", "null", "None", "true",
                                "1.#QNAN", "1.#INF", "1e5e5", "1-", "- 1", "-.", "٣", "1e-", "1e-1", "10e-1", "1.e1", "1,000", "nan(1)", "0x1p3", "1f", "1L"};
      s = w[c.rng.below(sizeof w / sizeof *w)];
    }
    }
  return s;
}

// ---------------------------------------------------------------- the ways to parse
enum Path { P_template, P_json, P_json2, P_string, P_fixed, P_option, n_paths };
static const char *path_name[] = {"parse<T>", "parse_json", "nd::json::parse", "assignment from string", "assignment from fixed_string", "assignment to option from string"};
static bool can(Path p, type_id_t t) {
  bool flt = t == float32_id || t == float64_id;
  switch (p) {
  case P_template: return t != int128_id && t != uint128_id;
  case P_json: return t != int128_id;
  case P_json2: return t != int128_id && t != uint128_id && !flt;
  case P_string: return flt || t == bool_id || (sgn(t) && t != int128_id);
  case P_fixed: return sgn(t) && t != int128_id;
  default: return flt || (sgn(t) && t != int128_id);
  }
}
static void parse_template(type_id_t t, const char *b, const char *e, char *o) {
  auto st = [&](auto v) { memcpy(o, &v, sizeof v); };
  switch (t) {
  case bool_id: st(dynd::parse<bool1>(b, e)); break;
  case int8_id: st(dynd::parse<int8_t>(b, e)); break;
  case int16_id: st(dynd::parse<int16_t>(b, e)); break;
  case int32_id: st(dynd::parse<int32_t>(b, e)); break;
  case int64_id: st(dynd::parse<int64_t>(b, e)); break;
  case uint8_id: st(dynd::parse<uint8_t>(b, e)); break;
  case uint16_id: st(dynd::parse<uint16_t>(b, e)); break;
  case uint32_id: st(dynd::parse<uint32_t>(b, e)); break;
  case uint64_id: st(dynd::parse<uint64_t>(b, e)); break;
  case float32_id: st(dynd::parse<float>(b, e)); break;
  case float64_id: st(dynd::parse<double>(b, e)); break;
  default: throw std::runtime_error("no such path");
  }
}
static dv::Outcome parse_by(Path p, type_id_t t, const std::string &s, Val &out, Ctx &c) {
  return dv::attempt([&] {
    ndt::type tp = dv::builtin(t);
    switch (p) {
    case P_template: { // an exact buffer: what follows it is not the text's
      std::unique_ptr<char[]> b(new char[s.size()]);
      memcpy(b.get(), s.data(), s.size());
      alignas(16) char o[16];
      parse_template(t, b.get(), b.get() + s.size(), o);
      out = dv::read(tp, nullptr, o);
      break;
    }
    case P_json: out = dv::read(parse_json(tp, s, &eval::default_eval_context)); break;
    case P_json2: out = dv::read(nd::json::parse(tp, s)); break;
    case P_string: {
      nd::array a = nd::empty(tp);
      a.assign(nd::array(s));
      out = dv::read(a);
      break;
    }
    case P_fixed: {
      nd::array f = nd::empty(ndt::make_type<ndt::fixed_string_type>(std::max<size_t>(1, s.size() + c.rng.below(3)), string_encoding_utf_8));
      f.assign(nd::array(s));
      nd::array a = nd::empty(tp);
      a.assign(f);
      out = dv::read(a);
      break;
    }
    default: {
      nd::array a = nd::empty(ndt::make_type<ndt::option_type>(tp));
      a.assign(nd::array(s));
      out = dv::read(a);
    }
    }
  });
}
static std::string trimmed(const std::string &s) {
  size_t b = 0, e = s.size();
  while (b < e && strchr(" \t\r\n\v\f", s[b]) && s[b])
    ++b;
  while (e > b && strchr(" \t\r\n\v\f", s[e - 1]) && s[e - 1])
    --e;
  return s.substr(b, e - b);
}
static bool json_number(const std::string &s) {
  Dec d;
  if (!read_dec(s, d))
    return false;
  size_t i = s[0] == '-';
  if (i >= s.size() || !isdigit((unsigned char)s[i]) || (s[i] == '0' && i + 1 < s.size() && isdigit((unsigned char)s[i + 1])))
    return false;
  size_t dot = s.find('.');
  return dot == std::string::npos || (dot + 1 < s.size() && isdigit((unsigned char)s[dot + 1]));
}
static Path pick_path(Ctx &c, type_id_t t) {
  Path p;
  do
    p = (Path)c.rng.below(n_paths);
  while (!can(p, t));
  return p;
}

static void int_parse(Ctx &c) {
  static const type_id_t ids[] = {int8_id, int16_id, int32_id, int64_id, uint8_id, uint16_id, uint32_id, uint64_id, uint128_id};
  type_id_t t = ids[c.rng.below(9)];
  Path p = pick_path(c, t);
  std::string s = int_text(c, t);
  if (c.rng.chance(1, 4))
    s = junk(c, s);
  bool quoted = (p == P_json) && c.rng.chance(1, 3) && s.find_first_of(std::string("\"\\\n\0\t", 5)) == std::string::npos;
  std::string core = s; // what has to be a number
  if (p == P_string || p == P_fixed) {
    size_t z = p == P_fixed ? s.find('\0') : std::string::npos;
    core = trimmed(z == std::string::npos ? s : s.substr(0, z));
    if (c.rng.chance(1, 10)) {
      s = " " + s + "\t ";
      core = trimmed(p == P_fixed && s.find('\0') != std::string::npos ? s.substr(0, s.find('\0')) : s);
    }
  } else if (p == P_json || p == P_json2)
    core = quoted ? s : trimmed(s);
  std::string sent = quoted ? "\"" + s + "\"" : s;
  std::string what = vf::cat(path_name[p], " of ", vf::quote(sent), " as ", dv::builtin(t).str());
  c.describe(what);
  Val got;
  dv::Outcome oc = parse_by(p, t, sent, got, c);
  Dec d;
  u128 m = 0;
  bool num = read_dec(core, d);
  int kind = num ? magnitude(d, m) : Fraction;
  c.saw(vf::cat(path_name[p], !num ? " junk" : kind == Fraction ? " fraction" : kind == Huge || !fits(t, d.neg, m) ? " out of range" : " in range").c_str(), vf::hash_str(what));
  if (p == P_option && na_text(core)) {
    c.check(oc.ok && got.k == Val::NA, k_na, [&] { return vf::cat(what, oc.ok ? " gives " + dv::show(got) : " throws " + oc.msg); });
    return;
  }
  if (!num) {
    // "+5" may be read as 5
    Dec d2;
    u128 m2;
    if (oc.ok && core.size() > 1 && core[0] == '+' && read_dec(core.substr(1), d2) && !d2.neg && magnitude(d2, m2) == Whole && got == Val::I((i128)m2))
      return;
    c.check(!oc.ok, k_junk, [&] { return vf::cat(what, " gives ", dv::show(got)); });
    return;
  }
  if (kind != Whole) {
    c.check(!oc.ok, kind == Huge ? k_range : k_junk, [&] { return vf::cat(what, " gives ", dv::show(got)); });
    return;
  }
  if (!fits(t, d.neg, m)) {
    c.check(!oc.ok, k_range, [&] { return vf::cat(what, " gives ", dv::show(got)); });
    return;
  }
  i128 v = d.neg ? (i128)(0 - m) : (i128)m;
  if (p == P_option && d.neg && m == top(t) + 1)
    return; // the pattern that marks a missing value
  bool must = d.strict_int && !(d.neg && !sgn(t)); // another spelling of a whole number may be refused
  if ((p == P_json || p == P_json2) && !quoted)
    must = must && json_number(core);
  if (!oc.ok && !must)
    return;
  c.check(oc.ok && got == Val::I(v), k_int, [&] { return vf::cat(what, oc.ok ? " gives " + dv::show(got) : " throws " + oc.cls + " " + oc.msg); });
  if (c.idx < 3)
    c.sample(what + " = " + dv::show(got));
}

static void flt_parse(Ctx &c) {
  bool single = c.rng.coin();
  type_id_t t = single ? float32_id : float64_id;
  Path p = pick_path(c, t);
  std::string s = flt_text(c, single);
  if (c.rng.chance(1, 5))
    s = junk(c, s);
  bool quoted = p == P_json && c.rng.chance(1, 3) && s.find_first_of(std::string("\"\\\n\0\t", 5)) == std::string::npos;
  std::string core = s;
  if (p == P_string) {
    if (c.rng.chance(1, 10))
      s = "\n " + s + " ";
    core = trimmed(s);
  } else if (p == P_json)
    core = quoted ? s : trimmed(s);
  std::string sent = quoted ? "\"" + s + "\"" : s;
  std::string what = vf::cat(path_name[p], " of ", vf::quote(sent), " as ", dv::builtin(t).str());
  c.describe(what);
  Val got;
  dv::Outcome oc = parse_by(p, t, sent, got, c);
  Dec d;
  bool num = read_dec(core, d);
  if (p == P_option && na_text(core)) {
    c.check(oc.ok && got.k == Val::NA, k_na, [&] { return vf::cat(what, oc.ok ? " gives " + dv::show(got) : " throws " + oc.msg); });
    return;
  }
  double want = single ? (double)strtof(core.c_str(), nullptr) : strtod(core.c_str(), nullptr);
  c.saw(vf::cat(path_name[p], !num ? " junk" : std::isinf(want) ? " out of range" : want == 0 ? " zero" : std::fpclassify(single ? (float)want : want) == FP_SUBNORMAL ? " subnormal" : " normal").c_str(),
        vf::hash_str(what));
  if (!num) {
    // names of infinities and NaN, hexadecimal and "+5" may be accepted, as what they denote
    if (oc.ok && !core.empty() && core.find('\0') == std::string::npos) {
      char *e;
      double w = single ? (double)strtof(core.c_str(), &e) : strtod(core.c_str(), &e);
      if (!*e && e != core.c_str() && dv::same_double(got.d, w))
        return;
      std::string l;
      for (char ch : core)
        l += (char)tolower((unsigned char)ch);
      bool neg = l[0] == '-';
      if (neg)
        l = l.substr(1);
      if ((l == "nan" || l == "1.#qnan" || l == "1.#ind") && (std::isnan(got.d) || got.k == Val::NA))
        return;
      if ((l == "inf" || l == "infinity" || l == "1.#inf") && got.d == (neg ? -INFINITY : INFINITY))
        return;
    }
    c.check(!oc.ok, k_junk, [&] { return vf::cat(what, " gives ", dv::show(got)); });
    return;
  }
  if (std::isinf(want)) {
    c.check(!oc.ok, k_range, [&] { return vf::cat(what, " gives ", dv::show(got)); });
    return;
  }
  if (p == P_json && !quoted && !json_number(core) && !oc.ok)
    return;
  c.check(oc.ok && got.k == Val::Flt && dv::same_double(got.d, want), k_flt, [&] {
    return vf::cat(what, oc.ok ? " gives " + dv::show(got) : " throws " + oc.cls + " " + oc.msg, ", nearest is ", dbl_text(want, 17, 'g'));
  });
  if (c.idx < 3)
    c.sample(what + " = " + dv::show(got));
}

static void bool_parse(Ctx &c) {
  bool v = c.rng.coin(), valid = !c.rng.chance(1, 3);
  std::string s = (v ? bool_true : bool_false)[c.rng.below(6)];
  for (char &ch : s)
    if (c.rng.coin())
      ch = (char)toupper((unsigned char)ch);
  if (!valid)
    s = junk(c, s);
  Path p = c.rng.coin() ? P_template : c.rng.coin() ? P_string : P_json;
  std::string core = p == P_template ? s : trimmed(s), sent = s;
  if (p == P_json) {
    if (s.find_first_of(std::string("\"\\\n\0\t", 5)) != std::string::npos)
      return;
    sent = "\"" + s + "\"", core = s;
  }
  int want = bool_word(core);
  std::string what = vf::cat(path_name[p], " of ", vf::quote(sent), " as bool");
  c.describe(what);
  Val got;
  dv::Outcome oc = parse_by(p, bool_id, sent, got, c);
  c.saw(vf::cat(path_name[p], " bool").c_str(), vf::hash_str(what));
  if (want < 0)
    c.check(!oc.ok, k_bool, [&] { return vf::cat(what, " gives ", dv::show(got)); });
  else
    c.check(oc.ok && got == Val::I(want), k_bool, [&] { return vf::cat(what, oc.ok ? " gives " + dv::show(got) : " throws " + oc.msg); });
}

// ---------------------------------------------------------------- numbers to text
static std::string scalar_text(const nd::array &a) { // array(<text>,\n      type="...")
  std::stringstream ss;
  ss << a;
  std::string s = ss.str();
  size_t e = s.rfind(",\n      type=");
  return s.compare(0, 6, "array(") == 0 && e != std::string::npos ? s.substr(6, e - 6) : "unexpected: " + s;
}
static void print(Ctx &c) {
  static const type_id_t ids[] = {int8_id, int16_id, int32_id, int64_id, int128_id, uint8_id, uint16_id, uint32_id, uint64_id, uint128_id, float32_id, float64_id, float32_id, float64_id, bool_id,
                                  float16_id, complex_float32_id, complex_float64_id};
  type_id_t t = ids[c.rng.below(18)];
  ndt::type tp = dv::builtin(t);
  nd::array a = nd::empty(tp);
  size_t n = tp.get_data_size();
  bool flt = t == float32_id || t == float64_id, cplx = t == complex_float32_id || t == complex_float64_id;
  auto put_flt = [&](char *p, bool single) {
    double v = c.rng.chance(1, 3) ? (double)c.rng.range(-2000000000, 2000000000) / (c.rng.coin() ? 1 : 64) : rnd_double(c, single);
    if (single)
      *(float *)p = (float)v;
    else
      *(double *)p = v;
  };
  if (flt)
    put_flt(a.data(), t == float32_id);
  else if (cplx)
    put_flt(a.data(), t == complex_float32_id), put_flt(a.data() + n / 2, t == complex_float32_id);
  else if (t == bool_id)
    *a.data() = (char)c.rng.coin();
  else if (t == float16_id) {
    uint16_t u = (uint16_t)c.rng.next();
    if ((u & 0x7c00) == 0x7c00)
      u &= ~0x4000;
    memcpy(a.data(), &u, 2);
  } else {
    u128 r = ((u128)c.rng.next() << 64 | c.rng.next()) >> c.rng.below(128);
    if (c.rng.coin())
      r = 0 - r;
    if (c.rng.chance(1, 4))
      r = top(t) + c.rng.below(3) - 1;
    memcpy(a.data(), &r, n);
  }
  Val v = dv::read(a);
  bool json = !cplx && t != float16_id && c.rng.coin();
  std::string what = vf::cat(json ? "format_json" : "print", " of ", tp.str(), " ", dv::show(v));
  c.describe(what);
  std::string s;
  dv::Outcome oc = dv::attempt([&] { s = json ? format_json(a).as<std::string>() : scalar_text(a); });
  c.saw(vf::cat(json ? "format_json " : "print ", tp.str()).c_str(), dv::hash(v));
  if (!c.check(oc.ok, k_print, [&] { return what + " throws " + oc.msg; }))
    return;
  auto num = [&](const std::string &x, double w, bool single) {
    Dec d;
    return read_dec(x, d) && dv::same_double(single ? (double)strtof(x.c_str(), nullptr) : strtod(x.c_str(), nullptr), w);
  };
  bool ok;
  if (flt)
    ok = num(s, v.d, t == float32_id);
  else if (t == float16_id)
    ok = num(s, v.d, true);
  else if (t == bool_id)
    ok = s == (json ? (v.i ? "true" : "false") : (v.i ? "True" : "False"));
  else if (cplx) {
    size_t pl = s.find(" + ");
    ok = s.size() > 6 && s[0] == '(' && s.substr(s.size() - 2) == "j)" && pl != std::string::npos && num(s.substr(1, pl - 1), v.d, t == complex_float32_id) &&
         num(s.substr(pl + 3, s.size() - pl - 5), v.d2, t == complex_float32_id);
  } else {
    Dec d;
    u128 m = 0;
    ok = read_dec(s, d) && d.strict_int && magnitude(d, m) == Whole && (d.neg ? (i128)(0 - m) : (i128)m) == v.i && (s == "0" || (s[0] != '0' && s[0] != '+'));
  }
  c.check(ok, k_print, [&] { return vf::cat(what, " gives ", vf::quote(s)); });
  // and back through the library
  if (json && t != int128_id) {
    Val back;
    dv::Outcome o2 = dv::attempt([&] { back = dv::read(parse_json(tp, s, &eval::default_eval_context)); });
    c.check(o2.ok && (flt ? dv::same_double(back.d, v.d) : back == v), k_print, [&] { return vf::cat(what, " gives ", s, ", parsed back as ", o2.ok ? dv::show(back) : o2.msg); });
  }
}

static void to_string(Ctx &c) {
  type_id_t t = int32_id; // the one number type with an assignment to a string type
  ndt::type tp = dv::builtin(t);
  ag::FillOpts fo;
  ag::View src = ag::make_view(c, tp, ag::gen_shape(c, 2, 5), ag::gen_layout(c, true), fo);
  bool fixed = !c.rng.chance(1, 20);
  bool wide = c.rng.chance(1, 4);
  size_t cap = 1 + c.rng.below(14);
  ndt::type st = fixed ? ndt::type(vf::cat("fixed_string[", cap, ",'", wide ? "utf16" : c.rng.coin() ? "utf8" : "A", "']")) : ndt::type("string");
  ag::View dst = ag::make_view(c, st, src.shape, ag::Strided, fo);
  std::string what = vf::cat("assigning ", src.a.get_type().str(), " ", dv::show(dv::read(src.a)), " to ", st.str());
  c.describe(what);
  bool fit = true;
  Val want = dv::read(src.a);
  std::function<void(Val &)> conv = [&](Val &v) {
    if (v.k == Val::Seq) {
      for (Val &k : v.kids)
        conv(k);
      return;
    }
    bool neg = v.i < 0;
    std::string s = (neg ? "-" : "") + dec_u(neg ? 0 - (u128)v.i : (u128)v.i);
    fit = fit && (!fixed || s.size() <= cap);
    if (!fixed) {
      v = Val::S(s);
      return;
    }
    Val r;
    r.k = Val::Raw;
    for (size_t i = 0; i < cap; ++i) {
      r.s += i < s.size() ? s[i] : '\0';
      if (wide)
        r.s += '\0';
    }
    v = r;
  };
  conv(want);
  dv::Outcome oc = dv::attempt([&] { dst.a.assign(src.a); });
  c.saw(fixed ? "int to fixed_string" : "int to string", vf::hash_str(what));
  if (!fixed && !oc.ok && oc.cls.find("type_error") != std::string::npos)
    return; // there is no assignment to string
  if (!fit) {
    c.check(!oc.ok, k_tostr, [&] { return what + " does not fit and is accepted: " + dv::show(dv::read(dst.a)); });
    return;
  }
  c.check(oc.ok && dv::read(dst.a) == want, k_tostr, [&] { return vf::cat(what, oc.ok ? " gives " + dv::show(dv::read(dst.a)) : " throws " + oc.cls + " " + oc.msg); });
  if (!oc.ok)
    return;
  nd::array back = nd::empty(src.a.get_type().get_canonical_type());
  oc = dv::attempt([&] { back.assign(dst.a); });
  c.check(oc.ok && dv::read(back) == dv::read(src.a), k_tostr, [&] { return vf::cat(what, " and back ", oc.ok ? "gives " + dv::show(dv::read(back)) : "throws " + oc.cls + " " + oc.msg); });
}

// arrays of strings: each element as by itself; one that is not a number makes the whole throw
static void elements(Ctx &c) {
  static const type_id_t ids[] = {int8_id, int16_id, int32_id, int64_id, float32_id, float64_id, bool_id};
  type_id_t t = ids[c.rng.below(7)];
  bool opt = t != bool_id && c.rng.coin();
  ndt::type tp = opt ? ndt::make_type<ndt::option_type>(dv::builtin(t)) : dv::builtin(t);
  ag::View src = ag::make_view(c, ndt::type("string"), ag::gen_shape(c, 2, 6), ag::gen_layout(c, true), ag::FillOpts());
  bool bad = c.rng.chance(1, 4);
  std::vector<std::string> txt;
  std::map<std::string, Val> one;
  bool all = true;
  ag::each(src.shape, [&](const std::vector<intptr_t> &ix) {
    std::string s = t == bool_id ? (c.rng.coin() ? "true" : "0") : t == float32_id || t == float64_id ? flt_text(c, t == float32_id) : vf::cat(c.rng.range(-120, 120));
    if (bad && c.rng.chance(1, 6))
      s = junk(c, s);
    if (opt && c.rng.chance(1, 4))
      s = c.rng.coin() ? "NA" : "";
    reinterpret_cast<dynd::string *>(src.at(ix))->assign(s.data(), s.size());
  });
  Val sv = dv::read(src.a), want;
  std::string what = vf::cat("assigning ", src.a.get_type().str(), " ", dv::show(sv), " to elements of ", tp.str());
  c.describe(what);
  std::function<void(Val &)> conv = [&](Val &v) {
    if (v.k == Val::Seq) {
      for (Val &k : v.kids)
        conv(k);
      return;
    }
    Val r;
    all = parse_by(opt ? P_option : P_string, t, v.s, r, c).ok && all;
    v = r;
  };
  want = sv;
  conv(want);
  ag::View dst = ag::make_view(c, tp, src.shape, ag::Strided, ag::FillOpts());
  dv::Outcome oc = dv::attempt([&] { dst.a.assign(src.a); });
  c.saw(all ? "string array to numbers" : "string array with a bad element", vf::hash_str(what));
  if (!all)
    c.check(!oc.ok, k_elem, [&] { return what + " is accepted"; });
  else
    c.check(oc.ok && dv::show(dv::read(dst.a)) == dv::show(want), k_elem, [&] { return vf::cat(what, oc.ok ? " gives " + dv::show(dv::read(dst.a)) : " throws " + oc.msg); });
  c.check(dv::read(src.a) == sv, k_elem, [&] { return what + " changes the strings"; });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "S03",
                 "decimal texts near every type's limits, half way between neighbouring floating point numbers, in other spellings and mutated, on six parsing paths; every printed number "
                 "read back exactly",
                 {{"int-parse", 120000, 6000000, int_parse},
                  {"flt-parse", 120000, 6000000, flt_parse},
                  {"bool-parse", 20000, 500000, bool_parse},
                  {"print", 60000, 3000000, print},
                  {"to-string", 10000, 300000, to_string},
                  {"elements", 10000, 300000, elements}});
}
