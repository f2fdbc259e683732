// J02: arbitrary and damaged JSON text into arrays of any type: accepted only with its meaning, refused without a trace.
#include "jsonref.hpp"
#include <dynd/callable.hpp>
#include <dynd/eval/eval_context.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/parse.hpp>
using namespace dynd;
using dv::Val;
using vf::Ctx;

static const char *k_place = "the error for a refused text does not name its place there";
static const char *k_invalid = "text that is not valid JSON is accepted";
static const char *k_unfit = "JSON text that does not fit the type is accepted";
static const char *k_wrong = "accepted JSON text has another value";
static const char *k_refused = "JSON text that fits the type is refused";
static const char *k_leak = "memory is not given back after a refused parse";
static const char *k_validate = "validate_json does not tell valid JSON from invalid";
static const char *k_deep = "deeply nested JSON is neither parsed nor refused";
static const char *k_kind = "something other than an exception of the library is thrown";

static std::string damage(Ctx &c, std::string s) {
  static const char *tok[] = {"{", "}", "[", "]", ",", ":", "\"", "null", "true", "false", "nul", "-", "0", "1e", ".", "\\", "\\u12", "\\ud800", "\\udc00", "\\x", "\xff", "\xc0\x80", "\xed\xa0\x80",
                              "\v", "\f", "//", "/**/", "'", "NaN", "Infinity", "NA", "None", "\"NA\"", "\"\"", "1.5", "300", "-1", "1e400", "99999999999999999999", "00", "0x1", "\n", "\x01",
                              "\xef\xbb\xbf", "\\U0001F600", "\\Uffffffff"};
  auto at = [&] { return c.rng.below(s.size() + 1); };
  for (int n = 1 + (int)c.rng.below(3); n-- > 0;)
    switch (c.rng.below(8)) {
    case 0: s.insert(at(), 1, (char)c.rng.next()); break;
    case 1:
      if (!s.empty())
        s.erase(c.rng.below(s.size()), 1 + c.rng.below(3));
      break;
    case 2:
      if (!s.empty())
        s[c.rng.below(s.size())] = (char)c.rng.next();
      break;
    case 3: s = s.substr(0, at()); break;
    case 4: {
      size_t b = at(), e = std::min(s.size(), b + c.rng.below(20));
      s.insert(at(), s.substr(b, e - b));
      break;
    }
    case 5: { // a token in place of another
      std::vector<size_t> p;
      for (size_t i = 0; i < s.size(); ++i)
        if (strchr("{}[],:\"", s[i]) && s[i])
          p.push_back(i);
      if (!p.empty())
        s.replace(p[c.rng.below(p.size())], 1, tok[c.rng.below(sizeof tok / sizeof *tok)]);
      break;
    }
    default: s.insert(at(), tok[c.rng.below(sizeof tok / sizeof *tok)]);
    }
  return s;
}

static void judge(Ctx &c, const ndt::type &tp, const std::string &s, const char *tag) {
  std::string what = vf::cat("JSON ", vf::quote(s), " as ", tp.str());
  c.describe(what);
  js::J j;
  bool ctl = false, valid = js::parse(s, j, &ctl);
  js::Meaning m;
  if (valid)
    m = js::meaning(j, tp);
  Val b;
  bool ok = false, know = true;
  std::string err;
  size_t h0 = 0, h1 = 0;
  for (int turn = 0; turn < 2; ++turn) { // the first may fill caches
    h0 = vf::heap_bytes();
    {
      std::unique_ptr<char[]> buf(new char[s.size()]);
      memcpy(buf.get(), s.data(), s.size());
      try {
        nd::array a = parse_json(tp, buf.get(), buf.get() + s.size(), &eval::default_eval_context);
        ok = true;
        if (turn == 0)
          b = dv::read(a);
      } catch (const std::exception &e) {
        if (turn == 0)
          err = e.what();
      } catch (const dynd::dynd_exception &e) {
        if (turn == 0)
          err = e.what();
      } catch (...) {
        know = false;
      }
    }
    h1 = vf::heap_bytes();
  }
  c.saw(vf::cat(tag, valid ? m.f == js::No ? " valid, does not fit" : " valid, fits" : " invalid", ok ? " accepted" : " refused").c_str(), vf::hash_str(what));
  c.check(know, k_kind, [&] { return what; });
  c.check(h1 == h0, k_leak, [&] { return vf::cat(what, ok ? " accepted" : " refused", " leaves ", (long)(h1 - h0), " bytes"); });
  if (!ok) {
    std::string off = dv::misplaced(s, err);
    c.check(off.empty(), k_place, [&] { return vf::cat(what, ": ", off, ": ", err); });
  }
  if (!valid)
    c.check(!ok, k_invalid, [&] { return vf::cat(what, " gives ", dv::show(b)); });
  else if (m.f == js::No)
    c.check(!ok, k_unfit, [&] { return vf::cat(what, " gives ", dv::show(b)); });
  else if (m.f == js::Yes && !ok && !ctl)
    c.check(false, k_refused, [&] { return what + ": " + err; });
  else if (ok && m.f != js::Any)
    c.check(b == m.v, k_wrong, [&] { return vf::cat(what, " gives ", dv::show(b), " instead of ", dv::show(m.v)); });
  else
    c.check(true, k_wrong, [&] { return what; });
}

static void damaged(Ctx &c) {
  ndt::type tp = js::gen_type(c, true);
  nd::array a = ag::filled(c, tp);
  if (c.rng.chance(1, 3))
    js::widen(c, a, false);
  std::string s = js::ws(c) + js::spell(c, tp, a.get()->metadata(), a.cdata()) + js::ws(c);
  if (s.size() > 3000)
    return;
  s = damage(c, s);
  judge(c, tp, s, "damaged");
}
static void other(Ctx &c) { // valid JSON of another type, or of none
  ndt::type tp = js::gen_type(c, true);
  std::string s;
  if (c.rng.coin())
    s = js::spell_any(c);
  else {
    ndt::type t2 = js::gen_type(c, true);
    nd::array a = ag::filled(c, t2);
    s = js::spell(c, t2, a.get()->metadata(), a.cdata());
  }
  judge(c, tp, s, "other type");
}
static void unsupported(Ctx &c) { // types JSON text cannot be parsed into have to be refused as cleanly
  static const char *tn[] = {"bytes", "int128", "float16", "complex[float64]", "char", "fixed_bytes[4]", "?string", "?3 * int32", "?{x: int32}", "pointer[int32]", "?complex[float32]",
                             "?uint32", "2 * pointer[var * string]", "{a: bytes, b: var * int128}", "var * (string, ?bytes)", "option[var * int32]", "?type", "?fixed_string[4]", "void"};
  ndt::type tp(tn[c.rng.below(sizeof tn / sizeof *tn)]);
  std::string s = js::spell_any(c);
  if (c.rng.chance(1, 3))
    s = damage(c, s);
  std::string what = vf::cat("JSON ", vf::quote(s), " as ", tp.str());
  c.describe(what);
  size_t h0 = 0, h1 = 0;
  for (int turn = 0; turn < 2; ++turn) {
    h0 = vf::heap_bytes();
    {
      std::unique_ptr<char[]> buf(new char[s.size()]);
      memcpy(buf.get(), s.data(), s.size());
      dv::attempt([&] { parse_json(tp, buf.get(), buf.get() + s.size(), &eval::default_eval_context); });
    }
    h1 = vf::heap_bytes();
  }
  c.saw("unsupported type", vf::hash_str(what));
  c.check(h1 == h0, k_leak, [&] { return vf::cat(what, " leaves ", (long)(h1 - h0), " bytes"); });
}
static void noise(Ctx &c) {
  ndt::type tp = js::gen_type(c, true);
  static const char al[] = "{}[]\",:0123456789.eE+-truefalsnl \\u/\n\"\"[]{}";
  std::string s;
  bool any = c.rng.chance(1, 4);
  for (size_t n = c.rng.below(30); n-- > 0;)
    s += any ? (char)c.rng.next() : al[c.rng.below(sizeof al - 1)];
  judge(c, tp, s, "noise");
}
static void validate(Ctx &c) {
  std::string s = js::ws(c) + js::spell_any(c) + js::ws(c);
  if (c.rng.chance(2, 3))
    s = damage(c, s);
  c.describe("validate_json " + vf::quote(s));
  js::J j;
  bool ctl = false, valid = js::parse(s, j, &ctl);
  std::unique_ptr<char[]> buf(new char[s.size()]);
  memcpy(buf.get(), s.data(), s.size());
  dv::Outcome oc = dv::attempt([&] { validate_json(buf.get(), buf.get() + s.size()); });
  c.saw(valid ? "validate: valid" : "validate: invalid", vf::hash_str(s));
  if (ctl && !oc.ok)
    return;
  if (!oc.ok) {
    std::string off = dv::misplaced(s, oc.msg);
    c.check(off.empty(), k_place, [&] { return vf::cat(vf::quote(s), ": ", off, ": ", oc.msg); });
  }
  c.check(oc.ok == valid, k_validate, [&] { return vf::cat(vf::quote(s), oc.ok ? " is accepted" : " is refused: " + oc.msg); });
}
static void second(Ctx &c) { // nd::json::parse
  static const char *tn[] = {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "string", "?int32", "?int64", "?int8", "?bool", "3 * int32", "var * int32",
                             "{a: int32, b: string}", "var * ?int64", "float64", "(int32, int32)"};
  ndt::type tp(tn[c.rng.below(20)]);
  std::string s;
  if (c.rng.coin()) {
    nd::array a = ag::filled(c, tp);
    s = js::spell(c, tp, a.get()->metadata(), a.cdata());
  } else
    s = js::spell_any(c);
  if (c.rng.coin())
    s = damage(c, s);
  std::string what = vf::cat("nd::json::parse of ", vf::quote(s), " as ", tp.str());
  c.describe(what);
  js::J j;
  bool ctl = false, valid = js::parse(s, j, &ctl);
  js::Meaning m;
  if (valid)
    m = js::meaning(j, tp);
  std::unique_ptr<char[]> buf(new char[s.size()]);
  memcpy(buf.get(), s.data(), s.size());
  Val b;
  dv::Outcome oc = dv::attempt([&] { b = dv::read(nd::json::parse(tp, buf.get(), buf.get() + s.size())); });
  c.saw(vf::cat("nd::json::parse", valid ? m.f == js::No ? " valid, does not fit" : " valid, fits" : " invalid", oc.ok ? " accepted" : " refused").c_str(), vf::hash_str(what));
  if (!valid)
    c.check(!oc.ok, k_invalid, [&] { return vf::cat(what, " gives ", dv::show(b)); });
  else if (m.f == js::No)
    c.check(!oc.ok, k_unfit, [&] { return vf::cat(what, " gives ", dv::show(b)); });
  else if (oc.ok && m.f != js::Any)
    c.check(b == m.v, k_wrong, [&] { return vf::cat(what, " gives ", dv::show(b), " instead of ", dv::show(m.v)); });
}
static void deep(Ctx &c) {
  static const size_t depth[] = {50, 400, 3000, 50000, 1000000};
  size_t n = depth[c.idx % 5];
  int shape = (int)(c.idx / 5 % 4);
  std::string open, close, mid = c.idx / 20 % 2 ? "1" : "";
  for (size_t i = 0; i < n; ++i)
    open += shape == 0 ? "[" : shape == 1 ? "{\"a\":" : i % 2 ? "[" : "{\"q\":", close += shape == 0 ? "]" : shape == 1 ? "}" : (n - 1 - i) % 2 ? "]" : "}";
  if (shape != 0 && mid.empty())
    mid = "null";
  std::string s = open + mid + (shape == 3 ? "" : close);
  std::string what = vf::cat(n, " levels of shape ", shape);
  c.describe(what);
  dv::Outcome v = dv::attempt([&] { validate_json(s.data(), s.data() + s.size()); });
  std::string t = "{\"extra\":" + s + ",\"x\":7}";
  Val b;
  dv::Outcome p = dv::attempt([&] { b = dv::read(parse_json(ndt::type("{x: int32}"), t, &eval::default_eval_context)); });
  dv::Outcome q = dv::attempt([&] { parse_json(ndt::type("var * var * int32"), s, &eval::default_eval_context); });
  c.saw("deep", c.idx);
  if (shape == 3)
    c.check(!v.ok && !p.ok, k_deep, [&] { return what + " is accepted without its end"; });
  else if (n <= 400)
    c.check(v.ok && p.ok && b == Val::L({Val::I(7)}), k_deep, [&] { return what + ": " + v.msg + p.msg; });
  c.check(!q.ok, k_deep, [&] { return what + " is accepted as var * var * int32"; });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "J02",
                 "valid text damaged in one to three places, text of another type, noise, and nesting up to a million deep, from buffers of the exact size, into types nested up to four "
                 "levels; verdict and value from a strict reader, memory accounted for before and after",
                 {{"damaged", 40000, 2000000, damaged},
                  {"other", 14000, 600000, other},
                  {"unsupported", 6000, 200000, unsupported},
                  {"noise", 14000, 600000, noise},
                  {"validate", 20000, 800000, validate},
                  {"second", 12000, 400000, second},
                  {"deep", 40, 40, deep}});
}
