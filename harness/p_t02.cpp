// T02: any text is either a type or a clean error.
#include "refgrammar.hpp"
#include <dynd/types/datashape_parser.hpp>
using namespace dynd;
using vf::Ctx;
using vf::Rng;

static bool valid_utf8(const std::string &s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
    if (!n || i + n > s.size())
      return false;
    uint32_t cp = n == 1 ? c : c & (0x3f >> (n - 1));
    for (int k = 1; k < n; ++k) {
      if ((s[i + k] & 0xc0) != 0x80)
        return false;
      cp = cp << 6 | (s[i + k] & 0x3f);
    }
    if ((n == 3 && cp < 0x800) || (n == 4 && cp < 0x10000) || cp > 0x10ffff || (cp >= 0xd800 && cp < 0xe000) ||
        cp == 0xfffe || cp == 0xffff)
      return false;
    i += n;
  }
  return true;
}

static void judge(Ctx &c, const std::string &text) {
  c.describe(text);
  // the text in a heap block of its own exact size
  std::unique_ptr<char[]> buf(new char[text.size()]);
  memcpy(buf.get(), text.data(), text.size());
  ndt::type t;
  auto o = dv::attempt([&] { t = type_from_datashape(buf.get(), buf.get() + text.size()); });
  c.check(memcmp(buf.get(), text.data(), text.size()) == 0, "text-modified", [&] { return text; });
  enum { acc, rej, unk } want = unk;
  tg::P tree;
  std::string why;
  try {
    rg::Ref r(text);
    tree = r.top();
    want = acc;
  } catch (const rg::Reject &e) {
    want = rej;
    why = e.why;
  } catch (const rg::Unknown &) {
  }
  if (want == acc)
    c.check(o.ok, "valid-text-refused", [&] { return o.cls + ": " + o.msg; });
  if (want == rej)
    c.check(!o.ok, "invalid-text-accepted", [&] { return "as " + t.str() + " although: " + why; });
  c.saw(o.ok ? "accepted" : "refused", vf::hash_str(o.ok ? text : o.msg));
  if (!o.ok) {
    // the error is about this text, and the library still works
    c.check(!o.msg.empty(), "empty-error", [&] { return o.cls; });
    std::string off = dv::misplaced(text, o.msg);
    c.check(off.empty(), "error-elsewhere", [&] { return off + ": " + o.msg; });
    if (c.idx % 16 == 0)
      c.check(ndt::type("{x: 3 * ?int32, y: (string) -> T}").str() == "{x: 3 * ?int32, y: (string) -> T}",
              "library-unusable-after-error", [&] { return text; });
    return;
  }
  if (want == acc) {
    std::string d = tg::diff(tree, t);
    c.check(d.empty(), "text-means-another-type", [&] { return "parsed as " + t.str() + ": " + d; });
  }
  if (!valid_utf8(text))
    return; // printing a field name that is not UTF-8 is not promised
  std::string p;
  ndt::type u;
  auto o2 = dv::attempt([&] {
    p = t.str();
    u = ndt::type(p);
  });
  if (c.check(o2.ok, "accepted-type-does-not-reparse", [&] { return "prints " + p + ": " + o2.msg; }))
    c.check(u == t, "accepted-type-changes", [&] { return "prints " + p + ", that is " + u.str(); });
}

static const char *tokens[] = {"*", "**", "...", "(", ")", "{", "}", "[", "]", ",", ":", "->", "?", "=", "#", "\n", " ",
  "'", "\"", "\\", "\\u0041", "\\U0001F600", "0", "1", "3", "00", "-1", "255", "4294967297", "9223372036854775808", "1e5", "int32", "float64", "complex",
  "string", "var", "Fixed", "fixed", "fixed[3]", "Dim", "Dims", "N", "T", "M", "type", "type X =", "type Y =", "x:", "y :", "_z:",
  "pointer", "option", "bytes", "char", "fixed_string", "fixed_bytes", "align", "align=4", "'utf8'", "\"utf-16\"", "Any", "Scalar",
  "Int", "void", "foo", "{x: int32}", "()", "State", "categorical", "memory", "tuple", "callable", "@", "$", ";", "\x00\x01", "\xff", "\xc3\xa9",
  "int", "real", "3 * ", "?int32", "T[", "pointer[", "-", ">", ".", ".."};

static std::string tok(Rng &r) { return tokens[r.below(sizeof(tokens) / sizeof(*tokens))]; }

static std::string mutated(Ctx &c) {
  Rng &r = c.rng;
  tg::GenOpts o;
  o.symbolic = r.chance(2, 3);
  std::string s = tg::spell(tg::gen(r, 1 + r.below(4), o), r, r.below(3) ? 1 : 0);
  for (int n = r.below(4); n > 0; --n) {
    size_t i = r.below(s.size() + 1), len = r.below(std::min<size_t>(8, s.size() - i + 1));
    switch (r.below(9)) {
    case 0:
      s = s.substr(0, i);
      break;
    case 1:
      s.erase(i, 1);
      break;
    case 2:
      s.erase(i, len);
      break;
    case 3:
      s.insert(i, tok(r));
      break;
    case 4:
      s.insert(i, s.substr(r.below(s.size() + 1), len));
      break;
    case 5:
      if (i < s.size())
        s[i] = (char)r.below(256);
      break;
    case 6:
      s += tg::spell(tg::gen(r, 2, o), r, 1);
      break;
    case 7: { // a bracket replaced or dropped
      size_t p = s.find_first_of("()[]{},:*", i);
      if (p != std::string::npos)
        s[p] = "()[]{},:* "[r.below(10)];
      break;
    }
    default: { // a number changed
      size_t p = s.find_first_of("0123456789", i);
      if (p != std::string::npos)
        s.insert(p, std::to_string(r.next() >> r.below(64)));
    }
    }
    if (s.size() > 4000)
      s.resize(4000);
  }
  return s;
}
static void mutations(Ctx &c) {
  std::string s = mutated(c);
  c.sample(s);
  judge(c, s);
}
static void soup(Ctx &c) {
  std::string s;
  for (int n = 1 + c.rng.below(12); n > 0; --n) {
    s += tok(c.rng);
    if (c.rng.chance(1, 3))
      s += " ";
  }
  c.sample(s);
  judge(c, s);
}
// every prefix of a valid text
static void prefixes(Ctx &c) {
  tg::GenOpts o;
  std::string s = tg::spell(tg::gen(c.rng, 1 + c.rng.below(3), o), c.rng, 1);
  if (s.size() > 300)
    s.resize(300);
  c.sample(s);
  for (size_t i = 0; i <= s.size(); ++i)
    judge(c, s.substr(0, i));
}
// long and deep texts
static void depth(Ctx &c) {
  static const char *shapes[] = {"(|)", "{x:|}", "T[|]", "?(|)", "pointer[|]", "()->|", "(x:|)->int32", "2**9*|", "1*|", "...*|",
                                 "complex[|]", "?|", "option[|]", "#\n|", "(int32,|)", "'|", "\"\\|", "[|", "[|]", "M**N*|", "fixed[2]*|",
                                 "type X = |", "(((|", "{\"a\":|", "char[|]", "{x:int8,y:|}", " |", "foo[|]", "adapt[|]", "tuple[|]", "int32 |"};
  const size_t ns = sizeof(shapes) / sizeof(*shapes);
  std::string sh = shapes[c.idx % ns], a = sh.substr(0, sh.find('|')), b = sh.substr(a.size() + 1);
  static const size_t counts[] = {3, 60, 200, 255, 256, 257, 1000, 20000, 100000};
  size_t n = counts[(c.idx / ns) % 9];
  std::string s;
  for (size_t i = 0; i < n; ++i)
    s += a;
  s += "int32";
  for (size_t i = 0; i < n; ++i)
    s += b;
  c.describe(vf::cat(sh, " nested ", n));
  std::unique_ptr<char[]> buf(new char[s.size()]);
  memcpy(buf.get(), s.data(), s.size());
  ndt::type t;
  auto o = dv::attempt([&] { t = type_from_datashape(buf.get(), buf.get() + s.size()); });
  if (o.ok) {
    std::string p = t.str();
    c.check(ndt::type(p) == t, "accepted-type-changes", [&] { return p.substr(0, 200); });
    std::map<std::string, ndt::type> v;
    t.match(t, v);
  }
  c.check(ndt::type("3 * int32").str() == "3 * int32", "library-unusable-after-error", [&] { return sh; });
  c.saw("depth", vf::mix(c.idx, o.ok));
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "T02",
                 "texts made by mutating generated type expressions, token soup, all prefixes of valid texts, and deep or long "
                 "texts, each in an exact-size heap block; an independent recogniser says whether each is valid and what it "
                 "denotes; distinct = distinct accepted texts and distinct error messages",
                 {{"mutations", 20000, 1500000, mutations}, {"soup", 20000, 1500000, soup}, {"prefixes", 150, 10000, prefixes},
                  {"depth", 31 * 9, 31 * 9, depth}});
}
