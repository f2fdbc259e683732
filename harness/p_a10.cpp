// A10: the text an array prints as shows its elements, in order and nested as in its type, and the type.
#include "arrgen.hpp"
#include "dv.hpp"
#include "vf.hpp"
#include <dynd/callable.hpp>
#include <dynd/io.hpp>
#include <dynd/pointer.hpp>
#include <iomanip>
#include <sstream>
using namespace dynd;
using vf::Ctx;
using dv::Val;
using dv::i128;
using dv::u128;

// ---- what is expected: the elements, read from memory here --------------------------------------------------------------
enum Kind { List, Exact, Text, Float, Double, CFloat, CDouble, Hex };
struct Exp {
  Kind k = Exact;
  std::string s; // Exact: the token; Text: the utf-8 contents; Hex: the bytes
  double re = 0, im = 0;
  bool rec = false; // a tuple or struct: nothing may be left out
  std::vector<Exp> kids;
};
static void put_utf8(std::string &s, uint32_t c) {
  if (c < 0x80)
    s += (char)c;
  else if (c < 0x800)
    s += (char)(0xc0 | c >> 6), s += (char)(0x80 | (c & 63));
  else if (c < 0x10000)
    s += (char)(0xe0 | c >> 12), s += (char)(0x80 | (c >> 6 & 63)), s += (char)(0x80 | (c & 63));
  else
    s += (char)(0xf0 | c >> 18), s += (char)(0x80 | (c >> 12 & 63)), s += (char)(0x80 | (c >> 6 & 63)), s += (char)(0x80 | (c & 63));
}
static std::string dec(i128 v, bool uns) {
  u128 u = uns || v >= 0 ? (u128)v : (u128)0 - (u128)v;
  std::string s;
  do
    s.insert(s.begin(), (char)('0' + (int)(u % 10))), u /= 10;
  while (u);
  return !uns && v < 0 ? "-" + s : s;
}
static Exp expect(const ndt::type &tp, const char *md, const char *p) {
  Exp e;
  switch (tp.get_id()) {
  case fixed_dim_id: {
    auto m = reinterpret_cast<const fixed_dim_type_arrmeta *>(md);
    e.k = List;
    for (intptr_t i = 0; i < m->dim_size; ++i)
      e.kids.push_back(expect(tp.extended<ndt::base_dim_type>()->get_element_type(), md + sizeof(*m), p + i * m->stride));
    return e;
  }
  case var_dim_id: {
    auto m = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(md);
    auto d = reinterpret_cast<const ndt::var_dim_type::data_type *>(p);
    e.k = List;
    for (size_t i = 0; i < d->size; ++i)
      e.kids.push_back(expect(tp.extended<ndt::base_dim_type>()->get_element_type(), md + sizeof(*m), d->begin + m->offset + (intptr_t)i * m->stride));
    return e;
  }
  case tuple_id:
  case struct_id: {
    e.k = List;
    e.rec = true;
    auto off = reinterpret_cast<const uintptr_t *>(md);
    auto fields = [&](auto *t) {
      for (intptr_t i = 0; i < t->get_field_count(); ++i)
        e.kids.push_back(expect(t->get_field_type(i), md + t->get_arrmeta_offsets_raw()[i], p + off[i]));
    };
    if (tp.get_id() == tuple_id)
      fields(tp.extended<ndt::tuple_type>());
    else
      fields(tp.extended<ndt::struct_type>());
    return e;
  }
  case pointer_id: {
    auto m = reinterpret_cast<const pointer_type_arrmeta *>(md);
    return expect(tp.extended<ndt::pointer_type>()->get_target_type(), md + sizeof(*m), *reinterpret_cast<const char *const *>(p) + m->offset);
  }
  case option_id: {
    const ndt::type &vt = tp.extended<ndt::option_type>()->get_value_type();
    if (vt.is_builtin() && dv::na_bits(vt.get_id(), p)) {
      e.s = "NA";
      return e;
    }
    return expect(vt, md, p);
  }
  case bool_id:
    e.s = *p ? "True" : "False";
    return e;
  case float16_id:
  case float32_id:
    e.k = Float;
    e.re = dv::read(tp, md, p).d;
    return e;
  case float64_id:
    e.k = Double;
    e.re = dv::read(tp, md, p).d;
    return e;
  case complex_float32_id: {
    float v[2];
    memcpy(v, p, 8);
    e.k = CFloat, e.re = v[0], e.im = v[1];
    return e;
  }
  case complex_float64_id: {
    double v[2];
    memcpy(v, p, 16);
    e.k = CDouble, e.re = v[0], e.im = v[1];
    return e;
  }
  case string_id: {
    e.k = Text;
    e.s = dv::read(tp, md, p).s;
    return e;
  }
  case fixed_string_id: {
    e.k = Text;
    size_t n = tp.get_data_size();
    int w = tp.extended<ndt::fixed_string_type>()->get_encoding() == string_encoding_utf_16 ? 2
            : tp.extended<ndt::fixed_string_type>()->get_encoding() == string_encoding_utf_32 ? 4 : 1;
    for (size_t i = 0; i + w <= n; i += w) {
      uint32_t u = 0;
      memcpy(&u, p + i, w);
      if (!u)
        break;
      if (w == 1)
        e.s += (char)u;
      else if (w == 2 && u >= 0xd800 && u < 0xdc00 && i + 4 <= n) {
        uint16_t lo;
        memcpy(&lo, p + i + 2, 2);
        i += 2;
        put_utf8(e.s, 0x10000 + ((u & 0x3ff) << 10) + (lo & 0x3ff));
      } else
        put_utf8(e.s, u);
    }
    return e;
  }
  case char_id: {
    e.k = Text;
    uint32_t u = 0;
    memcpy(&u, p, tp.get_data_size());
    put_utf8(e.s, u);
    return e;
  }
  case bytes_id:
  case fixed_bytes_id:
    e.k = Hex;
    e.s = dv::read(tp, md, p).s;
    return e;
  case type_id:
    e.s = reinterpret_cast<const ndt::type *>(p)->str();
    return e;
  default: {
    Val v = dv::read(tp, md, p);
    type_id_t id = tp.get_id();
    e.s = dec(v.i, id == uint8_id || id == uint16_id || id == uint32_id || id == uint64_id || id == uint128_id);
    return e;
  }
  }
}

// ---- what is read from the text -------------------------------------------------------------------------------------------
struct Got {
  bool list = false, quoted = false;
  std::string tok;
  std::vector<Got> kids;
  intptr_t gap = -1; // "..." stands before this one
};
struct Reader {
  const std::string &s;
  size_t i;
  std::string why;
  Reader(const std::string &s) : s(s), i(0) {}
  bool fail(const std::string &w) {
    if (why.empty())
      why = vf::cat(w, " at ", i, ": ", vf::quote(s.substr(i, 30)));
    return false;
  }
  void ws() {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\n'))
      ++i;
  }
  bool hexes(int n, uint32_t &cp) {
    cp = 0;
    for (int k = 0; k < n; ++k, ++i) {
      if (i >= s.size() || !isxdigit((unsigned char)s[i]))
        return fail("no code");
      cp = cp * 16 + (uint32_t)strtoul(std::string(1, s[i]).c_str(), nullptr, 16);
    }
    return true;
  }
  bool item(Got &g) {
    ws();
    if (i >= s.size())
      return fail("no value");
    if (s[i] == '[') {
      g.list = true;
      ++i;
      ws();
      if (i < s.size() && s[i] == ']') {
        ++i;
        return true;
      }
      for (;;) {
        g.kids.emplace_back();
        if (!item(g.kids.back()))
          return false;
        size_t nl = i;
        ws();
        if (i < s.size() && s[i] == ']') {
          ++i;
          return true;
        }
        if (i >= s.size() || s[i] != ',')
          return i = nl, fail("no separator");
        ++i;
        size_t k = i;
        ws();
        if (s.compare(i, 3, "...") == 0) {
          if (s.find('\n', k) > i || g.gap >= 0)
            return fail("misplaced ellipsis");
          i += 3;
          g.gap = g.kids.size();
          if (i >= s.size() || s[i] != '\n')
            return fail("text after the ellipsis");
          ws();
          if (i < s.size() && s[i] == ']') {
            ++i;
            return true;
          }
        }
      }
    }
    if (s[i] == '"') {
      g.quoted = true;
      for (++i;;) {
        if (i >= s.size())
          return fail("unfinished string");
        unsigned char ch = s[i++];
        if (ch == '"')
          return true;
        if (ch < 0x20 || ch >= 0x7f)
          return fail("raw character in a string");
        if (ch != '\\') {
          g.tok += ch;
          continue;
        }
        uint32_t cp;
        switch (i < s.size() ? s[i++] : 0) {
        case 'b': g.tok += '\b'; break;
        case 'f': g.tok += '\f'; break;
        case 'n': g.tok += '\n'; break;
        case 'r': g.tok += '\r'; break;
        case 't': g.tok += '\t'; break;
        case '\\': g.tok += '\\'; break;
        case '"': g.tok += '"'; break;
        case 'u':
          if (!hexes(4, cp))
            return false;
          put_utf8(g.tok, cp);
          break;
        case 'U':
          if (!hexes(8, cp))
            return false;
          put_utf8(g.tok, cp);
          break;
        default:
          return fail("unknown escape");
        }
      }
    }
    size_t b = i;
    if (s[i] == '(') {
      while (i < s.size() && s[i] != ')')
        ++i;
      ++i;
    } else
      while (i < s.size() && s[i] != ',' && s[i] != ']' && s[i] != '\n' && s[i] != '[')
        ++i;
    if (i > s.size())
      return fail("unfinished value");
    size_t e = i;
    while (e > b && s[e - 1] == ' ')
      --e;
    if (e == b)
      return fail("no value");
    g.tok = s.substr(b, e - b);
    return true;
  }
};

static bool number(const std::string &t, double want, bool narrow) {
  char *end;
  double v = narrow ? strtof(t.c_str(), &end) : strtod(t.c_str(), &end);
  return !t.empty() && !*end && (dv::same_double(v, want) || (std::isnan(v) && std::isnan(want)));
}
static std::string hex_of(const std::string &s) {
  static const char d[] = "0123456789abcdef";
  std::string r;
  for (unsigned char ch : s)
    r += d[ch >> 4], r += d[ch & 15];
  return r;
}
// the widest text any element below prints as; used only to say when nothing may be left out
static bool match(const Exp &e, const Got &g, std::string &why, size_t &shown, size_t &gaps) {
  auto no = [&](const std::string &w) {
    if (why.empty())
      why = w;
    return false;
  };
  if (e.k == List) {
    if (!g.list)
      return no("a value instead of a list: " + g.tok);
    size_t n = e.kids.size(), m = g.kids.size(), first = g.gap < 0 ? m : g.gap;
    if (g.gap < 0 && m != n)
      return no(vf::cat(m, " elements instead of ", n));
    if (g.gap >= 0) {
      ++gaps;
      if (e.rec)
        return no("a field is left out");
      if (m >= n)
        return no(vf::cat("an ellipsis and ", m, " of ", n));
      if (n <= 2)
        return no(vf::cat(m, " of ", n, " elements"));
      if (first == 0 || first == m)
        return no("the ellipsis is at an end");
    }
    for (size_t i = 0; i < m; ++i) {
      const Exp &x = e.kids[i < first ? i : n - (m - i)];
      if (!match(x, g.kids[i], why, shown, gaps))
        return why = vf::cat("[", i < first ? i : n - (m - i), "]", why[0] == '[' ? "" : " ", why), false;
    }
    return true;
  }
  ++shown;
  if (g.list)
    return no("a list instead of a value");
  if (g.quoted != (e.k == Text))
    return no(g.quoted ? "quoted" : "not quoted");
  switch (e.k) {
  case Exact:
    return g.tok == e.s || no(vf::cat(g.tok, " instead of ", e.s));
  case Text:
    return g.tok == e.s || no(vf::cat(vf::quote(g.tok), " instead of ", vf::quote(e.s)));
  case Float:
  case Double:
    return number(g.tok, e.re, e.k == Float) || no(vf::cat(g.tok, " instead of ", std::setprecision(17), e.re));
  case CFloat:
  case CDouble: {
    size_t mid = g.tok.find(" + ");
    bool ok = g.tok.size() > 6 && g.tok[0] == '(' && mid != std::string::npos && g.tok.compare(g.tok.size() - 2, 2, "j)") == 0 &&
              number(g.tok.substr(1, mid - 1), e.re, e.k == CFloat) && number(g.tok.substr(mid + 3, g.tok.size() - mid - 5), e.im, e.k == CFloat);
    return ok || no(vf::cat(g.tok, " instead of ", e.re, ",", e.im));
  }
  case Hex: {
    if (e.s.empty())
      return g.tok == "NULL" || no(g.tok + " instead of no bytes");
    std::string h = hex_of(e.s);
    size_t dots = g.tok.find(" ... ");
    if (dots == std::string::npos)
      return g.tok == h || no(vf::cat(g.tok, " instead of ", h));
    std::string a = g.tok.substr(0, dots), b = g.tok.substr(dots + 5);
    return (e.s.size() > 30 && a.size() > 8 && !b.empty() && a.size() + b.size() < h.size() && h.compare(0, a.size(), a) == 0 &&
            h.compare(h.size() - b.size(), b.size(), b) == 0) ||
           no(vf::cat(g.tok, " instead of ", h));
  }
  default:
    return true;
  }
}

static void judge(Ctx &c, const nd::array &a, const std::string &what) {
  c.describe(what);
  Exp e = expect(a.get_type(), a.get()->metadata(), a.cdata());
  Val before = dv::read(a);
  std::ostringstream ss;
  auto o = dv::attempt([&] { ss << a; });
  if (!c.check(o.ok, "print-threw", [&] { return vf::cat(what, ": ", o.msg); }))
    return;
  std::string t = ss.str();
  c.check(dv::read(a) == before, "print-changed", [&] { return what; });
  std::string tail = ",\n      type=\"" + a.get_type().str() + "\")";
  bool frame = t.size() >= 6 + tail.size() && t.compare(0, 6, "array(") == 0 && t.compare(t.size() - tail.size(), tail.size(), tail) == 0;
  if (!c.check(frame, "print-frame", [&] { return vf::cat(what, ": ", vf::quote(t.substr(0, 300))); }))
    return;
  std::string body = t.substr(6, t.size() - 6 - tail.size());
  Reader r(body);
  Got g;
  bool read = r.item(g) && (r.ws(), r.i == body.size() || r.fail("text behind the value"));
  if (!c.check(read, "print-syntax", [&] { return vf::cat(what, ": ", r.why, " of ", vf::quote(body.substr(0, 600))); }))
    return;
  std::string why;
  size_t shown = 0, gaps = 0;
  c.check(match(e, g, why, shown, gaps), "print-value", [&] { return vf::cat(what, ": ", why, " in ", vf::quote(body.substr(0, 600))); });
  // a short list of short values is shown whole
  if (e.k == List && !e.rec && e.kids.size() <= 10) {
    bool flat = true;
    for (auto &k : g.kids)
      flat &= !k.list && k.tok.size() <= 24;
    c.check(!flat || g.gap < 0, "print-short", [&] { return vf::cat(what, ": ", vf::quote(body)); });
  }
  // printing again, to a stream of another width, gives the same text
  if (c.rng.chance(1, 4)) {
    std::ostringstream s2;
    s2 << "x" << a << 7;
    c.check(s2.str() == "x" + t + "7", "print-again", [&] { return what; });
  }
  c.saw("text", vf::hash_str(t));
  c.saw(gaps ? "shortened" : "whole", vf::mix(e.kids.size(), shown));
  if (c.rng.chance(1, 50))
    c.sample(vf::cat(what, " prints ", t.substr(0, 200)));
}

static const char *const leaves[] = {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64",
                                     "complex[float32]", "complex[float64]", "int128", "uint128", "float16", "?int32", "?float64", "?bool",
                                     "fixed_bytes[6, align=2]", "fixed_string[7]", "fixed_string[3, 'utf16']", "fixed_string[2, 'utf32']", "char", "{x: int32, y: float64}",
                                     "(int8, bool)", "string", "bytes"};
// one dimension of any length and layout
static void flat(Ctx &c) {
  ag::FillOpts fo;
  fo.small = c.rng.chance(1, 3);
  fo.ascii = c.rng.coin();
  std::string el = leaves[c.rng.below(26)];
  intptr_t n = c.rng.coin() ? c.rng.below(30) : c.rng.below(130);
  ag::View v = ag::make_view(c, ndt::type(el), {n}, ag::gen_layout(c, true), fo, 0);
  judge(c, v.a, v.str());
}
// lengths of one dimension, one after the other, of values of one width
static void widths(Ctx &c) {
  intptr_t n = c.idx % 131;
  int w = 1 + (int)c.rng.below(9);
  nd::array a = nd::empty(ndt::type(vf::cat(n, " * int32")));
  int *p = reinterpret_cast<int *>(a.data());
  int lo = 1;
  for (int i = 1; i < w; ++i)
    lo *= 10;
  for (intptr_t i = 0; i < n; ++i)
    p[i] = lo + (int)c.rng.below(lo);
  judge(c, a, vf::cat(n, " numbers of ", w, " digits"));
}
// strings of very different lengths
static void strings(Ctx &c) {
  intptr_t n = c.rng.below(c.rng.coin() ? 14 : 60);
  nd::array a = nd::empty(ndt::type(vf::cat(n, c.rng.coin() ? " * string" : " * bytes")));
  bool str = a.get_dtype().get_id() == string_id;
  intptr_t longs = c.rng.below(4), at = n ? c.rng.below(n) : 0;
  for (intptr_t i = 0; i < n; ++i) {
    size_t len = (i >= at && i < at + longs) || c.rng.chance(1, 40) ? 20 + c.rng.below(120) : c.rng.below(8);
    std::string s;
    for (size_t k = 0; k < len; ++k)
      if (str)
        put_utf8(s, c.rng.chance(1, 30) ? 1 + c.rng.below(0xd7ff) : c.rng.chance(1, 60) ? 0x10000 + c.rng.below(0x100000) : c.rng.chance(1, 8) ? (uint32_t) "\"\\\n\t,[]' ."[c.rng.below(10)] : 'a' + c.rng.below(26));
      else
        s += (char)c.rng.below(256);
    char *p = a.data() + i * (str ? sizeof(dynd::string) : sizeof(dynd::bytes));
    if (str)
      reinterpret_cast<dynd::string *>(p)->assign(s.data(), s.size());
    else
      reinterpret_cast<dynd::bytes *>(p)->assign(s.data(), s.size());
  }
  judge(c, a, vf::cat(n, str ? " strings" : " bytes", ", ", longs, " long at ", at));
}
// several dimensions
static void nested(Ctx &c) {
  ag::FillOpts fo;
  fo.small = c.rng.coin();
  std::string el = leaves[c.rng.below(26)];
  std::vector<intptr_t> shape(2 + c.rng.below(3));
  for (auto &x : shape)
    x = c.rng.chance(1, 20) ? 0 : 1 + c.rng.below(c.rng.chance(1, 3) ? 13 : c.rng.chance(1, 5) ? 30 : 3);
  while (shape.size() > 2 && (size_t)shape[0] * shape[1] * shape[2] > 2000)
    shape.pop_back();
  if (shape.size() == 4 && shape[3] > 4)
    shape[3] = 2;
  ag::View v = ag::make_view(c, ndt::type(el), shape, ag::gen_layout(c, true), fo, 0);
  judge(c, v.a, v.str());
}
// any type
static void trees(Ctx &c) {
  ag::TypeOpts to;
  bool big = c.rng.chance(1, 3);
  to.max_size = big ? 12 : 3;
  to.max_ndim = big ? 2 : 3;
  to.depth = big ? 0 : 2;
  std::string t;
  do
    t = ag::gen_type(c, to);
  while (t.find("?string") != std::string::npos);
  ag::FillOpts fo;
  fo.small = c.rng.coin();
  fo.ascii = c.rng.coin();
  fo.max_var = big ? 15 : 3;
  ndt::type tp(t);
  judge(c, ag::filled(c, tp, fo), t);
}

// the columns of variable dimensions: rows apart, and an offset into the data
static void columns(Ctx &c) {
  ag::FillOpts fo;
  fo.small = c.rng.coin();
  fo.max_var = c.rng.chance(1, 4) ? 40 : 9;
  std::string el = leaves[c.rng.below(26)];
  intptr_t w = 1 + c.rng.below(4), k = c.rng.below(w);
  nd::array a = ag::filled(c, ndt::type(vf::cat("var * ", w, " * ", el)), fo);
  auto am = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(a.get()->metadata());
  auto fm = reinterpret_cast<const fixed_dim_type_arrmeta *>(am + 1);
  nd::array y = nd::make_array(ndt::type("var * " + el), const_cast<char *>(a.cdata()), a, a.get_flags());
  auto ym = new (y.get()->metadata()) ndt::var_dim_type::metadata_type();
  ym->blockref = am->blockref;
  ym->stride = am->stride;
  ym->offset = am->offset + k * fm->stride;
  ndt::type et(el);
  if (!et.is_builtin())
    et.extended()->arrmeta_copy_construct(y.get()->metadata() + sizeof(*ym), reinterpret_cast<const char *>(fm + 1), a);
  judge(c, y, vf::cat("column ", k, " of ", a.get_type().str()));
}

// the account of an array's metadata for debugging: no element is touched by it
static void debug(Ctx &c) {
  ag::TypeOpts to;
  nd::array a = ag::filled(c, ndt::type(ag::gen_type(c, to)));
  if (c.rng.chance(1, 3)) {
    ag::View v = ag::make_view(c, ndt::type(ag::gen_leaf(c, to)), ag::gen_shape(c, 3, 4), ag::gen_layout(c, true));
    a = v.a;
  }
  std::string what = "debug_print of " + a.get_type().str();
  c.describe(what);
  dv::Val before = dv::read(a);
  std::ostringstream o;
  auto oc = dv::attempt([&] { a.debug_print(o, c.rng.coin() ? "" : "  "); });
  c.saw("debug", vf::hash_str(what));
  c.check((oc.ok && !o.str().empty()) || oc.msg.find("not implemented") != std::string::npos, "debug-print", [&] { return what + ": " + oc.msg; });
  c.check(dv::show(dv::read(a)) == dv::show(before), "debug-print", [&] { return what + " changed it"; });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "A10", "the text of an array read back by an independent reader and compared with its memory",
                 {{"flat", 10000, 300000, flat},
                  {"widths", 1310, 20000, widths},
                  {"strings", 5000, 150000, strings},
                  {"nested", 6000, 200000, nested},
                  {"columns", 2500, 80000, columns},
                  {"trees", 8000, 300000, trees},
                  {"debug", 3000, 60000, debug}});
}
