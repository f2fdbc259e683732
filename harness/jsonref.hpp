// A strict JSON reader, the meaning of a JSON value as an array of a type, and random spellings of an array's value.
#pragma once
#include "arrgen.hpp"
#include "decimal.hpp"

namespace js {
using namespace dynd;
using dv::Val;
using vf::Ctx;

struct J {
  enum K { Null, Bool, Num, Str, Arr, Obj } k = Null;
  bool b = false;
  std::string s; // the digits of a number, the UTF-8 of a string
  bool odd = false; // a string with something other than Unicode scalar values in it
  std::vector<J> kids;
  std::vector<J> names;
};

inline void put_utf8(uint32_t cp, std::string &o) {
  if (cp < 0x80)
    o += (char)cp;
  else if (cp < 0x800)
    o += (char)(0xc0 | cp >> 6), o += (char)(0x80 | (cp & 63));
  else if (cp < 0x10000)
    o += (char)(0xe0 | cp >> 12), o += (char)(0x80 | (cp >> 6 & 63)), o += (char)(0x80 | (cp & 63));
  else
    o += (char)(0xf0 | cp >> 18), o += (char)(0x80 | (cp >> 12 & 63)), o += (char)(0x80 | (cp >> 6 & 63)), o += (char)(0x80 | (cp & 63));
}
// one code point of strict UTF-8, or false
inline bool get_utf8(const std::string &s, size_t &i, uint32_t &cp) {
  unsigned char c = s[i];
  int n = c < 0x80 ? 0 : c >= 0xc2 && c <= 0xdf ? 1 : c >= 0xe0 && c <= 0xef ? 2 : c >= 0xf0 && c <= 0xf4 ? 3 : -1;
  if (n < 0 || i + n >= s.size() + (n == 0 ? 1 : 0))
    return false;
  cp = n == 0 ? c : c & (0x3f >> n);
  for (int k = 1; k <= n; ++k) {
    unsigned char d = s[i + k];
    if ((d & 0xc0) != 0x80)
      return false;
    cp = cp << 6 | (d & 63);
  }
  if ((n == 2 && cp < 0x800) || (n == 3 && (cp < 0x10000 || cp > 0x10ffff)) || (cp >= 0xd800 && cp < 0xe000))
    return false;
  i += n + 1;
  return true;
}

// RFC 8259, and the escape \UXXXXXXXX which the library adds
struct Reader {
  const std::string &s;
  size_t i = 0;
  int depth = 0;
  bool *ctl = nullptr; // set if a string holds a raw control character, which without it is an error
  Reader(const std::string &s_) : s(s_) {}
  void ws() {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r'))
      ++i;
  }
  bool lit(const char *w) {
    size_t n = strlen(w);
    if (s.compare(i, n, w) != 0)
      return false;
    i += n;
    return true;
  }
  static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
  bool hex(int n, uint32_t &v) {
    v = 0;
    for (int k = 0; k < n; ++k, ++i) {
      if (i >= s.size() || hexv(s[i]) < 0)
        return false;
      v = v * 16 + hexv(s[i]);
    }
    return true;
  }
  bool str(J &o) {
    o.k = J::Str;
    ++i;
    uint32_t high = 0;
    for (;;) {
      if (i >= s.size())
        return false;
      unsigned char c = s[i];
      uint32_t cp;
      bool u = false;
      if (c == '"') {
        ++i;
        if (high)
          o.odd = true;
        return true;
      }
      if (c < 0x20) {
        if (!ctl)
          return false;
        *ctl = true;
      }
      if (c == '\\') {
        if (++i >= s.size())
          return false;
        char e = s[i++];
        switch (e) {
        case '"': case '\\': case '/': cp = e; break;
        case 'b': cp = '\b'; break;
        case 'f': cp = '\f'; break;
        case 'n': cp = '\n'; break;
        case 'r': cp = '\r'; break;
        case 't': cp = '\t'; break;
        case 'u':
          if (!hex(4, cp))
            return false;
          u = true;
          break;
        case 'U':
          if (!hex(8, cp))
            return false;
          if (cp > 0x10ffff || (cp >= 0xd800 && cp < 0xe000))
            o.odd = true, cp = '?';
          break;
        default: return false;
        }
      } else if (!get_utf8(s, i, cp)) {
        o.odd = true;
        ++i;
        cp = '?';
      }
      if (high) {
        if (u && cp >= 0xdc00 && cp < 0xe000) {
          put_utf8(0x10000 + ((high - 0xd800) << 10) + (cp - 0xdc00), o.s);
          high = 0;
          continue;
        }
        o.odd = true;
        high = 0;
      }
      if (u && cp >= 0xd800 && cp < 0xdc00)
        high = cp;
      else if (u && cp >= 0xdc00 && cp < 0xe000)
        o.odd = true;
      else
        put_utf8(cp, o.s);
    }
  }
  bool num(J &o) {
    o.k = J::Num;
    size_t st = i;
    if (i < s.size() && s[i] == '-')
      ++i;
    auto digits = [&] {
      size_t b = i;
      while (i < s.size() && s[i] >= '0' && s[i] <= '9')
        ++i;
      return i - b;
    };
    size_t b = i, n = digits();
    if (!n || (n > 1 && s[b] == '0'))
      return false;
    if (i < s.size() && s[i] == '.') {
      ++i;
      if (!digits())
        return false;
    }
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
      ++i;
      if (i < s.size() && (s[i] == '+' || s[i] == '-'))
        ++i;
      if (!digits())
        return false;
    }
    o.s = s.substr(st, i - st);
    return true;
  }
  bool value(J &o) {
    ws();
    if (i >= s.size() || depth > 5000)
      return false;
    switch (s[i]) {
    case '{':
    case '[': {
      bool obj = s[i] == '{';
      char cl = obj ? '}' : ']';
      o.k = obj ? J::Obj : J::Arr;
      ++i, ++depth;
      ws();
      if (i < s.size() && s[i] == cl) {
        ++i, --depth;
        return true;
      }
      for (;;) {
        if (obj) {
          ws();
          J nm;
          if (i >= s.size() || s[i] != '"' || !str(nm))
            return false;
          o.names.push_back(nm);
          ws();
          if (i >= s.size() || s[i] != ':')
            return false;
          ++i;
        }
        o.kids.emplace_back();
        if (!value(o.kids.back()))
          return false;
        ws();
        if (i < s.size() && s[i] == ',') {
          ++i;
          continue;
        }
        if (i < s.size() && s[i] == cl) {
          ++i, --depth;
          return true;
        }
        return false;
      }
    }
    case '"': return str(o);
    case 't': o.k = J::Bool, o.b = true; return lit("true");
    case 'f': o.k = J::Bool; return lit("false");
    case 'n': return lit("null");
    default: return num(o);
    }
  }
};
inline bool parse(const std::string &s, J &o, bool *ctl = nullptr) {
  Reader r(s);
  r.ctl = ctl;
  if (!r.value(o))
    return false;
  r.ws();
  return r.i == s.size();
}

// ---------------------------------------------------------------- what a value means
enum Fit { No, Any, May, Yes }; // May: refused, or this value; Any: refused, or some value
struct Meaning {
  Fit f = No;
  Val v;
};
inline Meaning one(Fit f, Val v = Val()) {
  Meaning m;
  m.f = f, m.v = v;
  return m;
}
inline Fit both(Fit a, Fit b) { return std::min(a, b); }

inline bool is_uint(type_id_t t) { return t >= uint8_id && t <= uint128_id; }
inline Meaning number(type_id_t t, const std::string &s, bool quoted) {
  using namespace dec;
  Dec d;
  bool num = read_dec(s, d);
  if (t == float32_id || t == float64_id) {
    bool single = t == float32_id;
    if (!num) {
      std::string l;
      for (char ch : s)
        l += (char)tolower((unsigned char)ch);
      bool neg = !l.empty() && l[0] == '-';
      if (neg)
        l = l.substr(1);
      if (l == "nan" || l == "1.#qnan" || l == "1.#ind")
        return one(May, Val::F(NAN));
      if (l == "inf" || l == "infinity" || l == "1.#inf")
        return one(May, Val::F(neg ? -INFINITY : INFINITY));
      char *e;
      double w = single ? (double)strtof(s.c_str(), &e) : strtod(s.c_str(), &e);
      if (!s.empty() && !*e && e == s.c_str() + s.size())
        return one(May, Val::F(w));
      return one(No);
    }
    double w = single ? (double)strtof(s.c_str(), nullptr) : strtod(s.c_str(), nullptr);
    if (std::isinf(w))
      return one(No);
    return one(quoted ? May : Yes, Val::F(w));
  }
  u128 m = 0;
  if (!num) {
    if (s.size() > 1 && s[0] == '+' && read_dec(s.substr(1), d) && !d.neg && magnitude(d, m) == Whole && fits(t, false, m))
      return one(May, Val::I((i128)m));
    return one(No);
  }
  if (magnitude(d, m) != Whole || !fits(t, d.neg, m))
    return one(No);
  return one(!quoted && d.strict_int && !(d.neg && is_uint(t)) ? Yes : May, Val::I(d.neg ? (i128)(0 - m) : (i128)m));
}
inline bool number_type(type_id_t t) { return (t >= int8_id && t <= uint128_id) || t == float32_id || t == float64_id; }

inline Meaning meaning(const J &j, const ndt::type &tp) {
  type_id_t t = tp.get_id();
  if (t == bool_id) {
    switch (j.k) {
    case J::Bool: return one(Yes, Val::I(j.b));
    case J::Num: return j.s == "0" || j.s == "1" ? one(May, Val::I(j.s == "1")) : one(No);
    case J::Str: {
      int w = dec::bool_word(j.s);
      return j.odd ? one(Any) : w < 0 ? one(No) : one(May, Val::I(w));
    }
    default: return one(No);
    }
  }
  if (number_type(t)) {
    if (j.k == J::Num)
      return number(t, j.s, false);
    return j.k == J::Str ? j.odd ? one(Any) : number(t, j.s, true) : one(No);
  }
  switch (t) {
  case string_id: return j.k != J::Str ? one(No) : j.odd ? one(Any) : one(Yes, Val::S(j.s));
  case fixed_string_id: {
    if (j.k != J::Str)
      return one(No);
    if (j.odd || j.s.find('\0') != std::string::npos)
      return one(Any);
    string_encoding_t e = tp.extended<ndt::fixed_string_type>()->get_encoding();
    Val v;
    v.k = Val::Raw;
    for (size_t i = 0; i < j.s.size();) {
      uint32_t cp = 0;
      size_t b = i;
      if (!get_utf8(j.s, i, cp))
        return one(Any);
      auto unit = [&](uint32_t u, int n) { v.s.append((const char *)&u, n); };
      switch (e) {
      case string_encoding_ascii:
        if (cp >= 0x80)
          return one(No);
        unit(cp, 1);
        break;
      case string_encoding_ucs_2:
        if (cp >= 0x10000)
          return one(No);
        unit(cp, 2);
        break;
      case string_encoding_utf_16:
        if (cp >= 0x10000)
          unit(0xd800 + ((cp - 0x10000) >> 10), 2), unit(0xdc00 + ((cp - 0x10000) & 0x3ff), 2);
        else
          unit(cp, 2);
        break;
      case string_encoding_utf_32: unit(cp, 4); break;
      default: v.s += j.s.substr(b, i - b);
      }
    }
    if (v.s.size() > tp.get_data_size())
      return one(No);
    v.s.resize(tp.get_data_size());
    return one(Yes, v);
  }
  case type_id: {
    if (j.k != J::Str)
      return one(No);
    ndt::type r;
    if (j.odd || !dv::attempt([&] { r = ndt::type(j.s); }).ok)
      return one(No);
    return one(Yes, Val::S(r.str()));
  }
  case option_id: {
    const ndt::type &vt = tp.extended<ndt::option_type>()->get_value_type();
    if (j.k == J::Null)
      return one(Yes, Val::N());
    if (j.k == J::Str && !j.odd && dec::na_text(j.s))
      return one(May, Val::N());
    Meaning m = meaning(j, vt);
    if (m.f != No && m.v.k == Val::Flt && std::isnan(m.v.d))
      m.f = Any;
    if (m.f != No && m.v.k == Val::Int && dec::sgn(vt.get_id()) && m.v.i == -(dv::i128)dec::top(vt.get_id()) - 1)
      m.f = Any; // the pattern that marks a missing value
    return m;
  }
  case fixed_dim_id:
  case var_dim_id: {
    if (j.k != J::Arr || (t == fixed_dim_id && (intptr_t)j.kids.size() != tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size()))
      return one(No);
    Meaning m = one(Yes, Val::L({}));
    for (const J &x : j.kids) {
      Meaning k = meaning(x, tp.extended<ndt::base_dim_type>()->get_element_type());
      m.f = both(m.f, k.f);
      m.v.kids.push_back(k.v);
    }
    return m;
  }
  case tuple_id:
  case struct_id: {
    bool st = t == struct_id;
    const std::vector<ndt::type> &ft = st ? tp.extended<ndt::struct_type>()->get_field_types() : tp.extended<ndt::tuple_type>()->get_field_types();
    Meaning m = one(Yes, Val::L({}));
    if (j.k == J::Arr) {
      if (j.kids.size() != ft.size())
        return one(No);
      for (size_t i = 0; i < ft.size(); ++i) {
        Meaning k = meaning(j.kids[i], ft[i]);
        m.f = both(m.f, k.f);
        m.v.kids.push_back(k.v);
      }
      return m;
    }
    if (j.k != J::Obj || !st)
      return one(No);
    for (const J &n : j.names)
      if (n.odd)
        m.f = both(m.f, Any);
    for (size_t i = 0; i < ft.size(); ++i) {
      const J *x = nullptr;
      int n = 0;
      for (size_t q = 0; q < j.names.size(); ++q) {
        if (j.names[q].odd)
          m.f = both(m.f, Any);
        else if (j.names[q].s == tp.extended<ndt::struct_type>()->get_field_name(i))
          x = &j.kids[q], ++n;
      }
      if (n > 1) // which one counts is not said; each has to fit
        m.f = both(m.f, Any);
      if (!x) {
        if (m.f == Any)
          m.v.kids.push_back(Val());
        else if (ft[i].get_id() == option_id)
          m.v.kids.push_back(Val::N());
        else
          return one(No);
        continue;
      }
      Meaning k = meaning(*x, ft[i]);
      m.f = both(m.f, n > 1 && k.f == No ? Any : k.f);
      m.v.kids.push_back(k.v);
    }
    return m;
  }
  default: return one(No);
  }
}

// ---------------------------------------------------------------- types, contents, spellings
inline uint32_t rnd_cp(Ctx &c) {
  for (;;) {
    uint32_t cp;
    switch (c.rng.below(9)) {
    case 0: cp = 1 + (uint32_t)c.rng.below(0x20); break;
    case 1: cp = 0x80 + (uint32_t)c.rng.below(0x780); break;
    case 2: cp = 0x800 + (uint32_t)c.rng.below(0xf800); break;
    case 3: cp = 0x10000 + (uint32_t)c.rng.below(0x100000); break;
    case 4: {
      static const uint32_t e[] = {'"', '\\', '/', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x2028, '\n', '\r', '\t', '\b', '\f'};
      cp = e[c.rng.below(sizeof e / sizeof *e)];
      break;
    }
    default: cp = ' ' + (uint32_t)c.rng.below(95);
    }
    if (cp < 0xd800 || cp >= 0xe000)
      return cp;
  }
}
inline std::string rnd_text(Ctx &c, size_t n) {
  std::string s;
  bool plain = c.rng.coin();
  while (n-- > 0)
    put_utf8(plain ? 'a' + (uint32_t)c.rng.below(26) : rnd_cp(c), s);
  return s;
}
inline ndt::type gen_type(Ctx &c, bool tuples, int depth = 0) {
  if (depth < 4 && c.rng.chance(depth ? 2 : 3, 5))
    switch (c.rng.below(tuples ? 5 : 4)) {
    case 0: return ndt::make_fixed_dim(c.rng.chance(1, 12) ? 0 : c.rng.chance(1, 12) ? 20 : 1 + c.rng.below(4), gen_type(c, tuples, depth + 1));
    case 1: return ndt::make_type<ndt::var_dim_type>(gen_type(c, tuples, depth + 1));
    case 2:
    case 3: {
      size_t n = c.rng.chance(1, 12) ? 0 : 1 + c.rng.below(5);
      std::vector<std::string> nm;
      std::vector<ndt::type> tp;
      while (nm.size() < n) {
        std::string s = c.rng.chance(3, 4) ? std::string(1, (char)('a' + c.rng.below(26))) : rnd_text(c, 1 + c.rng.below(5));
        if (std::find(nm.begin(), nm.end(), s) == nm.end())
          nm.push_back(s), tp.push_back(gen_type(c, tuples, depth + 1));
      }
      return ndt::make_type<ndt::struct_type>(nm, tp);
    }
    default: {
      std::vector<ndt::type> tp;
      for (size_t n = c.rng.chance(1, 12) ? 0 : 1 + c.rng.below(4); n-- > 0;)
        tp.push_back(gen_type(c, tuples, depth + 1));
      return ndt::make_type<ndt::tuple_type>(tp);
    }
    }
  static const char *leaf[] = {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "uint128", "float32", "float64", "string", "string", "type", "?bool", "?int8",
                               "?int16", "?int32", "?int64", "?float32", "?float64", "fixed_string[9]", "fixed_string[4, 'utf16']", "fixed_string[5, 'utf32']", "fixed_string[6, 'A']",
                               "fixed_string[3, 'ucs2']"};
  static std::vector<ndt::type> made;
  if (made.empty())
    for (const char *l : leaf)
      made.push_back(ndt::type(l));
  return made[c.rng.below(made.size())];
}
// wider contents than ag::fill's: any Unicode in strings, numbers at the limits
inline void widen(Ctx &c, const nd::array &a, bool special) {
  std::vector<const ag::Node *> l;
  ag::Node t = ag::tree(a);
  ag::leaves(t, l);
  for (const ag::Node *n : l) {
    char *p = n->at;
    switch (n->tp.get_id()) {
    case string_id: {
      std::string s = rnd_text(c, c.rng.chance(1, 12) ? c.rng.below(3000) : c.rng.below(12));
      reinterpret_cast<dynd::string *>(p)->assign(s.data(), s.size());
      break;
    }
    case fixed_string_id: {
      string_encoding_t e = n->tp.extended<ndt::fixed_string_type>()->get_encoding();
      size_t cap = n->tp.get_data_size();
      std::string o;
      for (size_t k = c.rng.below(8); k-- > 0;) {
        uint32_t cp = rnd_cp(c);
        std::string u;
        if (e == string_encoding_ascii)
          u += (char)(1 + cp % 127);
        else if (e == string_encoding_utf_8)
          put_utf8(cp, u);
        else if (e == string_encoding_utf_32)
          u.append((char *)&cp, 4);
        else if (cp < 0x10000)
          u.append((char *)&cp, 2);
        else if (e == string_encoding_utf_16) {
          uint16_t h = (uint16_t)(0xd800 + ((cp - 0x10000) >> 10)), lo = (uint16_t)(0xdc00 + ((cp - 0x10000) & 0x3ff));
          u.append((char *)&h, 2), u.append((char *)&lo, 2);
        }
        if (o.size() + u.size() <= cap)
          o += u;
      }
      memset(p, 0, cap);
      memcpy(p, o.data(), o.size());
      break;
    }
    case float32_id:
    case float64_id:
      if (c.rng.coin()) {
        bool single = n->tp.get_id() == float32_id;
        uint64_t r = c.rng.next();
        double d;
        float f;
        uint32_t r32 = (uint32_t)r;
        memcpy(&d, &r, 8), memcpy(&f, &r32, 4);
        if (single && (special || std::isfinite(f)))
          memcpy(p, &f, 4);
        if (!single && (special || std::isfinite(d)))
          memcpy(p, &d, 8);
      }
      if (special && c.rng.chance(1, 12)) {
        double d = c.rng.coin() ? NAN : c.rng.coin() ? INFINITY : -INFINITY;
        float f = (float)d;
        n->tp.get_id() == float32_id ? memcpy(p, &f, 4) : memcpy(p, &d, 8);
      }
      break;
    case uint128_id: {
      dv::u128 r = ((dv::u128)c.rng.next() << 64 | c.rng.next()) >> c.rng.below(128);
      memcpy(p, &r, 16);
      break;
    }
    case int64_id:
      if (c.rng.chance(1, 8)) {
        int64_t v = c.rng.coin() ? INT64_MIN : INT64_MAX;
        memcpy(p, &v, 8);
      }
      break;
    case uint64_id:
      if (c.rng.chance(1, 8))
        memset(p, 0xff, 8);
      break;
    default: break;
    }
  }
}
inline std::string ws(Ctx &c) {
  std::string s;
  if (c.rng.chance(1, 4))
    for (size_t n = c.rng.below(4); n-- > 0;)
      s += " \t\n\r"[c.rng.below(4)];
  return s;
}
inline std::string spell_text(Ctx &c, const std::string &u) {
  std::string s = "\"";
  bool many = c.rng.coin();
  for (size_t i = 0; i < u.size();) {
    uint32_t cp = 0;
    size_t b = i;
    if (!get_utf8(u, i, cp)) {
      s += u[i++];
      continue;
    }
    static const char sh[] = "\"\\/\b\f\n\r\t", le[] = "\"\\/bfnrt";
    const char *q = cp < 0x80 && cp ? strchr(sh, (char)cp) : nullptr;
    bool esc = cp < 0x20 || cp == '"' || cp == '\\' || (many && c.rng.chance(1, 3));
    if (!esc) {
      s += u.substr(b, i - b);
      continue;
    }
    if (q && c.rng.chance(2, 3)) {
      s += '\\', s += le[q - sh];
      continue;
    }
    char buf[20];
    const char *f = c.rng.coin() ? "\\u%04x" : "\\u%04X";
    if (cp < 0x10000)
      snprintf(buf, sizeof buf, f, cp), s += buf;
    else {
      snprintf(buf, sizeof buf, f, 0xd800 + ((cp - 0x10000) >> 10)), s += buf;
      snprintf(buf, sizeof buf, f, 0xdc00 + ((cp - 0x10000) & 0x3ff)), s += buf;
    }
  }
  return s + "\"";
}
inline std::string spell_float(Ctx &c, double v, bool single) {
  char buf[64];
  snprintf(buf, sizeof buf, "%.*e", single ? 8 : 16, v);
  std::string s = buf;
  size_t e = s.find('e');
  std::string m = s.substr(0, e);
  int ex = atoi(s.c_str() + e + 1);
  switch (c.rng.below(5)) {
  case 0: // all the digits before the point
    m.erase(m.find('.'), 1);
    ex -= single ? 8 : 16;
    {
      bool neg = m[0] == '-';
      size_t z = m.find_first_not_of('0', neg);
      m = (neg ? "-" : "") + (z == std::string::npos ? "0" : m.substr(z));
    }
    return vf::cat(m, c.rng.coin() ? "e" : "E", ex);
  case 1: return vf::cat(m, "000e", ex >= 0 ? "+" : "", ex);
  case 2:
    if (std::abs(ex) < 30) {
      char b2[128];
      snprintf(b2, sizeof b2, "%.*f", std::max(0, 17 - ex), v);
      return b2;
    } // fall through
  default: {
    char b2[64];
    snprintf(b2, sizeof b2, "%.*g", single ? 9 : 17, v);
    return b2;
  }
  }
}
inline std::string spell_any(Ctx &c, int depth = 0) { // any JSON value
  switch (c.rng.below(depth > 3 ? 5 : 7)) {
  case 0: return "null";
  case 1: return c.rng.coin() ? "true" : "false";
  case 2: return spell_float(c, (double)c.rng.range(-1000, 1000) / 8, false);
  case 3: return vf::cat(c.rng.range(-100000, 100000));
  case 4: return spell_text(c, rnd_text(c, c.rng.below(6)));
  case 5: {
    std::string s = "[" + ws(c);
    for (size_t n = c.rng.below(4), i = 0; i < n; ++i)
      s += (i ? "," + ws(c) : "") + spell_any(c, depth + 1) + ws(c);
    return s + "]";
  }
  default: {
    std::string s = "{" + ws(c);
    for (size_t n = c.rng.below(4), i = 0; i < n; ++i)
      s += (i ? "," + ws(c) : "") + spell_text(c, rnd_text(c, c.rng.below(4))) + ws(c) + ":" + ws(c) + spell_any(c, depth + 1) + ws(c);
    return s + "}";
  }
  }
}
inline std::string spell(Ctx &c, const ndt::type &tp, const char *md, const char *p) {
  type_id_t t = tp.get_id();
  Val v;
  switch (t) {
  case option_id: {
    Val o = dv::read(tp, md, p);
    if (o.k == Val::NA)
      return "null";
    return spell(c, tp.extended<ndt::option_type>()->get_value_type(), md, p);
  }
  case bool_id: return *p ? "true" : "false";
  case float32_id:
  case float64_id: {
    double d = dv::read(tp, md, p).d;
    if (!std::isfinite(d))
      return std::isnan(d) ? "\"NaN\"" : d < 0 ? "\"-Infinity\"" : "\"inf\"";
    return spell_float(c, d, t == float32_id);
  }
  case string_id:
  case type_id: return spell_text(c, dv::read(tp, md, p).s);
  case fixed_string_id: {
    string_encoding_t e = tp.extended<ndt::fixed_string_type>()->get_encoding();
    std::string u;
    size_t n = tp.get_data_size(), w = e == string_encoding_utf_32 ? 4 : e == string_encoding_utf_16 || e == string_encoding_ucs_2 ? 2 : 1;
    for (size_t i = 0; i < n; i += w) {
      uint32_t cp = 0;
      memcpy(&cp, p + i, w);
      if (!cp)
        break;
      if (w == 1) {
        u += (char)cp;
        continue;
      }
      if (cp >= 0xd800 && cp < 0xdc00 && w == 2 && i + 2 < n) {
        uint16_t lo;
        memcpy(&lo, p + i + 2, 2);
        cp = 0x10000 + ((cp - 0xd800) << 10) + (lo - 0xdc00);
        i += 2;
      }
      put_utf8(cp, u);
    }
    return spell_text(c, u);
  }
  case fixed_dim_id:
  case var_dim_id: {
    std::string s = "[" + ws(c);
    intptr_t n, stride;
    const char *b = p;
    size_t ms;
    if (t == fixed_dim_id) {
      auto m = reinterpret_cast<const fixed_dim_type_arrmeta *>(md);
      n = m->dim_size, stride = m->stride, ms = sizeof *m;
    } else {
      auto m = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(md);
      auto d = reinterpret_cast<const ndt::var_dim_type::data_type *>(p);
      n = (intptr_t)d->size, stride = m->stride, b = d->begin + m->offset, ms = sizeof *m;
    }
    for (intptr_t i = 0; i < n; ++i)
      s += (i ? "," + ws(c) : "") + spell(c, tp.extended<ndt::base_dim_type>()->get_element_type(), md + ms, b + i * stride) + ws(c);
    return s + "]";
  }
  case tuple_id:
  case struct_id: {
    bool st = t == struct_id;
    auto ss = st ? tp.extended<ndt::struct_type>() : nullptr;
    auto tt = st ? nullptr : tp.extended<ndt::tuple_type>();
    const std::vector<ndt::type> &ft = st ? ss->get_field_types() : tt->get_field_types();
    const std::vector<uintptr_t> &mo = st ? ss->get_arrmeta_offsets() : tt->get_arrmeta_offsets();
    auto off = reinterpret_cast<const uintptr_t *>(md);
    std::vector<std::string> parts;
    bool list = !st || c.rng.chance(1, 5);
    for (size_t i = 0; i < ft.size(); ++i) {
      if (!list && ft[i].get_id() == option_id && c.rng.chance(1, 2) && dv::read(ft[i], md + mo[i], p + off[i]).k == Val::NA)
        continue;
      std::string x = spell(c, ft[i], md + mo[i], p + off[i]) + ws(c);
      parts.push_back(list ? x : spell_text(c, ss->get_field_name(i)) + ws(c) + ":" + ws(c) + x);
    }
    if (!list) {
      if (c.rng.chance(1, 4)) {
        std::string nm = rnd_text(c, 3) + "\xc3\xb8";
        parts.push_back(spell_text(c, nm) + ws(c) + ":" + ws(c) + spell_any(c) + ws(c));
      }
      for (size_t i = parts.size(); i > 1; --i)
        std::swap(parts[i - 1], parts[c.rng.below(i)]);
    }
    std::string s = (list ? "[" : "{") + ws(c);
    for (size_t i = 0; i < parts.size(); ++i)
      s += (i ? "," + ws(c) : "") + parts[i];
    return s + (list ? "]" : "}");
  }
  case uint128_id: return dec::dec_u((dv::u128)dv::read(tp, md, p).i);
  default: return dv::i128s(dv::read(tp, md, p).i);
  }
}
} // namespace js
