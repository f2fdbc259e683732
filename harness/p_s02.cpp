// S02: string storage against a std::string shadow, and encodings against an independent UTF reference.
#include "dv.hpp"
#include <dynd/callable.hpp>
#include <dynd/assignment.hpp>
#include <dynd/index.hpp>
#include <dynd/string.hpp>
#include <dynd/types/base_string_type.hpp>
using namespace dynd;
using vf::Ctx;
using vf::quote;

// ---------------------------------------------------------------- storage histories
template <class S>
struct IsString {
  static const bool value = false;
};
template <>
struct IsString<dynd::string> {
  static const bool value = true;
};

static std::string blob(Ctx &c, size_t n) {
  std::string s(n, 0);
  for (size_t i = 0; i < n; ++i)
    s[i] = c.rng.chance(1, 6) ? (c.rng.coin() ? '\0' : '\xff') : (char)('a' + c.rng.below(26));
  return s;
}
static size_t size_near(Ctx &c) {
  switch (c.rng.below(6)) {
  case 0:
    return c.rng.below(4);
  case 1:
  case 2:
    return 6 + c.rng.below(13); // 8: where the size field begins; 14, 15: the short string limits
  case 3:
    return c.rng.below(40);
  case 4:
    return 20 + c.rng.below(30);
  default:
    return c.rng.below(300);
  }
}

template <class S>
static void history(Ctx &c) {
  const bool nul = IsString<S>::value;
  std::string log;
  log.reserve(2000);
  size_t before = vf::heap_bytes();
  {
    std::vector<S> v(3);
    std::vector<std::string> w(3);
    auto verify = [&](const char *op) {
      for (size_t i = 0; i < v.size(); ++i) {
        const S &s = v[i];
        bool ok = s.size() == w[i].size() && std::string(s.begin(), s.end()) == w[i] && s.begin() == s.data() &&
                  s.empty() == w[i].empty() && s.capacity() >= s.size();
        c.check(ok, vf::cat(nul ? "string-" : "bytes-", op), [&] {
          return vf::cat("object ", i, " after ", log, ": size ", s.size(), " ", quote(std::string(s.begin(), s.end())), " instead of ", quote(w[i]));
        });
        if (nul)
          c.check(s.data()[s.size()] == 0, vf::cat("no-terminator-", op), [&] { return log; });
        if (!ok)
          w[i] = std::string(s.begin(), s.end());
      }
    };
    int steps = 8 + (int)c.rng.below(24);
    for (int k = 0; k < steps; ++k) {
      size_t i = c.rng.below(v.size()), j = c.rng.below(v.size());
      int op = (int)c.rng.below(17);
      char buf[60];
      snprintf(buf, sizeof buf, " %d(%d,%d:%d)", op, (int)i, (int)j, (int)w[i].size());
      log += buf;
      c.describe(vf::cat(nul ? "string" : "bytes", " history", log));
      const char *name = "";
      switch (op) {
      case 0:
      case 1: {
        std::string b = blob(c, size_near(c));
        char *x = new char[b.size()];
        memcpy(x, b.data(), b.size());
        v[i].assign(x, b.size());
        delete[] x;
        w[i] = b;
        name = "assign";
        break;
      }
      case 2: { // from a part of itself
        size_t at = c.rng.below(w[i].size() + 1), n = c.rng.below(w[i].size() - at + 1);
        v[i].assign(v[i].data() + at, n);
        w[i] = w[i].substr(at, n);
        name = "assign-part-of-self";
        break;
      }
      case 3:
      case 4: {
        std::string b = blob(c, c.rng.coin() ? c.rng.below(9) : size_near(c));
        v[i].append(b.data(), b.size());
        w[i] += b;
        name = "append";
        break;
      }
      case 5: {
        if (w[i].size() > 600)
          break;
        size_t at = c.rng.below(w[i].size() + 1), n = c.rng.below(w[i].size() - at + 1);
        v[i].append(v[i].data() + at, n);
        w[i] += w[i].substr(at, n);
        name = "append-part-of-self";
        break;
      }
      case 6:
      case 7: {
        size_t n = size_near(c), old = w[i].size();
        if (op == 6)
          v[i].resize(n);
        else
          v[i].resize_grow(n);
        w[i].resize(n);
        std::string fill = n > old ? blob(c, n - old) : "";
        for (size_t q = old; q < n; ++q)
          v[i].begin()[q] = w[i][q] = fill[q - old];
        name = "resize";
        break;
      }
      case 8:
        v[i].reserve(size_near(c));
        name = "reserve";
        break;
      case 9:
        v[i].reserve_grow(size_near(c));
        name = "reserve_grow";
        break;
      case 10:
        v[i].clear();
        w[i].clear();
        name = "clear";
        break;
      case 11: {
        S t(v[j]);
        c.check(t == v[j] && !(t != v[j]), "copy-differs", [&] { return log; });
        v[i] = t;
        w[i] = w[j];
        name = "copy";
        break;
      }
      case 12:
        v[i] = v[j]; // also itself
        w[i] = w[j];
        name = "copy-assign";
        break;
      case 13:
        if (i != j) {
          v[i] = std::move(v[j]);
          w[i] = w[j];
          v[j].clear(); // what is left behind is up to the library, but it must be usable
          w[j].clear();
        }
        name = "move-assign";
        break;
      case 14: {
        std::swap(v[i], v[j]);
        std::swap(w[i], w[j]);
        name = "swap";
        break;
      }
      case 15: {
        if (w[i].size() + w[j].size() > 800)
          break;
        S t = v[i] + v[j];
        std::string x = w[i] + w[j];
        c.check(std::string(t.begin(), t.end()) == x, "plus", [&] { return log; });
        if (c.rng.coin()) {
          v[i] += v[j];
          w[i] = x;
        } else {
          v[i] = std::move(t);
          w[i] = x;
        }
        name = "plus";
        break;
      }
      default:
        if (c.rng.chance(1, 3) && v.size() < 8) { // the vector reallocates: moves or copies all
          v.push_back(v[j]);
          w.push_back(w[j]);
          name = "push_back";
        } else if (!w[i].empty()) {
          size_t at = c.rng.below(w[i].size());
          v[i].begin()[at] = w[i][at] = (char)c.rng.next();
          name = "write";
        }
      }
      verify(name);
      c.saw(nul ? "string-op" : "bytes-op", vf::mix(op, vf::mix(w[i].size(), w[j].size())));
    }
    c.saw("history", vf::hash_str(log));
  }
  // every buffer the objects took is given back
  size_t after = vf::heap_bytes();
  c.check(after == before, "leak", [&] { return vf::cat((int64_t)(after - before), " bytes after", log); });
}

// ---------------------------------------------------------------- encodings
typedef std::vector<uint32_t> cps;
enum { ASCII, UCS2, UTF8, UTF16, UTF32 };
static const char *enc_name[] = {"A", "ucs2", "utf8", "utf16", "utf32"};
static const int unit[] = {1, 2, 1, 2, 4};
static bool fits(int enc, uint32_t cp) { return enc == ASCII ? cp < 0x80 : enc == UCS2 ? cp < 0x10000 : true; }
static std::string encode(int enc, const cps &v) {
  std::string s;
  auto u16 = [&](uint32_t x) { uint16_t y = (uint16_t)x; s.append((const char *)&y, 2); };
  for (uint32_t cp : v)
    switch (enc) {
    case ASCII:
      s += (char)cp;
      break;
    case UCS2:
      u16(cp);
      break;
    case UTF16:
      if (cp >= 0x10000) {
        u16(0xd800 + ((cp - 0x10000) >> 10));
        u16(0xdc00 + ((cp - 0x10000) & 0x3ff));
      } else
        u16(cp);
      break;
    case UTF32:
      s.append((const char *)&cp, 4);
      break;
    case UTF8:
      if (cp < 0x80)
        s += (char)cp;
      else if (cp < 0x800)
        (s += (char)(0xc0 | cp >> 6)) += (char)(0x80 | (cp & 63));
      else if (cp < 0x10000)
        ((s += (char)(0xe0 | cp >> 12)) += (char)(0x80 | (cp >> 6 & 63))) += (char)(0x80 | (cp & 63));
      else
        (((s += (char)(0xf0 | cp >> 18)) += (char)(0x80 | (cp >> 12 & 63))) += (char)(0x80 | (cp >> 6 & 63))) += (char)(0x80 | (cp & 63));
    }
  return s;
}
// strict decoding; false if it is not valid in this encoding
static bool decode(int enc, const std::string &s, cps &out) {
  out.clear();
  const unsigned char *p = (const unsigned char *)s.data();
  size_t n = s.size(), i = 0;
  while (i < n) {
    uint32_t cp = 0;
    if (enc == ASCII) {
      cp = p[i++];
      if (cp >= 0x80)
        return false;
    } else if (enc == UTF8) {
      unsigned b = p[i];
      size_t l = b < 0x80 ? 1 : b >= 0xc2 && b < 0xe0 ? 2 : b >= 0xe0 && b < 0xf0 ? 3 : b >= 0xf0 && b < 0xf5 ? 4 : 0;
      if (!l || i + l > n)
        return false;
      cp = l == 1 ? b : b & (0xff >> (l + 1));
      for (size_t k = 1; k < l; ++k) {
        if ((p[i + k] & 0xc0) != 0x80)
          return false;
        cp = cp << 6 | (p[i + k] & 63);
      }
      if ((l == 3 && cp < 0x800) || (l == 4 && cp < 0x10000) || cp > 0x10ffff || (cp >= 0xd800 && cp < 0xe000))
        return false;
      i += l;
    } else if (enc == UTF32) {
      if (i + 4 > n)
        return false;
      cp = dv::ld<uint32_t>((const char *)p + i);
      i += 4;
      if (cp > 0x10ffff || (cp >= 0xd800 && cp < 0xe000))
        return false;
    } else {
      if (i + 2 > n)
        return false;
      cp = dv::ld<uint16_t>((const char *)p + i);
      i += 2;
      if (cp >= 0xd800 && cp < 0xe000) {
        if (enc == UCS2 || cp >= 0xdc00 || i + 2 > n)
          return false;
        uint32_t lo = dv::ld<uint16_t>((const char *)p + i);
        if (lo < 0xdc00 || lo >= 0xe000)
          return false;
        i += 2;
        cp = 0x10000 + ((cp - 0xd800) << 10) + (lo - 0xdc00);
      }
    }
    out.push_back(cp);
  }
  return true;
}
static uint32_t gen_cp(Ctx &c, int enc) {
  static const uint32_t edge[] = {1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0xfffff, 0x100000};
  for (;;) {
    uint32_t cp;
    switch (c.rng.below(6)) {
    case 0:
    case 1:
      cp = 'a' + c.rng.below(26);
      break;
    case 2:
      cp = 0x80 + c.rng.below(0x780);
      break;
    case 3:
      cp = 0x800 + c.rng.below(0xf800);
      break;
    case 4:
      cp = 0x10000 + c.rng.below(0x100000);
      break;
    default:
      cp = edge[c.rng.below(13)];
    }
    if ((cp < 0xd800 || cp >= 0xe000) && fits(enc, cp))
      return cp;
  }
}
static std::string show_cps(const cps &v) {
  std::stringstream s;
  s << std::hex;
  for (uint32_t x : v)
    s << x << " ";
  return s.str();
}

struct StrType {
  int kind; // 0 string, 1 fixed_string, 2 char
  int enc;
  size_t n;
  ndt::type tp;
};
static StrType gen_type(Ctx &c, bool src) {
  StrType t;
  t.kind = c.rng.chance(1, 3) ? 0 : c.rng.chance(1, 6) ? 2 : 1;
  t.enc = t.kind == 0 ? UTF8 : (int)c.rng.below(5);
  if (t.kind == 2)
    t.enc = UTF32;
  t.n = t.kind == 0 ? 0 : t.kind == 2 ? 1 : 1 + c.rng.below(c.rng.coin() ? 5 : 24);
  t.tp = t.kind == 0 ? ndt::type("string")
                     : t.kind == 1 ? ndt::type(vf::cat("fixed_string[", t.n, ", '", enc_name[t.enc], "']"))
                                   : ndt::type(vf::cat("char['", enc_name[t.enc], "']"));
  return t;
}
// code points that fit into `n` units
static cps gen_text(Ctx &c, int enc, size_t n_units, size_t max_cp) {
  cps v;
  for (;;) {
    cps w = v;
    w.push_back(gen_cp(c, c.rng.chance(1, 3) ? enc : c.rng.coin() ? ASCII : enc));
    if (w.size() > max_cp || encode(enc, w).size() / unit[enc] > n_units)
      return v;
    v = w;
    if (c.rng.chance(1, 12))
      return v;
  }
}

static void put(char *p, const StrType &t, const std::string &raw) {
  if (t.kind == 0)
    reinterpret_cast<dynd::string *>(p)->assign(raw.data(), raw.size());
  else {
    size_t sz = t.n * unit[t.enc];
    memset(p, 0, sz);
    memcpy(p, raw.data(), std::min(sz, raw.size()));
  }
}
static std::string get(const char *p, const StrType &t) {
  if (t.kind == 0) {
    const dynd::string *s = reinterpret_cast<const dynd::string *>(p);
    return std::string(s->begin(), s->end());
  }
  std::string r(p, t.n * unit[t.enc]);
  size_t u = unit[t.enc];
  for (size_t i = 0; i + u <= r.size(); i += u)
    if (r.substr(i, u) == std::string(u, '\0'))
      return r.substr(0, i);
  return r;
}

static void convert(Ctx &c) {
  StrType st = gen_type(c, true), dt = gen_type(c, false);
  if (st.kind == 2 && dt.kind != 0) // char is assigned from and to string only
    dt.kind = 0, dt.enc = UTF8, dt.n = 0, dt.tp = ndt::type("string");
  if (dt.kind == 2 && st.kind != 0)
    st.kind = 0, st.enc = UTF8, st.n = 0, st.tp = ndt::type("string");
  size_t n = 1 + c.rng.below(4);
  int sstep = (int)c.rng.range(1, 3) * (c.rng.coin() ? 1 : -1), dstep = (int)c.rng.range(1, 3) * (c.rng.coin() ? 1 : -1);
  size_t sn = n * std::abs(sstep), dn = n * std::abs(dstep);
  nd::array sa = nd::empty(ndt::make_fixed_dim(sn, st.tp)), da = nd::empty(ndt::make_fixed_dim(dn, dt.tp));
  size_t ssz = st.tp.get_data_size(), dsz = dt.tp.get_data_size();
  bool hostile = c.rng.chance(1, 4); // content that is not valid in the source encoding
  std::vector<cps> text(n);
  std::vector<std::string> raw(n);
  std::vector<char> valid(n, 1);
  auto src_at = [&](size_t i) { return sa.data() + (sstep > 0 ? i * sstep : sn - 1 - i * -sstep) * ssz; };
  auto dst_index = [&](size_t i) { return dstep > 0 ? i * dstep : dn - 1 - i * -dstep; };
  for (size_t i = 0; i < sn; ++i)
    put(sa.data() + i * ssz, st, encode(st.enc, {'g'}));
  for (size_t i = 0; i < n; ++i) {
    size_t cap = st.kind == 0 ? (size_t)(dt.kind == 0 ? 60 : dt.n * 3 + 2) : st.n;
    // most source texts are representable in the destination, so that long runs are exercised
    int e = c.rng.chance(3, 4) && dt.enc != UTF8 ? (fits(dt.enc, 0x10000) ? st.enc : (st.enc == ASCII || dt.enc == ASCII) ? ASCII : UCS2) : st.enc;
    do {
      text[i] = gen_text(c, st.enc, cap, c.rng.coin() && dt.kind ? dt.n : cap);
      if (e != st.enc)
        for (uint32_t &x : text[i])
          if (!fits(e, x))
            x = 'x';
    } while (0);
    raw[i] = encode(st.enc, text[i]);
    if (hostile && !raw[i].empty()) {
      for (int q = 0; q < 2; ++q) {
        size_t u = unit[st.enc], at = c.rng.below(raw[i].size() / u) * u;
        uint32_t bad = st.enc == ASCII || st.enc == UTF8 ? 0x80 + (uint32_t)c.rng.below(128)
                                                         : st.enc == UTF32 ? (c.rng.coin() ? 0x110000 + (uint32_t)c.rng.below(99) : 0xd800 + (uint32_t)c.rng.below(0x800))
                                                                           : 0xd800 + (uint32_t)c.rng.below(0x800);
        if (c.rng.coin()) // the last unit: an unfinished sequence
          at = raw[i].size() - u;
        memcpy(&raw[i][at], &bad, u);
      }
      cps tmp;
      valid[i] = decode(st.enc, raw[i], tmp);
      if (valid[i])
        text[i] = tmp;
    }
    put(src_at(i), st, raw[i]);
  }
  for (size_t i = 0; i < dn; ++i)
    put(da.data() + i * dsz, dt, encode(dt.enc, cps(dt.kind == 0 ? c.rng.below(30) : dt.n, 'z')));
  std::string before_src;
  for (size_t i = 0; i < sn; ++i)
    before_src += get(sa.data() + i * ssz, st) + "|";
  std::vector<std::string> old(dn);
  for (size_t i = 0; i < dn; ++i)
    old[i] = get(da.data() + i * dsz, dt);
  bool nocheck = c.rng.chance(1, 3);
  nd::array s = sa(irange().by(sstep)), d = da(irange().by(dstep));
  std::string what = vf::cat(st.tp.str(), " to ", dt.tp.str(), nocheck ? " nocheck" : "", ", text ", show_cps(text[0]), " raw ", vf::hex(raw[0].data(), raw[0].size()));
  c.describe("convert " + what);
  auto o = dv::attempt([&] {
    if (nocheck)
      d.assign(s, assign_error_nocheck);
    else
      d.assign(s);
  });
  c.saw("convert", vf::mix(vf::hash_str(what), o.ok));
  c.sample(what);
  bool same = st.kind == 0 && dt.kind == 0; // copied as it is
  bool must_throw = false;
  for (size_t i = 0; i < n; ++i) {
    bool bad = !valid[i];
    if (!bad) {
      for (uint32_t x : text[i])
        bad |= !fits(dt.enc, x);
      if (dt.kind != 0)
        bad |= encode(dt.enc, text[i]).size() > dt.n * unit[dt.enc];
    }
    if (same)
      bad = false;
    must_throw |= bad;
  }
  if (nocheck)
    c.check(o.ok, "nocheck-threw", [&] { return what + ": " + o.msg; });
  else if (must_throw)
    c.check(!o.ok, "not-refused", [&] { return what; });
  else
    c.check(o.ok, "refused", [&] { return what + ": " + o.cls + " " + o.msg; });
  if (o.ok)
    for (size_t i = 0; i < n; ++i) {
      std::string g = get(da.data() + dst_index(i) * dsz, dt);
      if (same) {
        c.check(g == raw[i], "string-copy", [&] { return what + " gives " + quote(g); });
        continue;
      }
      cps want, got;
      if (valid[i]) {
        for (uint32_t x : text[i]) {
          want.push_back(fits(dt.enc, x) ? x : '?');
          if (dt.kind != 0 && encode(dt.enc, want).size() > dt.n * unit[dt.enc]) {
            want.pop_back();
            break;
          }
        }
        c.check(g == encode(dt.enc, want), "wrong-text", [&] {
          return vf::cat(what, ": element ", i, " ", show_cps(text[i]), " gives ", vf::hex(g.data(), g.size()), " instead of ", show_cps(want));
        });
      } else
        c.check(decode(dt.enc, g, got), "invalid-output", [&] { return vf::cat(what, " gives ", vf::hex(g.data(), g.size())); });
    }
  // nothing else was written
  std::string after_src;
  for (size_t i = 0; i < sn; ++i)
    after_src += get(sa.data() + i * ssz, st) + "|";
  c.check(after_src == before_src, "source-changed", [&] { return what; });
  std::vector<char> hit(dn, 0);
  for (size_t i = 0; i < n; ++i)
    hit[dst_index(i)] = 1;
  for (size_t i = 0; i < dn; ++i)
    if (!hit[i])
      c.check(get(da.data() + i * dsz, dt) == old[i], "wrote-elsewhere", [&] { return what; });
}

// decoding functions on exact-size buffers, valid or not
static void ranges(Ctx &c) {
  for (int k = 0; k < 10; ++k) {
    int enc = (int)c.rng.below(5);
    cps t = gen_text(c, enc, 20, 20);
    std::string raw = encode(enc, t);
    if (c.rng.coin() && !raw.empty()) {
      int m = 1 + (int)c.rng.below(3);
      for (int q = 0; q < m; ++q) {
        size_t u = unit[enc], at = c.rng.coin() ? raw.size() - u : c.rng.below(raw.size() / u) * u;
        uint32_t bad = u == 1 ? (uint32_t)(c.rng.coin() ? 0xc0 + c.rng.below(64) : c.rng.below(256)) : u == 2 ? 0xd800 + (uint32_t)c.rng.below(0x800) : (uint32_t)c.rng.next();
        memcpy(&raw[at], &bad, u);
      }
    }
    cps strict;
    bool ok = decode(enc, raw, strict);
    bool nocheck = c.rng.coin();
    char *x = new char[raw.size()];
    memcpy(x, raw.data(), raw.size());
    static const string_encoding_t E[] = {string_encoding_ascii, string_encoding_ucs_2, string_encoding_utf_8, string_encoding_utf_16, string_encoding_utf_32};
    c.describe(vf::cat("decode ", enc_name[enc], nocheck ? " nocheck " : " ", vf::hex(raw.data(), raw.size())));
    std::string got;
    auto o = dv::attempt([&] { got = string_range_as_utf8_string(E[enc], x, x + raw.size(), nocheck ? assign_error_nocheck : assign_error_default); });
    c.saw("decode", vf::mix(enc, vf::hash_str(raw)));
    if (enc != ASCII && enc != UTF8) { // those are passed on unchecked
      c.check(nocheck ? o.ok : o.ok == ok, "range-decode-outcome", [&] { return vf::cat(enc_name[enc], " ", vf::hex(raw.data(), raw.size()), " ", o.msg); });
      cps back;
      if (o.ok)
        c.check(decode(UTF8, got, back) && (!ok || back == strict), "range-decode", [&] { return vf::cat(vf::hex(raw.data(), raw.size()), " gives ", quote(got)); });
    }
    // one code point at a time
    const char *p = x;
    cps seq;
    auto next = get_next_unicode_codepoint_function(E[enc], nocheck ? assign_error_nocheck : assign_error_default);
    auto o2 = dv::attempt([&] {
      while (p < x + raw.size()) {
        const char *q = p;
        seq.push_back(next(p, x + raw.size()));
        if (!c.check(p > q, "no-progress", [&] { return vf::cat(enc_name[enc], " ", vf::hex(raw.data(), raw.size())); }))
          break;
      }
    });
    c.check(p <= x + raw.size(), "past-the-end", [&] { return vf::hex(raw.data(), raw.size()); });
    c.check(nocheck ? o2.ok : o2.ok == ok, "decode-outcome", [&] { return vf::cat(enc_name[enc], " ", vf::hex(raw.data(), raw.size())); });
    if (ok)
      c.check(seq == strict, "decode", [&] { return vf::cat(enc_name[enc], " ", vf::hex(raw.data(), raw.size()), " gives ", show_cps(seq)); });
    delete[] x;
    // and back, into buffers that are too small by any amount
    int denc = (int)c.rng.below(5);
    cps want;
    for (uint32_t cp : t)
      if (fits(denc, cp))
        want.push_back(cp);
    std::string full = encode(denc, want);
    size_t room = full.size() - (c.rng.coin() ? 0 : c.rng.below(full.size() + 1) / unit[denc] * unit[denc]);
    char *y = new char[room];
    auto append = get_append_unicode_codepoint_function(E[denc], nocheck ? assign_error_nocheck : assign_error_default);
    char *e = y;
    c.describe(vf::cat("encode ", enc_name[denc], nocheck ? " nocheck " : " ", show_cps(want), " into ", room, " bytes"));
    size_t done = 0;
    bool threw = false;
    auto o3 = dv::attempt([&] {
      for (uint32_t cp : want) {
        if (e >= y + room)
          break;
        append(cp, e, y + room);
        ++done;
      }
    });
    threw = !o3.ok;
    c.check(e <= y + room, "append-past-the-end", [&] { return show_cps(want); });
    c.check(!(threw && nocheck), "append-threw", [&] { return o3.msg; });
    if (!threw && room == full.size())
      c.check(std::string(y, e) == full, "encode", [&] { return vf::cat(enc_name[denc], " ", show_cps(want), " gives ", vf::hex(y, e - y)); });
    size_t common = 0; // whole code points that fit must be there
    cps pre;
    for (uint32_t cp : want) {
      pre.push_back(cp);
      if (encode(denc, pre).size() > room)
        break;
      common = encode(denc, pre).size();
    }
    c.check(std::string(y, common) == full.substr(0, common), "encode-prefix", [&] { return vf::hex(y, room); });
    delete[] y;
  }
}

// ---------------------------------------------------------------- arrays of strings are independent
static void elements(Ctx &c) {
  static const char *types[] = {"5 * string", "4 * 3 * string", "3 * {a: string, b: int32, c: bytes}", "6 * bytes", "4 * (string, string)"};
  ndt::type tp(types[c.rng.below(5)]);
  { // whatever the library keeps for good, it keeps now
    nd::array x = nd::empty(tp);
    x.assign(nd::empty(tp).eval_copy());
  }
  size_t before = vf::heap_bytes();
  {
    nd::array a = nd::empty(tp);
    // the leaves, by the documented layout
    std::vector<char *> leaf;
    std::vector<char> is_str;
    std::function<void(const ndt::type &, const char *, char *)> walk = [&](const ndt::type &t, const char *md, char *p) {
      if (t.get_id() == fixed_dim_id) {
        auto m = reinterpret_cast<const fixed_dim_type_arrmeta *>(md);
        for (intptr_t i = 0; i < m->dim_size; ++i)
          walk(t.extended<ndt::base_dim_type>()->get_element_type(), md + sizeof(fixed_dim_type_arrmeta), p + i * m->stride);
      } else if (t.get_id() == tuple_id || t.get_id() == struct_id) {
        bool tup = t.get_id() == tuple_id;
        auto tt = tup ? t.extended<ndt::tuple_type>() : nullptr;
        auto st = tup ? nullptr : t.extended<ndt::struct_type>();
        auto off = reinterpret_cast<const uintptr_t *>(md);
        for (intptr_t i = 0; i < (tup ? tt->get_field_count() : st->get_field_count()); ++i)
          walk((tup ? tt->get_field_types() : st->get_field_types())[i],
               md + (tup ? tt->get_arrmeta_offsets() : st->get_arrmeta_offsets())[i], p + off[i]);
      } else if (t.get_id() == string_id || t.get_id() == bytes_id) {
        leaf.push_back(p);
        is_str.push_back(t.get_id() == string_id);
      }
    };
    walk(tp, a.get()->metadata(), a.data());
    std::vector<std::string> w(leaf.size());
    std::vector<nd::array> copies;
    std::vector<std::vector<std::string>> copy_w;
    auto getleaf = [&](const char *p, bool s) {
      return s ? std::string(((const dynd::string *)p)->begin(), ((const dynd::string *)p)->end())
               : std::string(((const dynd::bytes *)p)->begin(), ((const dynd::bytes *)p)->end());
    };
    for (int k = 0; k < 20; ++k) {
      size_t i = c.rng.below(leaf.size()), j = c.rng.below(leaf.size());
      std::string b = blob(c, size_near(c));
      c.describe(vf::cat("array ", tp.str(), " leaf ", i, " := ", b.size(), " bytes"));
      if (c.rng.chance(1, 4) && is_str[i] == is_str[j]) {
        if (is_str[i])
          *(dynd::string *)leaf[i] = *(dynd::string *)leaf[j];
        else
          *(dynd::bytes *)leaf[i] = *(dynd::bytes *)leaf[j];
        w[i] = w[j];
      } else if (is_str[i]) {
        ((dynd::string *)leaf[i])->assign(b.data(), b.size());
        w[i] = b;
      } else {
        ((dynd::bytes *)leaf[i])->assign(b.data(), b.size());
        w[i] = b;
      }
      if (c.rng.chance(1, 6)) {
        nd::array x;
        if (c.rng.coin())
          x = a.eval_copy();
        else {
          x = nd::empty(tp);
          x.assign(a);
        }
        copies.push_back(x);
        copy_w.push_back(w);
      }
      for (size_t q = 0; q < leaf.size(); ++q)
        c.check(getleaf(leaf[q], is_str[q]) == w[q], "element-disturbed", [&] { return vf::cat(tp.str(), " leaf ", q, " after writing ", i); });
      c.saw("element", vf::mix(i, vf::mix(b.size(), leaf.size())));
    }
    for (size_t q = 0; q < copies.size(); ++q) {
      leaf.clear();
      is_str.clear();
      walk(tp, copies[q].get()->metadata(), copies[q].data());
      for (size_t i = 0; i < leaf.size(); ++i)
        c.check(getleaf(leaf[i], is_str[i]) == copy_w[q][i], "copy-disturbed", [&] { return vf::cat(tp.str(), " leaf ", i); });
    }
  }
  size_t after = vf::heap_bytes();
  c.check(after == before, "array-leak", [&] { return vf::cat((int64_t)(after - before), " bytes, ", tp.str()); });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "S02",
                 "strings hold what their shadow holds after every operation; converted text is the independent encoder's, or the "
                 "conversion throws when the text cannot be represented",
                 {{"string", 3000, 200000, history<dynd::string>, false},
                  {"bytes", 2000, 100000, history<dynd::bytes>, false},
                  {"convert", 10000, 400000, convert, false},
                  {"ranges", 3000, 200000, ranges, false},
                  {"elements", 600, 20000, elements, false}});
}
