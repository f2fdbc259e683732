// An exact model of decimal text.
#pragma once
#include "dv.hpp"
#include <cctype>

namespace dec {
using namespace dynd;
using dv::i128;
using dv::u128;

// ---------------------------------------------------------------- (-1)^neg * digits * 10^exp
struct Dec {
  bool neg = false;
  std::string d; // no leading zeros; empty for zero
  long exp = 0;
  bool strict_int = false; // -?d+
};
// -? (d+ (. d*)? | . d+) ([eE][+-]?d+)?
inline bool read_dec(const std::string &s, Dec &r) {
  size_t i = 0;
  r = Dec();
  if (i < s.size() && s[i] == '-')
    r.neg = true, ++i;
  size_t nd = 0;
  bool plain = true;
  while (i < s.size() && isdigit((unsigned char)s[i]))
    r.d += s[i++], ++nd;
  if (i < s.size() && s[i] == '.') {
    plain = false;
    ++i;
    while (i < s.size() && isdigit((unsigned char)s[i]))
      r.d += s[i++], ++nd, --r.exp;
  }
  if (!nd)
    return false;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    plain = false;
    ++i;
    bool en = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+'))
      en = s[i++] == '-';
    size_t st = i;
    long e = 0;
    while (i < s.size() && isdigit((unsigned char)s[i]))
      e = std::min(e * 10 + (s[i++] - '0'), 1000000l);
    if (i == st)
      return false;
    r.exp += en ? -e : e;
  }
  if (i != s.size())
    return false;
  r.strict_int = plain;
  size_t z = r.d.find_first_not_of('0');
  r.d = z == std::string::npos ? "" : r.d.substr(z);
  while (!r.d.empty() && r.d.back() == '0')
    r.d.pop_back(), ++r.exp;
  if (r.d.empty())
    r.exp = 0;
  return true;
}
enum { Whole, Fraction, Huge };
inline int magnitude(const Dec &x, u128 &m) { // |x| if it is whole and fits
  m = 0;
  if (x.d.empty())
    return Whole;
  if (x.exp < 0)
    return Fraction;
  if ((long)x.d.size() + x.exp > 39)
    return Huge;
  for (long i = 0; i < (long)x.d.size() + x.exp; ++i) {
    unsigned dg = i < (long)x.d.size() ? x.d[i] - '0' : 0;
    if (m > (~(u128)0 - dg) / 10)
      return Huge;
    m = m * 10 + dg;
  }
  return Whole;
}
inline std::string dec_u(u128 m) {
  std::string s;
  do
    s += (char)('0' + (int)(m % 10)), m /= 10;
  while (m);
  std::reverse(s.begin(), s.end());
  return s;
}
inline int bits(type_id_t t) {
  switch (t) {
  case int8_id: case uint8_id: return 8;
  case int16_id: case uint16_id: return 16;
  case int32_id: case uint32_id: return 32;
  case int64_id: case uint64_id: return 64;
  default: return 128;
  }
}
inline bool sgn(type_id_t t) { return t >= int8_id && t <= int128_id; }
inline u128 top(type_id_t t) { // largest
  u128 all = bits(t) == 128 ? ~(u128)0 : ((u128)1 << bits(t)) - 1;
  return sgn(t) ? all >> 1 : all;
}
inline bool fits(type_id_t t, bool neg, u128 m) { return neg ? (sgn(t) ? m <= top(t) + 1 : m == 0) : m <= top(t); }


// text an optional value takes for a missing one
inline bool na_text(const std::string &s) {
  std::string l = s;
  for (char &ch : l)
    ch = (char)tolower((unsigned char)ch);
  return s.empty() || s == "NA" || l == "null" || s == "None";
}
static const char *const bool_true[] = {"1", "y", "t", "true", "on", "yes"};
static const char *const bool_false[] = {"0", "n", "f", "false", "off", "no"};
inline int bool_word(const std::string &s) { // -1: none
  std::string l;
  for (char ch : s)
    l += (char)tolower((unsigned char)ch);
  for (int i = 0; i < 6; ++i)
    if (l == bool_true[i] || l == bool_false[i])
      return l == bool_true[i];
  return -1;
}
} // namespace dec
