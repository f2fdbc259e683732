// What the drivers share about dynd itself: a model value, an independent reader that walks raw array memory by the
// documented layout (it calls no indexing or element-access code of the library), and outcome classification.
#pragma once
#include "vf.hpp"
#include <dynd/array.hpp>
#include <dynd/exceptions.hpp>
#include <dynd/type.hpp>
#include <dynd/types/bytes_type.hpp>
#include <dynd/types/char_type.hpp>
#include <dynd/types/fixed_bytes_type.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/fixed_string_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/pointer_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/type_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <cmath>
#include <memory>
#include <typeinfo>

namespace dv {
using namespace dynd;
typedef __int128 i128;
typedef unsigned __int128 u128;

inline std::string i128s(i128 v) {
  if (v == 0)
    return "0";
  bool neg = v < 0;
  u128 u = neg ? (u128)0 - (u128)v : (u128)v;
  std::string s;
  while (u) {
    s.insert(s.begin(), char('0' + (int)(u % 10)));
    u /= 10;
  }
  return neg ? "-" + s : s;
}

// ---------------------------------------------------------------- outcomes
// "" when fn returned; otherwise the class of what it threw ("type_error", "overflow", "std::out_of_range", ...)
struct Outcome {
  bool ok = true;
  std::string cls, msg;
  explicit operator bool() const { return ok; }
};
template <class F>
Outcome attempt(F fn) {
  Outcome o;
  try {
    fn();
  } catch (const dynd::dynd_exception &e) {
    o.ok = false;
    o.cls = typeid(e).name();
    o.msg = e.what();
  } catch (const std::bad_alloc &e) {
    o.ok = false;
    o.cls = "bad_alloc";
    o.msg = e.what();
  } catch (const std::exception &e) {
    o.ok = false;
    o.cls = typeid(e).name();
    o.msg = e.what();
  }
  return o;
}

// The error for a refused text names a line and column of it, and shows that line. "" or what is wrong.
inline std::string misplaced(const std::string &text, const std::string &msg) {
  if (msg.find("Cannot get line number") != std::string::npos)
    return "the error names no place";
  size_t at = msg.find("Error parsing datashape at line ");
  if (at == std::string::npos)
    at = msg.find("Error parsing JSON at line ");
  if (at == std::string::npos)
    at = msg.find("Error validating JSON at line ");
  if (at == std::string::npos || at > 15) // another kind of error, or one from a text inside this one
    return "";
  long line = 0, col = 0;
  if (sscanf(msg.c_str() + msg.find("at line ", at), "at line %ld, column %ld", &line, &col) != 2)
    return "the error has no line and column";
  size_t b = 0;
  for (long l = 1; l < line; ++l) {
    b = text.find('\n', b);
    if (b++ == std::string::npos)
      return "the error is at a line that is not there";
  }
  size_t e = std::min(text.find('\n', b), text.size());
  if (line < 1 || col < 1 || (size_t)col > e - b + 1)
    return "the error is at a column that is not there";
  std::string l = text.substr(b, e - b);
  if (l.size() < 150 && text.find('\0') == std::string::npos && msg.find("\n" + l + "\n", at) == std::string::npos)
    return "the error shows another line";
  return "";
}

// ---------------------------------------------------------------- model values
struct Val {
  enum K { None, NA, Int, Flt, Cplx, Str, Seq, Raw } k = None;
  i128 i = 0;
  double d = 0, d2 = 0;
  std::string s;
  std::vector<Val> kids;
  static Val I(i128 v) {
    Val x;
    x.k = Int;
    x.i = v;
    return x;
  }
  static Val F(double v) {
    Val x;
    x.k = Flt;
    x.d = v;
    return x;
  }
  static Val C(double re, double im) {
    Val x;
    x.k = Cplx;
    x.d = re;
    x.d2 = im;
    return x;
  }
  static Val S(const std::string &v) {
    Val x;
    x.k = Str;
    x.s = v;
    return x;
  }
  static Val L(std::vector<Val> v) {
    Val x;
    x.k = Seq;
    x.kids = std::move(v);
    return x;
  }
  static Val N() {
    Val x;
    x.k = NA;
    return x;
  }
};
inline bool same_double(double a, double b) {
  if (std::isnan(a) || std::isnan(b))
    return std::isnan(a) && std::isnan(b);
  return a == b && std::signbit(a) == std::signbit(b);
}
inline bool operator==(const Val &a, const Val &b) {
  if (a.k != b.k)
    return false;
  switch (a.k) {
  case Val::Int:
    return a.i == b.i;
  case Val::Flt:
    return same_double(a.d, b.d);
  case Val::Cplx:
    return same_double(a.d, b.d) && same_double(a.d2, b.d2);
  case Val::Str:
  case Val::Raw:
    return a.s == b.s;
  case Val::Seq:
    return a.kids == b.kids;
  default:
    return true;
  }
}
inline bool operator!=(const Val &a, const Val &b) { return !(a == b); }
inline std::string show(const Val &v) {
  switch (v.k) {
  case Val::NA:
    return "NA";
  case Val::Int:
    return i128s(v.i);
  case Val::Flt:
    return vf::cat(v.d);
  case Val::Cplx:
    return vf::cat("(", v.d, ",", v.d2, ")");
  case Val::Str:
    return vf::quote(v.s);
  case Val::Raw:
    return "0x" + vf::hex(v.s.data(), v.s.size());
  case Val::Seq: {
    std::string o = "[";
    for (size_t i = 0; i < v.kids.size(); ++i) {
      if (i)
        o += ",";
      if (o.size() > 600)
        return o + "...]";
      o += show(v.kids[i]);
    }
    return o + "]";
  }
  default:
    return "?";
  }
}
inline uint64_t hash(const Val &v) {
  uint64_t h = vf::mix(v.k, 17);
  switch (v.k) {
  case Val::Int:
    return vf::mix(h, vf::hash_bytes(&v.i, 16));
  case Val::Flt:
  case Val::Cplx:
    return vf::mix(vf::mix(h, vf::hash_bytes(&v.d, 8)), vf::hash_bytes(&v.d2, 8));
  case Val::Str:
  case Val::Raw:
    return vf::mix(h, vf::hash_str(v.s));
  case Val::Seq:
    for (const Val &x : v.kids)
      h = vf::mix(h, hash(x));
    return h;
  default:
    return h;
  }
}

inline float f16_to_float(uint16_t h) { // independent of dynd's own
  int s = h >> 15, e = (h >> 10) & 31, m = h & 1023;
  float v;
  if (e == 0)
    v = std::ldexp((float)m, -24);
  else if (e == 31)
    v = m ? std::nanf("") : INFINITY;
  else
    v = std::ldexp((float)(m + 1024), e - 25);
  return s ? -v : v;
}
template <class T>
T ld(const char *p) {
  T t;
  memcpy(&t, p, sizeof t);
  return t;
}

inline const ndt::type &builtin(type_id_t id) {
  static const ndt::type t[] = {ndt::type("bool"),    ndt::type("int8"),    ndt::type("int16"),  ndt::type("int32"),
                                ndt::type("int64"),   ndt::type("int128"),  ndt::type("uint8"),  ndt::type("uint16"),
                                ndt::type("uint32"),  ndt::type("uint64"),  ndt::type("uint128"), ndt::type("float16"),
                                ndt::type("float32"), ndt::type("float64"), ndt::type("complex[float32]"),
                                ndt::type("complex[float64]")};
  for (const ndt::type &x : t)
    if (x.get_id() == id)
      return x;
  throw std::runtime_error("not a builtin type");
}

// ---------------------------------------------------------------- independent reader
inline bool na_bits(type_id_t id, const char *p) {
  switch (id) {
  case bool_id:
    return (unsigned char)*p > 1;
  case int8_id:
    return ld<int8_t>(p) == INT8_MIN;
  case int16_id:
    return ld<int16_t>(p) == INT16_MIN;
  case int32_id:
    return ld<int32_t>(p) == INT32_MIN;
  case int64_id:
    return ld<int64_t>(p) == INT64_MIN;
  case uint8_id:
    return ld<uint8_t>(p) == UINT8_MAX;
  case uint16_id:
    return ld<uint16_t>(p) == UINT16_MAX;
  case uint32_id:
    return ld<uint32_t>(p) == UINT32_MAX;
  case uint64_id:
    return ld<uint64_t>(p) == UINT64_MAX;
  case uint128_id:
    return ld<u128>(p) == ~(u128)0;
  case int128_id:
    return ld<u128>(p) == (u128)1 << 127;
  case float32_id:
    return ld<uint32_t>(p) == 0x7f8007a2u;
  case float64_id:
    return ld<uint64_t>(p) == 0x7ff00000000007a2ull;
  case complex_float32_id:
    return ld<uint32_t>(p) == 0x7f8007a2u && ld<uint32_t>(p + 4) == 0x7f8007a2u;
  case complex_float64_id:
    return ld<uint64_t>(p) == 0x7ff00000000007a2ull && ld<uint64_t>(p + 8) == 0x7ff00000000007a2ull;
  default:
    return false;
  }
}

inline Val read(const ndt::type &tp, const char *md, const char *p) {
  Val v;
  switch (tp.get_id()) {
  case bool_id:
    return Val::I(ld<uint8_t>(p));
  case int8_id:
    return Val::I(ld<int8_t>(p));
  case int16_id:
    return Val::I(ld<int16_t>(p));
  case int32_id:
    return Val::I(ld<int32_t>(p));
  case int64_id:
    return Val::I(ld<int64_t>(p));
  case int128_id:
    return Val::I(ld<i128>(p));
  case uint8_id:
    return Val::I(ld<uint8_t>(p));
  case uint16_id:
    return Val::I(ld<uint16_t>(p));
  case uint32_id:
    return Val::I(ld<uint32_t>(p));
  case uint64_id:
    return Val::I(ld<uint64_t>(p));
  case uint128_id:
    return Val::I((i128)ld<u128>(p));
  case float16_id:
    return Val::F(f16_to_float(ld<uint16_t>(p)));
  case float32_id:
    return Val::F(ld<float>(p));
  case float64_id:
    return Val::F(ld<double>(p));
  case complex_float32_id:
    return Val::C(ld<float>(p), ld<float>(p + 4));
  case complex_float64_id:
    return Val::C(ld<double>(p), ld<double>(p + 8));
  case string_id: {
    const dynd::string *s = reinterpret_cast<const dynd::string *>(p);
    return Val::S(std::string(s->begin(), s->end()));
  }
  case bytes_id: {
    const dynd::bytes *s = reinterpret_cast<const dynd::bytes *>(p);
    v.k = Val::Raw;
    v.s.assign(s->begin(), s->end());
    return v;
  }
  case type_id:
    return Val::S(reinterpret_cast<const ndt::type *>(p)->str());
  case fixed_string_id:
  case fixed_bytes_id:
  case char_id:
    v.k = Val::Raw;
    v.s.assign(p, tp.get_data_size());
    return v;
  case option_id: {
    const ndt::type &vt = tp.extended<ndt::option_type>()->get_value_type();
    if (vt.is_builtin()) {
      if (na_bits(vt.get_id(), p))
        return Val::N();
    } else if (vt.get_id() == string_id) {
      // An NA string is a null one: no bytes and no storage
      const dynd::string *s = reinterpret_cast<const dynd::string *>(p);
      if (s->size() == 0)
        return Val::N();
    }
    return read(vt, md, p);
  }
  case fixed_dim_id: {
    const fixed_dim_type_arrmeta *m = reinterpret_cast<const fixed_dim_type_arrmeta *>(md);
    const ndt::type &et = tp.extended<ndt::base_dim_type>()->get_element_type();
    v.k = Val::Seq;
    for (intptr_t i = 0; i < m->dim_size; ++i)
      v.kids.push_back(read(et, md + sizeof(fixed_dim_type_arrmeta), p + i * m->stride));
    return v;
  }
  case var_dim_id: {
    const ndt::var_dim_type::metadata_type *m = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(md);
    const ndt::var_dim_type::data_type *d = reinterpret_cast<const ndt::var_dim_type::data_type *>(p);
    const ndt::type &et = tp.extended<ndt::base_dim_type>()->get_element_type();
    v.k = Val::Seq;
    if (d->begin == nullptr) {
      v.k = d->size ? Val::None : Val::Seq;
      return v;
    }
    for (size_t i = 0; i < d->size; ++i)
      v.kids.push_back(read(et, md + sizeof(ndt::var_dim_type::metadata_type),
                            d->begin + m->offset + (intptr_t)i * m->stride));
    return v;
  }
  case tuple_id: {
    const ndt::tuple_type *t = tp.extended<ndt::tuple_type>();
    const uintptr_t *off = reinterpret_cast<const uintptr_t *>(md);
    v.k = Val::Seq;
    for (intptr_t i = 0; i < t->get_field_count(); ++i)
      v.kids.push_back(read(t->get_field_types()[i], md + t->get_arrmeta_offsets()[i], p + off[i]));
    return v;
  }
  case struct_id: {
    const ndt::struct_type *t = tp.extended<ndt::struct_type>();
    const uintptr_t *off = reinterpret_cast<const uintptr_t *>(md);
    v.k = Val::Seq;
    for (intptr_t i = 0; i < t->get_field_count(); ++i)
      v.kids.push_back(read(t->get_field_types()[i], md + t->get_arrmeta_offsets()[i], p + off[i]));
    return v;
  }
  default:
    v.k = Val::Raw;
    if (tp.get_data_size())
      v.s.assign(p, tp.get_data_size());
    return v;
  }
}
inline Val read(const nd::array &a) { return read(a.get_type(), a.get()->metadata(), a.cdata()); }

} // namespace dv
