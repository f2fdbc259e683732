// Generated type expressions: a tree the generator owns, ways to spell it as datashape text, a structural comparison
// with a parsed ndt::type, and a way to build the same type through constructors instead of text.
#pragma once
#include "dv.hpp"
#include <dynd/types/any_kind_type.hpp>
#include <dynd/types/array_type.hpp>
#include <dynd/types/callable_type.hpp>
#include <dynd/types/dim_kind_type.hpp>
#include <dynd/types/ellipsis_dim_type.hpp>
#include <dynd/types/fixed_dim_kind_type.hpp>
#include <dynd/types/pow_dimsym_type.hpp>
#include <dynd/types/scalar_kind_type.hpp>
#include <dynd/types/typevar_constructed_type.hpp>
#include <dynd/types/typevar_dim_type.hpp>
#include <dynd/types/typevar_type.hpp>
#include <dynd/json_parser.hpp>

namespace tg {
using namespace dynd;
using vf::Rng;

enum Kind {
  Scalar, // a builtin or argument-less type, by name
  FixedString,
  FixedBytes,
  Bytes,
  Char,
  Fixed,
  Var,
  FixedKind,
  DimKind,
  DimVar,
  Ellipsis,
  PowVar, // base ** NAME
  Tuple,
  Struct,
  Option,
  Pointer,
  Callable,
  TypeVar,
  TypeVarCon,
};

struct T;
typedef std::shared_ptr<T> P;
struct T {
  Kind k;
  std::string name; // scalar name, type variable, encoding
  int64_t n = 0;    // sizes
  int64_t m = 0;    // alignment
  bool variadic = false;
  std::vector<P> kids; // element / fields / positional arguments
  std::vector<std::string> names;
  P ret, kwd; // callable
};
inline P mk(Kind k) {
  P p = std::make_shared<T>();
  p->k = k;
  return p;
}

struct ScalarInfo {
  const char *name;
  type_id_t id;
  int size, align;
  bool symbolic;
  std::vector<const char *> aliases;
};
inline const std::vector<ScalarInfo> &scalars() {
  static const std::vector<ScalarInfo> v = {
      {"bool", bool_id, 1, 1, false, {}},
      {"int8", int8_id, 1, 1, false, {}},
      {"int16", int16_id, 2, 2, false, {}},
      {"int32", int32_id, 4, 4, false, {"int"}},
      {"int64", int64_id, 8, 8, false, {"intptr"}},
      {"int128", int128_id, 16, 8, false, {}},
      {"uint8", uint8_id, 1, 1, false, {}},
      {"uint16", uint16_id, 2, 2, false, {}},
      {"uint32", uint32_id, 4, 4, false, {}},
      {"uint64", uint64_id, 8, 8, false, {"uintptr", "size"}},
      {"uint128", uint128_id, 16, 8, false, {}},
      {"float16", float16_id, 2, 2, false, {}},
      {"float32", float32_id, 4, 4, false, {}},
      {"float64", float64_id, 8, 8, false, {"real"}},
      {"complex[float32]", complex_float32_id, 8, 4, false, {"complex64"}},
      {"complex[float64]", complex_float64_id, 16, 8, false, {"complex128", "complex"}},
      {"string", string_id, 16, 8, false, {}},
      {"type", type_id, 8, 8, false, {}},
      {"void", void_id, 0, 1, false, {}},
      {"array", array_id, 8, 8, false, {}},
      {"Any", any_kind_id, 0, 1, true, {}},
      {"Scalar", scalar_kind_id, 0, 0, true, {}},
      {"Bool", bool_kind_id, 0, 1, true, {}},
      {"Int", int_kind_id, 0, 1, true, {}},
      {"UInt", uint_kind_id, 0, 1, true, {}},
      {"Float", float_kind_id, 0, 1, true, {}},
      {"Complex", complex_kind_id, 0, 1, true, {}},
      {"String", string_kind_id, 0, 1, true, {}},
      {"Bytes", bytes_kind_id, 0, 1, true, {}},
      {"FixedString", fixed_string_kind_id, 0, 0, true, {}},
      {"FixedBytes", fixed_bytes_kind_id, 0, 0, true, {}},
      {"Categorical", categorical_kind_id, 0, 0, true, {}},
  };
  return v;
}
inline const ScalarInfo *scalar(const std::string &name) {
  for (auto &s : scalars())
    if (name == s.name)
      return &s;
  return nullptr;
}
struct Enc {
  const char *name;
  int size;
  std::vector<const char *> aliases;
};
inline const std::vector<Enc> &encodings() {
  static const std::vector<Enc> v = {{"ascii", 1, {"us-ascii"}}, {"utf8", 1, {"utf-8"}}, {"ucs2", 2, {}},
                                     {"utf16", 2, {"utf-16"}}, {"utf32", 4, {"utf-32"}}};
  return v;
}
inline int enc_size(const std::string &n) {
  for (auto &e : encodings())
    if (n == e.name)
      return e.size;
  return 0;
}

struct GenOpts {
  bool symbolic = true;
  bool callables = true;
  bool odd_names = true;
  bool options = true;
  bool var = true;
};

inline std::string ident(Rng &r) {
  static const char *base[] = {"x", "y", "name", "Value", "_p", "a1", "id_2", "type", "int32", "T"};
  std::string s = base[r.below(10)];
  if (r.chance(1, 3))
    s += std::to_string(r.below(100));
  return s;
}
inline void put_cp(std::string &s, uint32_t cp) {
  if (cp < 0x80)
    s += (char)cp;
  else if (cp < 0x800) {
    s += (char)(0xc0 | cp >> 6);
    s += (char)(0x80 | (cp & 63));
  } else if (cp < 0x10000) {
    s += (char)(0xe0 | cp >> 12);
    s += (char)(0x80 | (cp >> 6 & 63));
    s += (char)(0x80 | (cp & 63));
  } else {
    s += (char)(0xf0 | cp >> 18);
    s += (char)(0x80 | (cp >> 12 & 63));
    s += (char)(0x80 | (cp >> 6 & 63));
    s += (char)(0x80 | (cp & 63));
  }
}
inline uint32_t rand_cp(Rng &r) {
  switch (r.below(8)) {
  case 0:
    return 1 + r.below(31);
  case 1:
    return "'\"\\/ #:,"[r.below(8)];
  case 2:
    return 0xa1 + r.below(0x700);
  case 3:
    return 0x800 + r.below(0xd000 - 0x800);
  case 4:
    return 0xe000 + r.below(0xfffd - 0xe000);
  case 5:
    return 0x10000 + r.below(0x100000);
  default:
    return ' ' + r.below(95);
  }
}
inline std::string field_name(Rng &r, bool odd) {
  if (!odd || r.chance(3, 4))
    return ident(r);
  std::string s;
  size_t n = r.below(6);
  for (size_t i = 0; i < n; ++i)
    put_cp(s, rand_cp(r));
  return s;
}
inline std::string var_name(Rng &r) {
  static const char *v[] = {"T", "S", "M", "N", "Dims", "A0", "K_x", "Tp1", "Rest", "Xyz"};
  return v[r.below(10)];
}

inline P gen(Rng &r, int depth, const GenOpts &o);
inline P gen_leaf(Rng &r, const GenOpts &o) {
  switch (r.below(o.symbolic ? 9 : 7)) {
  case 0: {
    P p = mk(FixedString);
    p->n = 1 + r.below(40);
    p->name = encodings()[r.below(encodings().size())].name;
    return p;
  }
  case 1: {
    P p = mk(FixedBytes);
    p->m = 1 << r.below(4);
    p->n = p->m * (1 + r.below(6));
    return p;
  }
  case 2: {
    P p = mk(Bytes);
    p->m = r.coin() ? 1 : 1 << r.below(4);
    return p;
  }
  case 3: {
    P p = mk(Char);
    static const char *e[] = {"ascii", "ucs2", "utf32"}; // a char is one fixed-size unit
    p->name = e[r.below(3)];
    return p;
  }
  case 7: {
    P p = mk(TypeVar);
    p->name = var_name(r);
    return p;
  }
  default: {
    const ScalarInfo *s;
    do
      s = &scalars()[r.below(scalars().size())];
    while (s->symbolic && !o.symbolic);
    P p = mk(Scalar);
    p->name = s->name;
    return p;
  }
  }
}
inline std::vector<std::string> gen_names(Rng &r, size_t n, bool odd) {
  std::vector<std::string> v;
  while (v.size() < n) {
    std::string s = field_name(r, odd);
    bool dup = false;
    for (auto &x : v)
      dup |= x == s;
    if (!dup)
      v.push_back(s);
  }
  return v;
}
inline P gen(Rng &r, int depth, const GenOpts &o) {
  if (depth <= 0 || r.chance(1, 6))
    return gen_leaf(r, o);
  P p;
  switch (r.below(14)) {
  case 0:
  case 1:
  case 2:
    p = mk(Fixed);
    p->n = r.chance(1, 8) ? 0 : r.chance(1, 10) ? (int64_t)r.below(1000000) : (int64_t)(1 + r.below(9));
    p->kids.push_back(gen(r, depth - 1, o));
    return p;
  case 3:
    if (!o.var)
      break;
    p = mk(Var);
    p->kids.push_back(gen(r, depth - 1, o));
    return p;
  case 4:
  case 5:
    p = mk(Tuple);
    for (size_t i = 0, n = r.below(5); i < n; ++i)
      p->kids.push_back(gen(r, depth - 1, o));
    p->variadic = o.symbolic && r.chance(1, 6);
    return p;
  case 6:
  case 7:
    p = mk(Struct);
    p->names = gen_names(r, r.below(5), o.odd_names);
    for (size_t i = 0; i < p->names.size(); ++i)
      p->kids.push_back(gen(r, depth - 1, o));
    p->variadic = o.symbolic && r.chance(1, 6);
    return p;
  case 8: {
    if (!o.options)
      break;
    P k = gen(r, depth - 1, o);
    if (k->k == Option)
      return k;
    p = mk(Option);
    p->kids.push_back(k);
    return p;
  }
  case 9:
    p = mk(Pointer);
    p->kids.push_back(gen(r, depth - 1, o));
    return p;
  case 10: {
    if (!o.callables)
      break;
    p = mk(Callable);
    for (size_t i = 0, n = r.below(4); i < n; ++i)
      p->kids.push_back(gen(r, depth - 1, o));
    p->variadic = r.chance(1, 4);
    p->ret = gen(r, depth - 1, o);
    p->kwd = mk(Struct);
    p->kwd->names = gen_names(r, r.coin() ? 0 : r.below(4), false);
    for (size_t i = 0; i < p->kwd->names.size(); ++i)
      p->kwd->kids.push_back(gen(r, depth - 1, o));
    // with no keyword written, a trailing ellipsis covers the keywords too
    p->kwd->variadic = p->kwd->kids.empty() ? p->variadic : r.chance(1, 4);
    return p;
  }
  case 11: {
    if (!o.symbolic)
      break;
    switch (r.below(5)) {
    case 0:
      p = mk(FixedKind);
      break;
    case 1:
      p = mk(DimKind);
      break;
    case 2:
      p = mk(DimVar);
      p->name = var_name(r);
      break;
    case 3:
      p = mk(Ellipsis);
      p->name = r.coin() ? "" : var_name(r);
      break;
    default:
      p = mk(PowVar);
      p->name = var_name(r);
      switch (r.below(4)) {
      case 0:
        p->ret = mk(Fixed);
        p->ret->n = 1 + r.below(9);
        break;
      case 1:
        p->ret = mk(Var);
        break;
      case 2:
        p->ret = mk(FixedKind);
        break;
      default:
        p->ret = mk(DimVar);
        p->ret->name = var_name(r);
      }
    }
    p->kids.push_back(gen(r, depth - 1, o));
    return p;
  }
  case 12:
    if (!o.symbolic)
      break;
    p = mk(TypeVarCon);
    p->name = var_name(r);
    p->kids.push_back(gen(r, depth - 1, o));
    return p;
  default:
    break;
  }
  return gen_leaf(r, o);
}

// the generator's own canonical key: two trees denote the same type exactly when their keys are equal
inline std::string key(const P &p) {
  std::string s = std::to_string(p->k) + "<" + p->name + "|" + std::to_string(p->n) + "|" + std::to_string(p->m) + "|" +
                  (p->variadic ? "v" : "");
  for (size_t i = 0; i < p->kids.size(); ++i) {
    s += ";";
    if (i < p->names.size())
      s += vf::quote(p->names[i]) + ":";
    s += key(p->kids[i]);
  }
  if (p->kwd)
    s += ";k" + key(p->kwd);
  if (p->ret)
    s += ";r" + key(p->ret);
  return s + ">";
}

// -------------------------------------------------------------- spelling
// style 0: plain; otherwise random white space, comments, aliases, trailing commas and quotes
struct Speller {
  Rng &r;
  int style;
  std::string o;
  void ws() {
    if (!style)
      return;
    switch (r.below(8)) {
    case 0:
      o += "\n";
      break;
    case 1:
      o += "\t ";
      break;
    case 2:
      o += r.chance(1, 4) ? " # a comment, with * ( { tokens\n" : " ";
      break;
    case 3:
      o += "  ";
      break;
    default:
      break;
    }
  }
  void tok(const std::string &t) {
    ws();
    o += t;
  }
  static bool simple(const std::string &s) {
    if (s.empty() || !(isalpha((unsigned char)s[0]) || s[0] == '_'))
      return false;
    for (char c : s)
      if (!(isalnum((unsigned char)c) || c == '_'))
        return false;
    return true;
  }
  std::string quoted(const std::string &s) {
    char q = style && r.coin() ? '"' : '\'';
    std::string t(1, q);
    for (size_t i = 0; i < s.size(); ++i) {
      unsigned char c = s[i];
      if (c == (unsigned char)q || c == '\\') {
        t += '\\';
        t += c;
      } else if (c == '\n')
        t += "\\n";
      else if (c == '\t')
        t += "\\t";
      else if (c == '\r')
        t += "\\r";
      else if (c == '\b')
        t += "\\b";
      else if (c == '\f')
        t += "\\f";
      else if (c < 0x20) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c);
        t += b;
      } else if (style && c < 0x80 && r.chance(1, 6)) {
        char b[8];
        snprintf(b, sizeof b, r.coin() ? "\\u%04x" : "\\u%04X", c);
        t += b;
      } else
        t += c;
    }
    return t + q;
  }
  void fname(const std::string &n) { tok(simple(n) && !(style && r.chance(1, 4)) ? n : quoted(n)); }
  void fields(const P &p) {
    for (size_t i = 0; i < p->kids.size(); ++i) {
      if (i)
        tok(",");
      if (i < p->names.size()) {
        fname(p->names[i]);
        tok(":");
      }
      put(p->kids[i]);
    }
  }
  void put(const P &p) {
    switch (p->k) {
    case Scalar: {
      const ScalarInfo *s = scalar(p->name);
      if (style && !s->aliases.empty() && r.coin())
        tok(s->aliases[r.below(s->aliases.size())]);
      else
        tok(p->name);
      break;
    }
    case FixedString:
    case Char: {
      std::string e = p->name;
      if (style && r.coin())
        for (auto &x : encodings())
          if (e == x.name && !x.aliases.empty())
            e = x.aliases[0];
      if (p->k == FixedString) {
        tok("fixed_string");
        tok("[");
        tok(std::to_string(p->n));
        if (p->name != "utf8" || (style && r.coin())) {
          tok(",");
          tok(quoted(e));
        }
        tok("]");
      } else {
        tok("char");
        if (p->name != "utf32" || (style && r.coin())) {
          tok("[");
          tok(quoted(e));
          tok("]");
        }
      }
      break;
    }
    case FixedBytes:
      tok("fixed_bytes");
      tok("[");
      tok(std::to_string(p->n));
      if (p->m != 1 || (style && r.coin())) {
        tok(",");
        tok("align");
        tok("=");
        tok(std::to_string(p->m));
      }
      tok("]");
      break;
    case Bytes:
      tok("bytes");
      if (p->m != 1 || (style && r.coin())) {
        tok("[");
        tok("align");
        tok("=");
        tok(std::to_string(p->m));
        tok("]");
      }
      break;
    case Fixed: {
      // runs of equal fixed dimensions may be written as a power
      size_t run = 1;
      P q = p->kids[0];
      while (q->k == Fixed && q->n == p->n) {
        ++run;
        q = q->kids[0];
      }
      if (style && run > 1 && r.coin()) {
        tok(std::to_string(p->n));
        tok("**");
        tok(std::to_string(run));
        tok("*");
        put(q);
        break;
      }
      if (style && r.chance(1, 5)) {
        tok("fixed");
        tok("[");
        tok(std::to_string(p->n));
        tok("]");
      } else
        tok(std::to_string(p->n));
      tok("*");
      put(p->kids[0]);
      break;
    }
    case Var:
      tok("var");
      tok("*");
      put(p->kids[0]);
      break;
    case FixedKind:
      tok("Fixed");
      tok("*");
      put(p->kids[0]);
      break;
    case DimKind:
      tok("Dim");
      tok("*");
      put(p->kids[0]);
      break;
    case DimVar:
      tok(p->name);
      tok("*");
      put(p->kids[0]);
      break;
    case Ellipsis:
      if (!p->name.empty())
        tok(p->name);
      tok("...");
      tok("*");
      put(p->kids[0]);
      break;
    case PowVar:
      switch (p->ret->k) {
      case Fixed:
        tok(std::to_string(p->ret->n));
        break;
      case Var:
        tok("var");
        break;
      case FixedKind:
        tok("Fixed");
        break;
      default:
        tok(p->ret->name);
      }
      tok("**");
      tok(p->name);
      tok("*");
      put(p->kids[0]);
      break;
    case Tuple:
      tok("(");
      fields(p);
      if (p->variadic) {
        if (!p->kids.empty())
          tok(",");
        tok("...");
      } else if (style && !p->kids.empty() && r.chance(1, 5))
        tok(",");
      tok(")");
      break;
    case Struct:
      tok("{");
      fields(p);
      if (p->variadic) {
        if (!p->kids.empty())
          tok(",");
        tok("...");
      } else if (style && !p->kids.empty() && r.chance(1, 5))
        tok(",");
      tok("}");
      break;
    case Option:
      if (style && r.chance(1, 6)) {
        tok("option");
        tok("[");
        put(p->kids[0]);
        tok("]");
      } else {
        tok("?");
        put(p->kids[0]);
      }
      break;
    case Pointer:
      tok("pointer");
      tok("[");
      put(p->kids[0]);
      tok("]");
      break;
    case Callable: {
      tok("(");
      fields(p);
      bool any = !p->kids.empty();
      if (p->variadic) {
        if (any)
          tok(",");
        tok("...");
        any = true;
      }
      for (size_t i = 0; i < p->kwd->kids.size(); ++i) {
        if (any)
          tok(",");
        any = true;
        tok(p->kwd->names[i]);
        tok(":");
        put(p->kwd->kids[i]);
      }
      if (p->kwd->variadic && !p->kwd->kids.empty()) {
        tok(",");
        tok("...");
      }
      tok(")");
      tok("->");
      put(p->ret);
      break;
    }
    case TypeVar:
      tok(p->name);
      break;
    case TypeVarCon:
      tok(p->name);
      tok("[");
      put(p->kids[0]);
      tok("]");
      break;
    }
  }
};
inline std::string spell(const P &p, Rng &r, int style) {
  Speller s{r, style, ""};
  s.put(p);
  s.ws();
  return s.o;
}

// -------------------------------------------------------------- structural comparison with a parsed type
inline std::string diff(const P &p, const ndt::type &t); // "" when they agree
inline std::string diff_fields(const P &p, const std::vector<ndt::type> &v, const std::vector<std::string> *names,
                               bool variadic) {
  if (v.size() != p->kids.size())
    return vf::cat("field count ", v.size(), " != ", p->kids.size());
  if (variadic != p->variadic)
    return "variadic flag differs";
  for (size_t i = 0; i < v.size(); ++i) {
    if (names && (*names)[i] != p->names[i])
      return "field name " + vf::quote((*names)[i]) + " != " + vf::quote(p->names[i]);
    std::string d = diff(p->kids[i], v[i]);
    if (!d.empty())
      return d;
  }
  return "";
}
inline std::string diff(const P &p, const ndt::type &t) {
  auto id = [&](type_id_t want) {
    return t.get_id() == want ? std::string() : vf::cat("kind ", t.get_id(), " where the text says ", want);
  };
  auto elem = [&]() { return diff(p->kids[0], t.extended<ndt::base_dim_type>()->get_element_type()); };
  std::string d;
  switch (p->k) {
  case Scalar: {
    const ScalarInfo *s = scalar(p->name);
    if (!(d = id(s->id)).empty())
      return d;
    if (!s->symbolic && (t.get_data_size() != (size_t)s->size || t.get_data_alignment() != (size_t)s->align))
      return vf::cat("size/alignment of ", p->name, ": ", t.get_data_size(), "/", t.get_data_alignment());
    if (t.is_symbolic() != s->symbolic)
      return "symbolic flag of " + p->name;
    return "";
  }
  case FixedString:
    if (!(d = id(fixed_string_id)).empty())
      return d;
    if (t.get_data_size() != (size_t)(p->n * enc_size(p->name)) || t.get_data_alignment() != (size_t)enc_size(p->name))
      return "fixed_string size";
    return vf::cat(t.extended<ndt::fixed_string_type>()->get_encoding()) == p->name ? "" : "encoding";
  case Char:
    if (!(d = id(char_id)).empty())
      return d;
    return vf::cat(t.extended<ndt::char_type>()->get_encoding()) == p->name ? "" : "encoding";
  case FixedBytes:
    if (!(d = id(fixed_bytes_id)).empty())
      return d;
    return t.get_data_size() == (size_t)p->n && t.get_data_alignment() == (size_t)p->m ? "" : "fixed_bytes size/align";
  case Bytes:
    if (!(d = id(bytes_id)).empty())
      return d;
    return t.extended<ndt::bytes_type>()->get_target_alignment() == (size_t)p->m ? "" : "bytes alignment";
  case Fixed:
    if (!(d = id(fixed_dim_id)).empty())
      return d;
    if (t.extended<ndt::fixed_dim_type>()->get_fixed_dim_size() != p->n)
      return "dimension size";
    return elem();
  case Var:
    return (d = id(var_dim_id)).empty() ? elem() : d;
  case FixedKind:
    return (d = id(fixed_dim_kind_id)).empty() ? elem() : d;
  case DimKind:
    return (d = id(dim_kind_id)).empty() ? elem() : d;
  case DimVar:
    if (!(d = id(typevar_dim_id)).empty())
      return d;
    if (t.extended<ndt::typevar_dim_type>()->get_name() != p->name)
      return "dimension variable name";
    return elem();
  case Ellipsis:
    if (!(d = id(ellipsis_dim_id)).empty())
      return d;
    if (t.extended<ndt::ellipsis_dim_type>()->get_name() != p->name)
      return "ellipsis name";
    return elem();
  case PowVar: {
    if (!(d = id(pow_dimsym_id)).empty())
      return d;
    const ndt::pow_dimsym_type *q = t.extended<ndt::pow_dimsym_type>();
    if (q->get_exponent() != p->name)
      return "exponent";
    const ndt::type &b = q->get_base_type();
    switch (p->ret->k) {
    case Fixed:
      if (b.get_id() != fixed_dim_id || b.extended<ndt::fixed_dim_type>()->get_fixed_dim_size() != p->ret->n)
        return "power base";
      break;
    case Var:
      if (b.get_id() != var_dim_id)
        return "power base";
      break;
    case FixedKind:
      if (b.get_id() != fixed_dim_kind_id)
        return "power base";
      break;
    default:
      if (b.get_id() != typevar_dim_id || b.extended<ndt::typevar_dim_type>()->get_name() != p->ret->name)
        return "power base";
    }
    return elem();
  }
  case Tuple:
    if (!(d = id(tuple_id)).empty())
      return d;
    return diff_fields(p, t.extended<ndt::tuple_type>()->get_field_types(), nullptr,
                       t.extended<ndt::tuple_type>()->is_variadic());
  case Struct:
    if (!(d = id(struct_id)).empty())
      return d;
    return diff_fields(p, t.extended<ndt::struct_type>()->get_field_types(),
                       &t.extended<ndt::struct_type>()->get_field_names(),
                       t.extended<ndt::struct_type>()->is_variadic());
  case Option:
    return (d = id(option_id)).empty() ? diff(p->kids[0], t.extended<ndt::option_type>()->get_value_type()) : d;
  case Pointer:
    return (d = id(pointer_id)).empty() ? diff(p->kids[0], t.extended<ndt::pointer_type>()->get_target_type()) : d;
  case Callable: {
    if (!(d = id(callable_id)).empty())
      return d;
    const ndt::callable_type *c = t.extended<ndt::callable_type>();
    if (!(d = diff_fields(p, c->get_argument_types(), nullptr, c->is_arg_variadic())).empty())
      return d;
    if (!(d = diff(p->kwd, c->get_kwd_struct())).empty())
      return d;
    return diff(p->ret, c->get_return_type());
  }
  case TypeVar:
    if (!(d = id(typevar_id)).empty())
      return d;
    return t.extended<ndt::typevar_type>()->get_name() == p->name ? "" : "variable name";
  case TypeVarCon:
    if (!(d = id(typevar_constructed_id)).empty())
      return d;
    if (t.extended<ndt::typevar_constructed_type>()->get_name() != p->name)
      return "variable name";
    return diff(p->kids[0], t.extended<ndt::typevar_constructed_type>()->get_arg());
  }
  return "?";
}

// -------------------------------------------------------------- building without text
inline string_encoding_t enc_of(const std::string &n) {
  return n == "ascii"   ? string_encoding_ascii
         : n == "utf8"  ? string_encoding_utf_8
         : n == "ucs2"  ? string_encoding_ucs_2
         : n == "utf16" ? string_encoding_utf_16
                        : string_encoding_utf_32;
}
inline ndt::type build(const P &p) {
  auto e = [&] { return build(p->kids[0]); };
  auto all = [&] {
    std::vector<ndt::type> v;
    for (auto &k : p->kids)
      v.push_back(build(k));
    return v;
  };
  switch (p->k) {
  case FixedString:
    return ndt::make_type<ndt::fixed_string_type>(p->n, enc_of(p->name));
  case FixedBytes:
    return ndt::make_type<ndt::fixed_bytes_type>(p->n, p->m);
  case Bytes:
    return ndt::make_type<ndt::bytes_type>(p->m);
  case Char:
    return ndt::make_type<ndt::char_type>(enc_of(p->name));
  case Fixed:
    return ndt::make_fixed_dim(p->n, e());
  case Var:
    return ndt::make_type<ndt::var_dim_type>(e());
  case FixedKind:
    return ndt::make_type<ndt::fixed_dim_kind_type>(e());
  case DimKind:
    return ndt::make_type<ndt::dim_kind_type>(e());
  case DimVar:
    return ndt::make_type<ndt::typevar_dim_type>(p->name, e());
  case Ellipsis:
    return p->name.empty() ? ndt::make_type<ndt::ellipsis_dim_type>(e())
                           : ndt::make_type<ndt::ellipsis_dim_type>(p->name, e());
  case PowVar: {
    ndt::type v = ndt::make_type<void>(), b;
    switch (p->ret->k) {
    case Fixed:
      b = ndt::make_fixed_dim(p->ret->n, v);
      break;
    case Var:
      b = ndt::make_type<ndt::var_dim_type>(v);
      break;
    case FixedKind:
      b = ndt::make_type<ndt::fixed_dim_kind_type>(v);
      break;
    default:
      b = ndt::make_type<ndt::typevar_dim_type>(p->ret->name, v);
    }
    return ndt::make_type<ndt::pow_dimsym_type>(b, p->name, e());
  }
  case Tuple:
    return ndt::make_type<ndt::tuple_type>(all(), p->variadic);
  case Struct:
    return ndt::make_type<ndt::struct_type>(p->names, all(), p->variadic);
  case Option:
    return ndt::make_type<ndt::option_type>(e());
  case Pointer:
    return ndt::make_type<ndt::pointer_type>(e());
  case Callable:
    return ndt::make_type<ndt::callable_type>(build(p->ret), ndt::make_type<ndt::tuple_type>(all(), p->variadic),
                                              build(p->kwd));
  case TypeVar:
    return ndt::make_type<ndt::typevar_type>(p->name);
  case TypeVarCon:
    return ndt::make_type<ndt::typevar_constructed_type>(p->name, e());
  case Scalar:
  default: {
    const ScalarInfo *s = scalar(p->name);
    switch (s->id) {
    case string_id:
      return ndt::make_type<ndt::string_type>();
    case type_id:
      return ndt::make_type<ndt::type_type>();
    case any_kind_id:
      return ndt::make_type<ndt::any_kind_type>();
    case scalar_kind_id:
      return ndt::make_type<ndt::scalar_kind_type>();
    case array_id:
      return ndt::make_type<ndt::array_type>();
    default:
      return ndt::type(p->name); // a built-in, or a kind: both are registered, not composed
    }
  }
  }
}

// a small change somewhere in the tree
inline void mutate(const P &p, Rng &r) {
  P q = p;
  for (;;) {
    size_t n = q->kids.size() + (q->ret && q->k == Callable ? 1 : 0);
    if (n == 0 || r.chance(1, 3))
      break;
    size_t i = r.below(n);
    q = i < q->kids.size() ? q->kids[i] : q->ret;
  }
  GenOpts o;
  // one parameter of a parameterised type, keeping the others
  if (r.chance(2, 3))
    switch (q->k) {
    case FixedString:
      if (r.coin())
        q->n += 1;
      else
        q->name = encodings()[r.below(encodings().size())].name;
      return;
    case FixedBytes:
      if (r.coin())
        q->n += q->m;
      else
        q->m = q->m > 1 ? q->m / 2 : q->n % 2 == 0 ? 2 : 1;
      return;
    case Bytes:
      q->m = q->m > 1 && r.coin() ? q->m / 2 : q->m * 2;
      return;
    case Char: {
      static const char *e[] = {"ascii", "ucs2", "utf32"};
      q->name = e[r.below(3)];
      return;
    }
    case TypeVar:
    case DimVar:
    case PowVar:
    case Ellipsis:
      if (q->k != Ellipsis || !q->name.empty())
        q->name += "a";
      else
        q->name = "Rest";
      return;
    default:
      break;
    }
  switch (r.below(6)) {
  case 0:
    if (q->k == Fixed) {
      q->n += 1;
      return;
    }
    break;
  case 1:
    if (!q->names.empty()) {
      q->names[r.below(q->names.size())] += "_";
      return;
    }
    break;
  case 2:
    if (q->k == Tuple || q->k == Struct) {
      q->variadic = !q->variadic;
      return;
    }
    break;
  case 3:
    if (q->k == Tuple && !q->kids.empty()) {
      q->kids.pop_back();
      return;
    }
    break;
  case 4:
    if (q->kids.size() > 1) {
      std::swap(q->kids[0], q->kids[1]);
      return;
    }
    break;
  default:
    break;
  }
  P n = gen_leaf(r, o);
  *q = *n;
}
inline P clone(const P &p) {
  P q = std::make_shared<T>(*p);
  for (auto &k : q->kids)
    k = clone(k);
  if (q->ret)
    q->ret = clone(q->ret);
  if (q->kwd)
    q->kwd = clone(q->kwd);
  return q;
}
} // namespace tg
