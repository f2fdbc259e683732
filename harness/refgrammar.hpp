// An independent recogniser of datashape text.  It gives the type tree the text denotes, or says that the text is not
// valid, or that it does not know (constructs whose acceptance is not specified anywhere).
#pragma once
#include "typegen.hpp"
#include <dynd/type_registry.hpp>

namespace rg {
using namespace tg;
struct Reject {
  std::string why;
};
struct Unknown {};

struct Ref {
  const std::string &s;
  size_t i = 0;
  int depth = 0;
  explicit Ref(const std::string &t) : s(t) {}
  static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
  void ws() {
    for (;;) {
      while (i < s.size() && space(s[i]))
        ++i;
      if (i < s.size() && s[i] == '#')
        while (i < s.size() && s[i] != '\n')
          ++i;
      else
        return;
    }
  }
  bool at(const char *t) {
    ws();
    return s.compare(i, strlen(t), t) == 0;
  }
  bool eat(const char *t) {
    if (!at(t))
      return false;
    i += strlen(t);
    return true;
  }
  void need(const char *t) {
    if (!eat(t))
      throw Reject{std::string("expected ") + t};
  }
  static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
  static bool digit(char c) { return c >= '0' && c <= '9'; }
  bool name(std::string &o) {
    ws();
    size_t b = i;
    if (b >= s.size() || !alpha(s[b]))
      return false;
    while (b < s.size() && (alpha(s[b]) || digit(s[b])))
      ++b;
    o = s.substr(i, b - i);
    i = b;
    return true;
  }
  bool number(std::string &o) {
    ws();
    size_t b = i;
    while (b < s.size() && digit(s[b]))
      ++b;
    if (b == i || (s[i] == '0' && b > i + 1))
      return false;
    o = s.substr(i, b - i);
    i = b;
    return true;
  }
  static int64_t value(const std::string &n, int64_t max) {
    dv::u128 v = 0;
    for (char c : n) {
      v = v * 10 + (c - '0');
      if (v > (dv::u128)max)
        throw Reject{"number too big"};
    }
    return (int64_t)v;
  }
  bool quoted(std::string &o) {
    ws();
    if (i >= s.size() || (s[i] != '\'' && s[i] != '"'))
      return false;
    char q = s[i++];
    o.clear();
    for (;;) {
      if (i >= s.size())
        throw Reject{"unterminated string"};
      char c = s[i++];
      if (c == q)
        return true;
      if (c != '\\') {
        o += c;
        continue;
      }
      if (i >= s.size())
        throw Reject{"unterminated string"};
      c = s[i++];
      switch (c) {
      case '"':
      case '\'':
      case '\\':
      case '/':
        o += c;
        break;
      case 'b':
        o += '\b';
        break;
      case 'f':
        o += '\f';
        break;
      case 'n':
        o += '\n';
        break;
      case 'r':
        o += '\r';
        break;
      case 't':
        o += '\t';
        break;
      case 'u':
      case 'U': {
        size_t n = c == 'u' ? 4 : 8;
        if (s.size() - i < n)
          throw Reject{"escape"};
        uint32_t cp = 0;
        for (size_t k = 0; k < n; ++k) {
          char d = s[i++];
          if (!isxdigit((unsigned char)d))
            throw Reject{"escape"};
          cp = cp * 16 + (digit(d) ? d - '0' : (d | 32) - 'a' + 10);
        }
        if (cp == 0xfffe || cp == 0xffff)
          throw Unknown();
        if ((cp >= 0xd800 && cp < 0xe000) || cp > 0x10ffff)
          throw Reject{"code point"};
        tg::put_cp(o, cp);
        break;
      }
      default:
        throw Reject{"escape"};
      }
    }
  }
  std::string encoding() {
    std::string e;
    if (!quoted(e))
      throw Reject{"encoding"};
    static const std::map<std::string, std::string> m = {
        {"A", "ascii"}, {"ascii", "ascii"}, {"us-ascii", "ascii"}, {"U8", "utf8"}, {"utf8", "utf8"}, {"utf-8", "utf8"},
        {"utf_8", "utf8"}, {"U16", "utf16"}, {"utf16", "utf16"}, {"utf-16", "utf16"}, {"utf_16", "utf16"},
        {"U32", "utf32"}, {"utf32", "utf32"}, {"utf-32", "utf32"}, {"utf_32", "utf32"}, {"ucs2", "ucs2"},
        {"ucs-2", "ucs2"}, {"ucs_2", "ucs2"}};
    auto it = m.find(e);
    if (it == m.end())
      throw Reject{"encoding"};
    return it->second;
  }
  static bool registered(const std::string &n) { return lookup_id_by_name(n).first != uninitialized_id; }
  static bool upper(const std::string &n) { return n[0] >= 'A' && n[0] <= 'Z'; }

  static int ndim(const P &p) {
    switch (p->k) {
    case Fixed:
    case Var:
    case FixedKind:
    case DimKind:
    case DimVar:
    case Ellipsis:
    case PowVar:
      return 1 + ndim(p->kids[0]);
    case Option:
      return ndim(p->kids[0]);
    case Pointer:
      return ndim(p->kids[0]);
    default:
      return 0;
    }
  }
  P dim(const std::string &n, P e) {
    P p;
    if (digit(n[0])) {
      p = mk(Fixed);
      p->n = value(n, INT64_MAX);
    } else if (n == "var")
      p = mk(Var);
    else if (n == "Fixed")
      p = mk(FixedKind);
    else if (n == "Dim")
      p = mk(DimKind);
    else if (upper(n) && !registered(n)) {
      p = mk(DimVar);
      p->name = n;
    } else
      throw Reject{"dimension " + n};
    p->kids.push_back(e);
    return p;
  }
  P type() {
    P t = type_opt();
    if (!t)
      throw Reject{"expected a type"};
    return t;
  }
  // null when no type starts here
  P type_opt() {
    if (++depth > 256)
      throw Unknown();
    ws();
    P r;
    if (i < s.size() && s[i] == '?') {
      size_t save = i++;
      P v = nooption();
      if (!v) {
        i = save;
        --depth;
        return nullptr;
      }
      r = option(v);
    } else
      r = nooption();
    --depth;
    return r;
  }
  P option(P v) {
    if (v->k == tg::Option)
      throw Reject{"option of option"};
    P r = mk(tg::Option);
    r->kids.push_back(v);
    return r;
  }
  P scalar_tree(const std::string &n) {
    for (auto &x : scalars()) {
      bool is = n == x.name;
      for (auto a : x.aliases)
        is |= n == a;
      if (is) {
        P p = mk(Scalar);
        p->name = x.name;
        return p;
      }
    }
    return nullptr;
  }
  P nooption() {
    std::string n;
    ws();
    if (name(n) || number(n)) {
      if (eat("**")) {
        std::string e;
        if (!(name(e) || number(e)))
          throw Reject{"exponent"};
        bool num = e[0] >= '1' && e[0] <= '9';
        if (!num && !upper(e))
          throw Reject{"exponent"};
        int64_t k = num ? value(e, INT64_MAX) : 0;
        need("*");
        P el = type();
        if (n == "Dim")
          throw Unknown();
        if (num) {
          if (k > 256 - ndim(el))
            throw Unknown();
          P r = el;
          for (int64_t j = 0; j < k; ++j)
            r = dim(n, r);
          return r;
        }
        P p = mk(PowVar);
        p->name = e;
        P v = mk(Scalar);
        v->name = "void";
        p->ret = dim(n, v);
        p->kids.push_back(el);
        return p;
      }
      if (eat("*"))
        return dim(n, type());
      if (eat("...")) {
        need("*");
        P el = type();
        if (!upper(n))
          throw Reject{"ellipsis name"};
        P p = mk(Ellipsis);
        p->name = n;
        p->kids.push_back(el);
        return p;
      }
      if (digit(n[0]))
        throw Reject{"number"};
      if (n == "complex") {
        if (!eat("["))
          return scalar_tree(n);
        P a = type();
        need("]");
        if (a->k == Scalar && a->name == "float32")
          return scalar_tree("complex64");
        if (a->k == Scalar && a->name == "float64")
          return scalar_tree("complex128");
        throw Reject{"complex of that"};
      }
      if (at("[")) {
        std::string v;
        if (n == "fixed") {
          need("[");
          if (!number(v))
            throw Reject{"size"};
          need("]");
          need("*");
          P el = type();
          return dim(v, el);
        }
        if (n == "fixed_string") {
          need("[");
          if (!number(v))
            throw Reject{"size"};
          P p = mk(FixedString);
          p->n = value(v, INT32_MAX);
          p->name = "utf8";
          if (p->n == 0)
            throw Reject{"size"};
          if (eat(","))
            p->name = encoding();
          need("]");
          return p;
        }
        if (n == "fixed_bytes") {
          need("[");
          if (!number(v))
            throw Reject{"size"};
          P p = mk(FixedBytes);
          p->n = value(v, INT32_MAX);
          p->m = 1;
          if (eat(",")) {
            need("align");
            need("=");
            if (!number(v))
              throw Reject{"align"};
            p->m = value(v, INT32_MAX);
          }
          need("]");
          if ((p->m != 1 && p->m != 2 && p->m != 4 && p->m != 8 && p->m != 16) || p->m > p->n || p->n % p->m)
            throw Reject{"fixed_bytes"};
          return p;
        }
        if (n == "bytes") {
          need("[");
          need("align");
          need("=");
          if (!number(v))
            throw Reject{"align"};
          P p = mk(Bytes);
          p->m = value(v, INT32_MAX);
          need("]");
          if (p->m != 1 && p->m != 2 && p->m != 4 && p->m != 8 && p->m != 16)
            throw Reject{"bytes"};
          return p;
        }
        if (n == "char") {
          need("[");
          P p = mk(Char);
          p->name = encoding();
          need("]");
          if (p->name == "utf8" || p->name == "utf16")
            throw Reject{"char"};
          return p;
        }
        if (n == "option" || n == "pointer") {
          need("[");
          P t = type();
          need("]");
          if (n == "option")
            return option(t);
          P p = mk(Pointer);
          p->kids.push_back(t);
          return p;
        }
        if (n == "int" || n == "intptr" || n == "uintptr" || n == "size" || n == "real" || n == "complex64" ||
            n == "complex128" || n == "State")
          ; // a complete type; the bracket belongs to nobody
        else if (registered(n)) {
          if (scalar_tree(n))
            throw Reject{"arguments for " + n};
          throw Unknown();
        } else if (upper(n)) {
          need("[");
          P a = type();
          need("]");
          P p = mk(TypeVarCon);
          p->name = n;
          p->kids.push_back(a);
          return p;
        }
      }
      if (n == "bytes") {
        P p = mk(Bytes);
        p->m = 1;
        return p;
      }
      if (n == "char") {
        P p = mk(Char);
        p->name = "utf32";
        return p;
      }
      if (P p = scalar_tree(n))
        return p;
      if (n == "State" || registered(n))
        throw Unknown();
      if (upper(n)) {
        P p = mk(TypeVar);
        p->name = n;
        return p;
      }
      throw Reject{"unknown name " + n};
    }
    if (eat("...")) {
      need("*");
      P p = mk(Ellipsis);
      p->kids.push_back(type());
      return p;
    }
    if (eat("{")) {
      P p = mk(Struct);
      if (eat("}"))
        return p;
      fields(p, "}", true);
      return p;
    }
    if (eat("("))
      return paren();
    return nullptr;
  }
  // up to and including the closing token
  void fields(P p, const char *close, bool quotes) {
    for (;;) {
      if (eat("...")) {
        need(close);
        p->variadic = true;
        return;
      }
      std::string n;
      if (!(name(n) || (quotes && quoted(n))))
        throw Reject{"field"};
      need(":");
      p->kids.push_back(type());
      p->names.push_back(n);
      if (eat(",")) {
        if (eat(close))
          return;
      } else {
        need(close);
        return;
      }
    }
  }
  P paren() {
    P p = mk(Tuple), kwd;
    if (!eat(")"))
      for (;;) {
        // keyword arguments from here on?
        size_t save = i;
        bool dots = eat("...") && eat(",");
        if (!dots)
          i = save;
        size_t kstart = i;
        std::string n;
        bool kw = name(n) && eat(":");
        if (kw) {
          i = kstart;
          p->variadic = dots;
          kwd = mk(Struct);
          fields(kwd, ")", false);
          break;
        }
        i = save;
        if (eat("...") && eat(")")) {
          p->variadic = true;
          break;
        }
        i = save;
        p->kids.push_back(type());
        if (eat(",")) {
          if (eat(")"))
            break;
        } else {
          need(")");
          break;
        }
      }
    if (!eat("->")) {
      if (kwd)
        throw Reject{"keywords without ->"};
      return p;
    }
    P c = mk(Callable);
    c->kids = p->kids;
    c->variadic = p->variadic;
    if (!kwd) {
      kwd = mk(Struct);
      kwd->variadic = p->variadic;
    }
    c->kwd = kwd;
    c->ret = type();
    return c;
  }
  P top() {
    P r;
    std::set<std::string> defined;
    for (;;) {
      ws();
      if (i == s.size() && r)
        return r;
      P t;
      if (at("type")) {
        size_t save = i;
        i += 4;
        if (i == s.size()) {
          t = scalar_tree("type");
        } else if (!space(s[i])) {
          if (s[i] == '#')
            throw Unknown();
          throw Reject{"after type"};
        } else {
          std::string n;
          while (i < s.size() && space(s[i]))
            ++i;
          if (i < s.size() && s[i] == '#') {
            // a comment here is skipped only when nothing follows
            ws();
            if (i != s.size())
              throw Reject{"after type"};
            t = scalar_tree("type");
          } else if (!name(n)) {
            ws();
            if (i != s.size())
              throw Reject{"after type"};
            t = scalar_tree("type");
          } else {
            need("=");
            t = type();
            if (registered(n) || !defined.insert(n).second)
              throw Reject{"redefinition"};
          }
        }
        (void)save;
      } else {
        t = type_opt();
        if (!t)
          throw Reject{"expected a statement"};
      }
      r = t;
    }
  }
};
} // namespace rg
