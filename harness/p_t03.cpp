// T03: pattern matching follows the pattern language, and substitution undoes it.
#include "typegen.hpp"
#include <dynd/types/substitute_typevars.hpp>
#include <dynd/types/dim_fragment_type.hpp>
using namespace dynd;
using vf::Ctx;
using tg::P;
using tg::mk;

static std::string text(const ndt::type &t) {
  std::stringstream ss;
  ss << t;
  return ss.str();
}
static bool is_dim(const P &p) {
  switch (p->k) {
  case tg::Fixed:
  case tg::Var:
  case tg::FixedKind:
  case tg::DimKind:
  case tg::DimVar:
  case tg::Ellipsis:
  case tg::PowVar:
    return true;
  default:
    return false;
  }
}
static int ndim(const P &p) { return is_dim(p) ? 1 + ndim(p->kids[0]) : 0; }

// ---------------------------------------------------------------- reference matcher (concrete candidates)
struct Frag {
  std::vector<int64_t> d; // size, or -1 for var
};
struct Binds {
  std::map<std::string, std::string> dtype; // key of the bound type
  std::map<std::string, int64_t> dim;       // size, or -1 for var
  std::map<std::string, int64_t> power;
  std::map<std::string, Frag> frag;
  bool merged = false;     // two different runs were combined by broadcasting
  bool ambiguous = false;  // 1 against var: the combination is decided when values are seen
};
static int64_t dim_of(const P &c) { return c->k == tg::Fixed ? c->n : -1; }

static bool combine(Binds &b, Frag &a, const std::vector<int64_t> &n) {
  if (a.d == n)
    return true;
  b.merged = true;
  std::vector<int64_t> out(std::max(a.d.size(), n.size()));
  for (size_t i = 0; i < out.size(); ++i) {
    int64_t x = i < a.d.size() ? a.d[a.d.size() - 1 - i] : 1, y = i < n.size() ? n[n.size() - 1 - i] : 1, z;
    bool hx = i < a.d.size(), hy = i < n.size();
    if (!hx || !hy)
      z = hx ? x : y;
    else if (x == y)
      z = x;
    else if (x < 0 || y < 0) {
      z = x < 0 ? y : x;
      if (z == 1)
        b.ambiguous = true;
    } else if (x == 1 || y == 1)
      z = x == 1 ? y : x;
    else
      return false;
    out[out.size() - 1 - i] = z;
  }
  a.d = out;
  return true;
}

static bool ref(const P &p, const P &c, Binds &b);
static bool ref_fields(const P &p, const P &c, Binds &b) {
  if (!(p->kids.size() == c->kids.size() || (p->variadic && p->kids.size() <= c->kids.size())))
    return false;
  for (size_t i = 0; i < p->kids.size(); ++i) {
    if (i < p->names.size() && p->names[i] != c->names[i])
      return false;
    if (!ref(p->kids[i], c->kids[i], b))
      return false;
  }
  return true;
}
static bool kind_member(const std::string &kind, const P &c) {
  if (kind == "Any")
    return true;
  if (kind == "Scalar")
    return ndim(c) == 0;
  if (kind == "String")
    return c->k == tg::FixedString || (c->k == tg::Scalar && c->name == "string");
  if (kind == "FixedString")
    return c->k == tg::FixedString;
  if (kind == "Bytes")
    return c->k == tg::FixedBytes || c->k == tg::Bytes;
  if (kind == "FixedBytes")
    return c->k == tg::FixedBytes;
  if (c->k != tg::Scalar)
    return false;
  const std::string &n = c->name;
  if (kind == "Bool")
    return n == "bool";
  if (kind == "Int")
    return n.compare(0, 3, "int") == 0;
  if (kind == "UInt")
    return n.compare(0, 4, "uint") == 0;
  if (kind == "Float")
    return n.compare(0, 5, "float") == 0;
  if (kind == "Complex")
    return n.compare(0, 7, "complex") == 0;
  return false; // Categorical
}
static bool ref(const P &p, const P &c, Binds &b) {
  switch (p->k) {
  case tg::Scalar: {
    const tg::ScalarInfo *s = tg::scalar(p->name);
    if (s->symbolic)
      return kind_member(p->name, c);
    return c->k == tg::Scalar && c->name == p->name;
  }
  case tg::FixedString:
  case tg::FixedBytes:
  case tg::Bytes:
  case tg::Char:
    return tg::key(p) == tg::key(c);
  case tg::TypeVar: {
    if (ndim(c))
      return false;
    auto i = b.dtype.find(p->name);
    if (i != b.dtype.end())
      return i->second == tg::key(c);
    b.dtype[p->name] = tg::key(c);
    return true;
  }
  case tg::TypeVarCon:
    return ref(p->kids[0], c, b);
  case tg::Option:
  case tg::Pointer:
    return c->k == p->k && ref(p->kids[0], c->kids[0], b);
  case tg::Tuple:
  case tg::Struct:
    return c->k == p->k && ref_fields(p, c, b);
  case tg::Callable:
    return c->k == p->k && ref(p->ret, c->ret, b) && ref_fields(p, c, b) && ref_fields(p->kwd, c->kwd, b);
  case tg::Ellipsis: {
    int run = ndim(c) - (ndim(p) - 1);
    if (run < 0)
      return false;
    std::vector<int64_t> d;
    P q = c;
    for (int i = 0; i < run; ++i, q = q->kids[0])
      d.push_back(dim_of(q));
    if (!p->name.empty()) {
      auto i = b.frag.find(p->name);
      if (i == b.frag.end())
        b.frag[p->name].d = d;
      else if (!combine(b, i->second, d))
        return false;
    }
    return ref(p->kids[0], q, b);
  }
  case tg::PowVar: {
    int e = ndim(c) - (ndim(p) - 1);
    if (e < 0)
      return false;
    auto i = b.power.find(p->name);
    if (i != b.power.end() && i->second != e)
      return false;
    b.power[p->name] = e;
    P q = c;
    for (int k = 0; k < e; ++k, q = q->kids[0]) {
      switch (p->ret->k) {
      case tg::Fixed:
        if (q->k != tg::Fixed || q->n != p->ret->n)
          return false;
        break;
      case tg::Var:
        if (q->k != tg::Var)
          return false;
        break;
      case tg::FixedKind:
        if (q->k != tg::Fixed)
          return false;
        break;
      default: {
        auto j = b.dim.find(p->ret->name);
        if (j == b.dim.end())
          b.dim[p->ret->name] = dim_of(q);
        else if (j->second != dim_of(q))
          return false;
      }
      }
    }
    return ref(p->kids[0], q, b);
  }
  default:
    break;
  }
  // one dimension
  if (c->k != tg::Fixed && c->k != tg::Var)
    return false;
  switch (p->k) {
  case tg::Fixed:
    if (c->k != tg::Fixed || c->n != p->n)
      return false;
    break;
  case tg::Var:
    if (c->k != tg::Var)
      return false;
    break;
  case tg::FixedKind:
    if (c->k != tg::Fixed)
      return false;
    break;
  case tg::DimKind:
    break;
  case tg::DimVar: {
    auto i = b.dim.find(p->name);
    if (i == b.dim.end())
      b.dim[p->name] = dim_of(c);
    else if (i->second != dim_of(c))
      return false;
    break;
  }
  default:
    return false;
  }
  return ref(p->kids[0], c->kids[0], b);
}

// ---------------------------------------------------------------- generation
static P leaf(Ctx &c) {
  tg::GenOpts o;
  o.symbolic = false;
  if (c.rng.chance(2, 3)) {
    static const char *n[] = {"int32", "float64", "string", "bool", "uint8", "complex[float64]", "int64"};
    P p = mk(tg::Scalar);
    p->name = n[c.rng.below(7)];
    return p;
  }
  return tg::gen_leaf(c.rng, o);
}
static const char *fnames[] = {"x", "y", "z", "w", "u"};
static P gen(Ctx &c, int depth) {
  if (depth <= 0)
    return leaf(c);
  switch (c.rng.below(10)) {
  case 0:
  case 1:
  case 2:
  case 3: {
    P p = mk(c.rng.chance(1, 4) ? tg::Var : tg::Fixed);
    if (p->k == tg::Fixed)
      p->n = c.rng.below(4);
    p->kids.push_back(gen(c, depth - (c.rng.coin() ? 1 : 0)));
    return p;
  }
  case 4:
  case 5:
  case 6: {
    P p = mk(c.rng.coin() ? tg::Tuple : tg::Struct);
    size_t n = c.rng.below(4);
    for (size_t i = 0; i < n; ++i) {
      p->kids.push_back(i && c.rng.chance(1, 3) ? tg::clone(p->kids[c.rng.below(i)]) : gen(c, depth - 1));
      if (p->k == tg::Struct)
        p->names.push_back(fnames[i]);
    }
    return p;
  }
  case 7: {
    P k = gen(c, depth - 1);
    if (k->k == tg::Option || ndim(k) || c.rng.coin()) { // an option takes its dimensions from its value: left out
      P p = mk(tg::Pointer);
      p->kids.push_back(k);
      return p;
    }
    P p = mk(tg::Option);
    p->kids.push_back(k);
    return p;
  }
  case 8: {
    P p = mk(tg::Callable);
    size_t n = c.rng.below(3);
    for (size_t i = 0; i < n; ++i)
      p->kids.push_back(gen(c, depth - 1));
    p->ret = c.rng.coin() && n ? tg::clone(p->kids[0]) : gen(c, depth - 1);
    p->kwd = mk(tg::Struct);
    n = c.rng.chance(1, 3) ? 1 + c.rng.below(2) : 0;
    for (size_t i = 0; i < n; ++i) {
      p->kwd->kids.push_back(gen(c, depth - 1));
      p->kwd->names.push_back(fnames[i]);
    }
    return p;
  }
  default:
    return leaf(c);
  }
}

struct Abs {
  Ctx &c;
  std::map<std::string, std::string> var; // type key -> variable
  std::map<int64_t, std::string> dimvar;
  std::map<int64_t, std::string> powvar;
  int level;     // how eager
  bool top_any;
  std::string typevar(const P &p) {
    static const char *n[] = {"T", "S", "R", "Q", "K"};
    std::string k = tg::key(p);
    auto i = var.find(k);
    if (i == var.end() || c.rng.chance(1, 12))
      return var[k] = n[c.rng.chance(1, 10) ? c.rng.below(5) : std::min<size_t>(var.size(), 4)];
    return i->second;
  }
  std::string dimname(int64_t d) {
    static const char *n[] = {"M", "N", "L"};
    auto i = dimvar.find(d);
    if (i == dimvar.end() || c.rng.chance(1, 12))
      return dimvar[d] = n[c.rng.chance(1, 8) ? c.rng.below(3) : std::min<size_t>(dimvar.size(), 2)];
    return i->second;
  }
  bool go() { return (int)c.rng.below(10) < level; }
  P scalar_kind(const P &p) {
    P q = mk(tg::Scalar);
    std::vector<const char *> ok = {"Any", "Scalar"};
    for (const char *k : {"Bool", "Int", "UInt", "Float", "Complex", "String", "FixedString", "Bytes", "FixedBytes"})
      if (kind_member(k, p))
        ok.push_back(k);
    q->name = ok.size() > 2 && c.rng.chance(2, 3) ? ok[2 + c.rng.below(ok.size() - 2)] : ok[c.rng.below(ok.size())];
    if (c.rng.chance(1, 12))
      q->name = std::vector<const char *>{"Int", "UInt", "String", "Bytes", "Float", "Categorical"}[c.rng.below(6)];
    return q;
  }
  // what a dimension-free position may become; `any`: may it be Any
  P scalar(const P &p, bool any) {
    if (go()) {
      switch (c.rng.below(5)) {
      case 0:
      case 1: {
        P q = mk(tg::TypeVar);
        q->name = typevar(p);
        return q;
      }
      case 2: {
        P q = scalar_kind(p);
        if (q->name == "Any" && !any)
          q->name = "Scalar";
        return q;
      }
      default:
        break;
      }
    }
    switch (p->k) {
    case tg::Tuple:
    case tg::Struct: {
      P q = mk(p->k);
      q->names = p->names;
      for (auto &k : p->kids)
        q->kids.push_back(conv(k));
      if (c.rng.chance(1, 8)) {
        q->variadic = true;
        size_t n = c.rng.below(q->kids.size() + 1);
        q->kids.resize(n);
        if (!q->names.empty())
          q->names.resize(n);
      }
      return q;
    }
    case tg::Option:
    case tg::Pointer: {
      P q = mk(p->k);
      q->kids.push_back(conv(p->kids[0]));
      if (p->k == tg::Option && (q->kids[0]->k == tg::Option || ndim(q->kids[0])))
        return tg::clone(p);
      return q;
    }
    case tg::Callable: {
      P q = mk(p->k);
      for (auto &k : p->kids)
        q->kids.push_back(conv(k));
      q->ret = conv(p->ret);
      q->kwd = mk(tg::Struct);
      q->kwd->names = p->kwd->names;
      for (auto &k : p->kwd->kids)
        q->kwd->kids.push_back(conv(k));
      if (c.rng.chance(1, 8)) {
        q->variadic = true;
        q->kids.resize(c.rng.below(q->kids.size() + 1));
        q->kwd->variadic = q->kwd->kids.empty();
      }
      return q;
    }
    default:
      return tg::clone(p);
    }
  }
  P conv(const P &p) {
    int nd = ndim(p);
    if (nd == 0 && c.rng.chance(1, 40) && level > 2) {
      P q = mk(tg::TypeVarCon);
      q->name = std::string("C") + "abc"[c.rng.below(3)];
      q->kids.push_back(scalar(p, false));
      return q;
    }
    std::vector<P> dims;
    P q = p;
    while (is_dim(q)) {
      dims.push_back(q);
      q = q->kids[0];
    }
    // how the run of dimensions is written
    int run_at = -1, run_len = 0; // an ellipsis or power covering [run_at, run_at + run_len)
    bool pow = false;
    if (go() && c.rng.chance(nd ? 2 : 1, 4)) {
      run_at = c.rng.below(nd + 1);
      run_len = c.rng.below(nd - run_at + 1);
      pow = c.rng.chance(1, 3);
      if (pow && c.rng.chance(3, 4)) { // make it likely to hold: a run of equal dimensions
        int n = 0;
        while (run_at + n < nd && dim_of(dims[run_at + n]) == dim_of(dims[run_at]))
          ++n;
        run_len = c.rng.chance(1, 4) ? 0 : n;
      }
    }
    // Any in place of the rest only where nothing before it counts dimensions
    bool any_ok = run_at < 0 || (!pow && run_at + run_len == nd);
    int stop = nd; // dimensions written before Any takes the rest
    P tail;
    if (any_ok && run_at < 0 && go() && c.rng.chance(1, 12)) {
      stop = c.rng.below(nd + 1);
      tail = mk(tg::Scalar);
      tail->name = "Any";
    } else
      tail = scalar(q, any_ok);
    for (int i = stop; i >= 0; --i) {
      if (run_at == i) {
        P r = mk(pow ? tg::PowVar : tg::Ellipsis);
        if (pow) {
          int64_t d = i < nd ? dim_of(dims[i]) : (int64_t)c.rng.below(4);
          static const char *n[] = {"E", "F", "G"};
          auto f = powvar.find(run_len);
          r->name = f != powvar.end() ? f->second : n[c.rng.below(3)];
          powvar[run_len] = r->name;
          switch (c.rng.below(3)) {
          case 0:
            r->ret = mk(tg::DimVar);
            r->ret->name = dimname(d);
            break;
          case 1:
            if (d >= 0) {
              r->ret = mk(tg::FixedKind);
              break;
            } // fall through
          default:
            r->ret = mk(d < 0 ? tg::Var : tg::Fixed);
            r->ret->n = d < 0 ? 0 : d;
          }
        } else
          r->name = c.rng.coin() ? "" : c.rng.chance(3, 4) ? "Dims" : "Rest";
        r->kids.push_back(tail);
        tail = r;
      }
      if (i == 0)
        break;
      if (run_at >= 0 && i - 1 >= run_at && i - 1 < run_at + run_len)
        continue;
      const P &d = dims[i - 1];
      P r;
      if (go())
        switch (c.rng.below(4)) {
        case 0:
          r = mk(d->k == tg::Fixed || c.rng.chance(1, 10) ? tg::FixedKind : tg::DimKind);
          break;
        case 1:
          r = mk(tg::DimKind);
          break;
        default:
          r = mk(tg::DimVar);
          r->name = dimname(dim_of(d));
        }
      else {
        r = mk(d->k);
        r->n = d->n;
      }
      r->kids.push_back(tail);
      tail = r;
    }
    return tail;
  }
};

static bool has(const P &p, const std::function<bool(const P &)> &f) {
  if (f(p))
    return true;
  for (auto &k : p->kids)
    if (has(k, f))
      return true;
  return (p->ret && p->k == tg::Callable && has(p->ret, f)) || (p->kwd && has(p->kwd, f));
}
static bool nameless(const P &p) { // something that matches without leaving a name to substitute
  return has(p, [](const P &q) {
    return (q->k == tg::Scalar && tg::scalar(q->name)->symbolic) || q->k == tg::FixedKind || q->k == tg::DimKind ||
           (q->k == tg::Ellipsis && q->name.empty()) || q->variadic || (q->k == tg::PowVar && q->ret->k == tg::FixedKind);
  });
}
static bool surely_symbolic(const P &p) { // has no concrete form, whatever its variables stand for
  if (p->k == tg::Callable || p->k == tg::TypeVarCon) // a callable taking Any is a concrete type
    return false;
  if ((p->k == tg::Scalar && tg::scalar(p->name)->symbolic) || p->k == tg::FixedKind || p->k == tg::DimKind ||
      (p->k == tg::Ellipsis && p->name.empty()) || p->variadic)
    return true;
  for (auto &k : p->kids)
    if (surely_symbolic(k))
      return true;
  return false;
}
static bool open_ellipsis(const P &p) {
  return has(p, [](const P &q) { return q->k == tg::Ellipsis && q->name.empty(); });
}
static P nth(const P &p, vf::Rng &r) {
  P q = p;
  for (;;) {
    size_t n = q->kids.size();
    if (!n || r.chance(1, 3))
      return q;
    q = q->kids[r.below(n)];
  }
}
static bool disturb(Ctx &c, P &cand) { // change the candidate a little, still concrete
  P q = nth(cand, c.rng);
  switch (q->k) {
  case tg::Fixed:
    if (c.rng.coin())
      q->n = c.rng.below(5);
    else if (c.rng.coin())
      q->k = tg::Var, q->n = 0;
    else
      *q = *tg::clone(q->kids[0]);
    return true;
  case tg::Var:
    q->k = tg::Fixed;
    q->n = c.rng.below(4);
    return true;
  case tg::Tuple:
  case tg::Struct:
    if (!q->kids.empty() && c.rng.coin()) {
      q->kids.pop_back();
      if (!q->names.empty())
        q->names.pop_back();
    } else if (q->k == tg::Struct && !q->names.empty() && c.rng.coin())
      q->names[c.rng.below(q->names.size())] = "other";
    else if (q->kids.size() < 5) {
      q->kids.push_back(leaf(c));
      if (q->k == tg::Struct)
        q->names.push_back("extra");
    }
    return true;
  case tg::Callable:
    if (c.rng.coin())
      q->ret = leaf(c);
    else
      q->kids.push_back(leaf(c));
    return true;
  default:
    if (c.rng.chance(1, 3) && !has(cand, [](const P &o) { return o->k == tg::Option; })) { // one more dimension
      P k = std::make_shared<tg::T>(*q);
      P d = mk(tg::Fixed);
      d->n = c.rng.below(4);
      d->kids.push_back(k);
      *q = *d;
      return true;
    }
    *q = *leaf(c);
    return true;
  }
}

static void check_pair(Ctx &c, const P &pat, const P &cand) {
  std::string sp = tg::spell(pat, c.rng, 0), sc = tg::spell(cand, c.rng, 0);
  c.describe(sp + "  ~  " + sc);
  c.sample(sp + "  ~  " + sc);
  ndt::type a, b;
  auto o = dv::attempt([&] {
    a = ndt::type(sp);
    b = ndt::type(sc);
  });
  if (!o.ok) { // e.g. an option of an option after a change
    c.saw("ill-formed", 1);
    return;
  }
  if (a.is_null() || b.is_null())
    return;
  Binds bd;
  bool want = ref(pat, cand, bd);
  std::map<std::string, ndt::type> vars;
  bool got = false;
  o = dv::attempt([&] { got = a.match(b, vars); });
  if (!c.check(o.ok, "match-threw", [&] { return sp + " against " + sc + ": " + o.msg; }))
    return;
  if (!c.check(got == want, want ? "match-refused" : "match-accepted", [&] { return sp + " against " + sc; }))
    return;
  bool again = false;
  c.check(dv::attempt([&] { again = a.match(b); }).ok && again == want, "match-overloads-disagree", [&] { return sp + " against " + sc; });
  c.saw(want ? "match" : "mismatch", vf::mix(vf::hash_str(sp), vf::hash_str(sc)));
  if (!want)
    return;
  // the variables bound are the ones the pattern language binds
  for (auto &d : bd.dtype) {
    auto i = vars.find(d.first);
    c.check(i != vars.end() && !i->second.is_null() && i->second.get_ndim() == 0, "type-variable-not-bound",
            [&] { return d.first + " in " + sp + " against " + sc; });
  }
  for (auto &d : bd.dim) {
    auto i = vars.find(d.first);
    if (!c.check(i != vars.end() && !i->second.is_null(), "dimension-variable-not-bound",
                 [&] { return d.first + " in " + sp + " against " + sc; }))
      continue;
    bool ok = d.second < 0 ? i->second.get_id() == var_dim_id
                           : i->second.get_id() == fixed_dim_id &&
                                 i->second.extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == d.second;
    c.check(ok, "dimension-variable-bound-wrongly", [&] { return d.first + "=" + text(i->second) + " in " + sp + " against " + sc; });
  }
  for (auto &d : bd.power) {
    auto i = vars.find(d.first);
    c.check(i != vars.end() && i->second.get_id() == fixed_dim_id &&
                i->second.extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == d.second,
            "exponent-bound-wrongly", [&] { return d.first + " in " + sp + " against " + sc; });
  }
  for (auto &d : bd.frag) {
    auto i = vars.find(d.first);
    if (!c.check(i != vars.end() && i->second.get_id() == dim_fragment_id, "ellipsis-not-bound",
                 [&] { return d.first + " in " + sp + " against " + sc; }))
      continue;
    if (bd.ambiguous)
      continue;
    auto *f = i->second.extended<ndt::dim_fragment_type>();
    std::vector<int64_t> g;
    for (intptr_t k = 0; k < f->get_ndim(); ++k)
      g.push_back(f->get_tagged_dims()[k]);
    c.check(g == d.second.d, "ellipsis-bound-wrongly", [&] {
      std::string s;
      for (auto x : g)
        s += vf::cat(x, " ");
      std::string e;
      for (auto x : d.second.d)
        e += vf::cat(x, " ");
      return d.first + " = [" + s + "] instead of [" + e + "] in " + sp + " against " + sc;
    });
  }
  {
    std::unordered_set<std::string> names = a.get_vars(), want_names;
    has(pat, [&](const P &q) {
      if (q->k == tg::TypeVar || q->k == tg::TypeVarCon || q->k == tg::DimVar || q->k == tg::PowVar ||
          (q->k == tg::Ellipsis && !q->name.empty()))
        want_names.insert(q->name);
      if (q->k == tg::PowVar && q->ret->k == tg::DimVar)
        want_names.insert(q->ret->name);
      return false;
    });
    c.check(names == want_names, "variables-of-a-pattern", [&] { return sp; });
  }
  c.saw("bindings", vf::mix(bd.dtype.size() * 7 + bd.dim.size(), bd.power.size() * 5 + bd.frag.size() * 3 + bd.merged));
  // substitution
  if (!nameless(pat) && !bd.merged) {
    ndt::type s;
    o = dv::attempt([&] { s = ndt::substitute(a, vars, true); });
    if (c.check(o.ok, "substitution-refused", [&] { return sp + " matched " + sc + " but: " + o.msg; }))
      c.check(s == b, "substitution-differs", [&] { return sp + " matched " + sc + " but gives back " + text(s); });
    c.saw("substituted", vf::hash_str(sp));
  } else {
    ndt::type s;
    o = dv::attempt([&] { s = ndt::substitute(a, vars, true); });
    if (o.ok) // a kind, a nameless run or an open field list is not concrete
      c.check(!surely_symbolic(pat), "concrete-substitution-of-a-kind", [&] { return sp + " gives " + text(s); });
  }
  if (!bd.merged && !open_ellipsis(pat)) { // filling in the variables alone must still match
    ndt::type s;
    o = dv::attempt([&] { s = ndt::substitute(a, vars, false); });
    if (c.check(o.ok, "partial-substitution-refused", [&] { return sp + " matched " + sc + " but: " + o.msg; })) {
      bool m = false;
      auto o2 = dv::attempt([&] { m = s.match(b); });
      c.check(o2.ok && m, "substituted-pattern-no-longer-matches", [&] { return sp + " -> " + text(s) + " against " + sc + " " + o2.msg; });
      c.saw("partially-substituted", vf::hash_str(sp));
    }
  }
}

static void derived(Ctx &c) {
  P cand = gen(c, 1 + c.rng.below(4));
  Abs a{c, {}, {}, {}, (int)(1 + c.rng.below(9)), true};
  P pat = a.conv(cand);
  if (c.rng.chance(2, 5))
    disturb(c, cand);
  check_pair(c, pat, cand);
}
static void self(Ctx &c) { // a concrete type matches itself, and only itself
  P a = gen(c, 1 + c.rng.below(4)), b = tg::clone(a);
  if (c.rng.coin())
    disturb(c, b);
  check_pair(c, a, b);
}
// the same run of dimensions several times: the runs combine as broadcasting does
static void runs(Ctx &c) {
  P cand = mk(tg::Tuple), pat = mk(tg::Tuple);
  int n = 2 + c.rng.below(3);
  std::vector<int64_t> base;
  for (int i = 0, m = c.rng.below(5); i < m; ++i)
    base.push_back((int64_t)c.rng.below(6) - 1);
  P T = mk(tg::TypeVar);
  T->name = "T";
  for (int i = 0; i < n; ++i) {
    P k = mk(tg::Scalar);
    k->name = "int32";
    size_t from = c.rng.below(base.size() + 1);
    int extra = c.rng.below(2);
    P q = k;
    for (int e = 0; e < extra; ++e) {
      P d = mk(tg::Fixed);
      d->n = 7;
      d->kids.push_back(q);
      q = d;
    }
    for (size_t j = base.size(); j-- > from;) {
      int64_t s = c.rng.chance(1, 5) ? 1 : c.rng.chance(1, 6) ? -1 : c.rng.chance(1, 20) ? (int64_t)c.rng.below(4) : base[j];
      P d = mk(s < 0 ? tg::Var : tg::Fixed);
      d->n = s < 0 ? 0 : s;
      d->kids.push_back(q);
      q = d;
    }
    cand->kids.push_back(q);
    P e = mk(tg::Ellipsis);
    e->name = "Dims";
    P t = T;
    for (int x = 0; x < extra; ++x) {
      P d = mk(tg::FixedKind);
      d->kids.push_back(t);
      t = d;
    }
    e->kids.push_back(t);
    pat->kids.push_back(e);
  }
  check_pair(c, pat, cand);
}
// every kind against every leaf type
static void kinds(Ctx &c) {
  std::vector<P> leaves;
  for (auto &s : tg::scalars())
    if (!s.symbolic) {
      P p = mk(tg::Scalar);
      p->name = s.name;
      leaves.push_back(p);
    }
  tg::GenOpts o;
  o.symbolic = false;
  for (int i = 0; i < 12; ++i)
    leaves.push_back(tg::gen_leaf(c.rng, o));
  for (int i = 0; i < 4; ++i)
    leaves.push_back(gen(c, 2));
  for (auto &s : tg::scalars()) {
    P p = mk(tg::Scalar);
    p->name = s.name;
    for (auto &l : leaves)
      check_pair(c, p, l);
  }
}

// a pattern matches itself, and not the same dimensions over another element type
static void itself(Ctx &c) {
  static const char *dims[] = {"Fixed * ", "var * ", "3 * ", "M * ", "K * ", "Fixed ** N * ", "3 ** N * ", "M ** N * ", "var ** N * ", "Dims... * ", "... * "};
  static const char *el[] = {"int32", "float64", "string", "?int32", "?float64", "{x: int32}", "{x: float64}", "{y: int32}", "(int32)", "(string)", "bytes", "fixed_string[4]", "(int32) -> int32",
                             "(int32) -> float64", "(float64) -> int32", "pointer[int32]", "pointer[string]"};
  std::string pre;
  int n = 1 + (int)c.rng.below(3);
  bool run = false;
  for (int i = 0; i < n; ++i) {
    int k = (int)c.rng.below(11);
    if (k >= 5 && run)
      k = (int)c.rng.below(5);
    run |= k >= 5;
    pre += dims[k];
  }
  size_t i = c.rng.below(17), j = c.rng.coin() ? i : c.rng.below(17);
  std::string p = pre + el[i], q = pre + el[j];
  c.describe(vf::cat("\"", p, "\" against \"", q, "\""));
  c.saw("against itself", vf::hash_str(p + q));
  ndt::type tp(p), tq(q);
  c.check(tp.match(tq) == (i == j), "a pattern of other elements matches, or a pattern does not match itself", [&] { return vf::cat("\"", p, "\" against \"", q, i == j ? "\": no match" : "\": matches"); });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "T03",
                 "concrete type trees, patterns abstracted from them (kinds, repeated type and dimension variables, runs, "
                 "powers, open field lists), matched as they are or after a change of the type; distinct = distinct "
                 "matching and non-matching pairs, and patterns substituted back",
                 {{"derived", 12000, 900000, derived}, {"self", 2500, 100000, self}, {"runs", 3000, 150000, runs},
                  {"kinds", 12, 400, kinds}, {"itself", 3000, 60000, itself}});
}
