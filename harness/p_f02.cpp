// F02: overload choice. Sets of overloads over kinds, patterns and types are given to a dispatcher in random order and
// in random pieces, and called with arguments of every type; the choice is compared with the least matching signature,
// by inclusion of the sets of types that signatures match.
#include "dv.hpp"
#include "vf.hpp"
#include <algorithm>
#include <dynd/array.hpp>
#include <dynd/assignment.hpp>
#include <dynd/callable.hpp>
#include <dynd/callables/multidispatch_callable.hpp>
#include <dynd/dispatcher.hpp>
#include <dynd/functional.hpp>
#include <dynd/kernels/base_kernel.hpp>
#include <dynd/type_registry.hpp>
#include <dynd/types/callable_type.hpp>
#include <set>
using namespace dynd;
using vf::Ctx;

static const char *k_choice = "the overload chosen is not the most specific one that matches";
static const char *k_nomatch = "a call with no matching overload did not throw";
static const char *k_threw = "a call with a matching overload threw";
static const char *k_ambig = "an ambiguous set of overloads was accepted";
static const char *k_overlap = "a set of overloads with overlapping patterns was accepted";
static const char *k_refused = "a set of overloads that is not ambiguous was refused";
static const char *k_after = "a refused overload left the others changed";
static const char *k_call = "a call through the overloads did not run the one chosen";
static const char *k_order = "the order of a topological sort goes against an edge";

// ---------------------------------------------------------------- patterns and the types they match
static const char *pattern_txt[] = {
    "Any", "Scalar", "Int", "UInt", "Float", "Complex", "String", "Bytes", "FixedString", "FixedBytes",
    "bool", "int8", "int16", "int32", "int64", "int128", "uint8", "uint16", "uint32", "uint64", "uint128", "float16", "float32", "float64",
    "complex[float32]", "complex[float64]", "string", "bytes", "type", "char",
    "fixed_string[4]", "fixed_string[7,'utf16']", "fixed_bytes[4]", "fixed_bytes[8]",
    "?Any", "?Scalar", "?Int", "?int32", "?float64", "?string",
    "Dim * Any", "Dim * Scalar", "Dim * int32", "Fixed * Any", "Fixed * Scalar", "Fixed * int32", "3 * Any", "3 * Scalar", "3 * Int", "3 * int32",
    "var * Any", "var * Scalar", "var * int32", "Fixed * Fixed * Any", "Fixed * Fixed * Scalar", "Fixed * Fixed * int32", "Fixed * 3 * int32",
    "(Any, Any)", "(Scalar, Scalar)", "(int32, Any)", "(Any, int32)", "(int32, int32)", "(Any)", "(...)",
    "{x: Any}", "{x: Scalar}", "{x: int32}", "{x: Any, y: Any}", "{x: int32, y: float64}",
    "pointer[Any]", "pointer[int32]"};
static const char *concrete_txt[] = {
    "bool", "int8", "int16", "int32", "int64", "int128", "uint8", "uint16", "uint32", "uint64", "uint128", "float16", "float32", "float64",
    "complex[float32]", "complex[float64]", "string", "bytes", "type", "char",
    "fixed_string[4]", "fixed_string[5]", "fixed_string[7,'utf16']", "fixed_bytes[4]", "fixed_bytes[8]", "fixed_bytes[9]",
    "?int32", "?int64", "?float32", "?float64", "?string", "?bool", "?(int32)", "option[3 * int32]", "option[3 * float64]", "option[pointer[int32]]",
    "3 * int32", "3 * int64", "3 * float64", "3 * string", "3 * (int32)", "4 * int32", "4 * float64", "4 * (int32)", "4 * ?int32", "3 * ?int32",
    "var * int32", "var * float64", "var * (int32)", "var * var * int32", "4 * var * int32", "3 * var * int32",
    "4 * 4 * int32", "4 * 4 * float64", "4 * 4 * (int32)", "4 * 3 * int32", "3 * 3 * int32", "3 * 4 * int32", "3 * 3 * float64", "var * 3 * int32",
    "(int32, int32)", "(int32, float64)", "(float64, int32)", "(float64, float64)", "(int32, 3 * int32)", "(3 * int32, int32)", "(3 * int32, 3 * int32)", "(float64, 3 * int32)", "(int32)", "()", "(3 * int32)", "(int32, int32, int32)",
    "{x: int32}", "{x: float64}", "{x: 3 * int32}", "{x: int32, y: float64}", "{x: int32, y: int32}", "{y: int32}",
    "pointer[int32]", "pointer[float64]", "pointer[3 * int32]", "3 * 3 * var * int32", "3 * 3 * 3 * int32"};
static const size_t NP = sizeof(pattern_txt) / sizeof(*pattern_txt), NC = sizeof(concrete_txt) / sizeof(*concrete_txt);
struct Universe {
  std::vector<ndt::type> pat, con;
  std::vector<std::vector<bool>> m; // m[p][c]: the pattern matches the type
  std::vector<std::vector<bool>> le; // le[p][q]: p matches nothing that q does not
  Universe() {
    for (auto t : pattern_txt)
      pat.push_back(ndt::type(t));
    for (auto t : concrete_txt)
      con.push_back(ndt::type(t));
    m.assign(NP, std::vector<bool>(NC));
    le.assign(NP, std::vector<bool>(NP, true));
    for (size_t p = 0; p < NP; ++p)
      for (size_t k = 0; k < NC; ++k)
        m[p][k] = pat[p].match(con[k]);
    for (size_t p = 0; p < NP; ++p)
      for (size_t q = 0; q < NP; ++q)
        for (size_t k = 0; k < NC; ++k)
          if (m[p][k] && !m[q][k])
            le[p][q] = false;
  }
};
static const Universe &U() {
  static Universe u;
  return u;
}

// ---------------------------------------------------------------- overloads which give their own number
template <size_t N>
struct number_kernel : nd::base_strided_kernel<number_kernel<N>, N> {
  int n;
  number_kernel(int n) : n(n) {}
  void single(char *dst, char *const *) { *reinterpret_cast<int *>(dst) = n; }
};
class number_callable : public nd::base_callable {
public:
  int n;
  number_callable(int n, const std::vector<ndt::type> &args)
      : base_callable(ndt::make_type<ndt::callable_type>(ndt::make_type<int>(), args)), n(n) {}
  ndt::type resolve(base_callable *, char *, nd::call_graph &cg, const ndt::type &dst_tp, size_t, const ndt::type *, size_t, const nd::array *, const std::map<std::string, ndt::type> &) {
    int k = n;
    bool two = get_narg() == 2;
    cg.emplace_back([k, two](nd::kernel_builder &kb, kernel_request_t kernreq, char *, const char *, size_t, const char *const *) { two ? kb.emplace_back<number_kernel<2>>(kernreq, k) : kb.emplace_back<number_kernel<1>>(kernreq, k); });
    return dst_tp;
  }
};
static std::vector<ndt::type> by_args(const ndt::type &, size_t n, const ndt::type *tp) { return std::vector<ndt::type>(tp, tp + n); }
static std::vector<ndt::type> by_first(const ndt::type &, size_t, const ndt::type *tp) { return {tp[0]}; }

typedef std::vector<int> sig; // indices of patterns
struct Set {
  std::vector<sig> s;
  size_t N;
  bool matches(size_t f, const std::vector<int> &t) const {
    for (size_t i = 0; i < N; ++i)
      if (!U().m[s[f][i]][t[i]])
        return false;
    return true;
  }
  bool le(const sig &a, const sig &b) const {
    for (size_t i = 0; i < N; ++i)
      if (!U().le[a[i]][b[i]])
        return false;
    return true;
  }
  // the overloads expected at t: empty when none matches; amb when there is no least one
  std::set<int> least(const std::vector<int> &t, bool &amb) const {
    std::vector<size_t> in;
    for (size_t f = 0; f < s.size(); ++f)
      if (matches(f, t))
        in.push_back(f);
    std::set<int> out;
    for (size_t f : in) {
      bool ok = true;
      for (size_t g : in)
        ok = ok && le(s[f], s[g]);
      if (ok)
        out.insert((int)f);
    }
    amb = !in.empty() && out.empty();
    return out;
  }
  bool comparable(size_t i, size_t j) const { // in every argument one takes in the other
    for (size_t a = 0; a < N; ++a)
      if (!U().le[s[i][a]][s[j][a]] && !U().le[s[j][a]][s[i][a]])
        return false;
    return true;
  }
  // every pair of signatures that cross has a third for exactly what both match
  bool closed() const {
    for (size_t i = 0; i < s.size(); ++i)
      for (size_t j = 0; j < i; ++j) {
        if (!comparable(i, j) || le(s[i], s[j]) || le(s[j], s[i]))
          continue;
        sig meet(N);
        for (size_t a = 0; a < N; ++a)
          meet[a] = U().le[s[i][a]][s[j][a]] ? s[i][a] : s[j][a];
        bool found = false;
        for (size_t k = 0; k < s.size(); ++k)
          found = found || (le(s[k], meet) && le(meet, s[k]));
        if (!found)
          return false;
      }
    return true;
  }
  std::string str() const {
    std::string o;
    for (const sig &x : s) {
      o += "(";
      for (size_t i = 0; i < N; ++i)
        o += vf::cat(i ? "; " : "", pattern_txt[x[i]]);
      o += ") ";
    }
    return o;
  }
};
static std::string show(const std::vector<int> &t) {
  std::string o = "(";
  for (size_t i = 0; i < t.size(); ++i)
    o += vf::cat(i ? "; " : "", concrete_txt[t[i]]);
  return o + ")";
}

// a set of signatures: related ones, so that they meet
static Set gen(Ctx &c, size_t N, size_t max) {
  Set st;
  st.N = N;
  size_t n = 1 + c.rng.below(max);
  std::vector<std::vector<int>> pool(N);
  for (size_t i = 0; i < N; ++i) {
    int anchor = (int)c.rng.below(NC);
    for (size_t p = 0; p < NP; ++p)
      if (U().m[p][anchor] || c.rng.chance(1, 12))
        pool[i].push_back((int)p);
  }
  for (size_t k = 0; k < n; ++k) {
    sig s(N);
    for (size_t i = 0; i < N; ++i)
      s[i] = c.rng.chance(1, 8) ? (int)c.rng.below(NP) : pool[i][c.rng.below(pool[i].size())];
    st.s.push_back(s);
  }
  if (c.rng.coin()) { // close it under meeting
    for (size_t i = 0; i < st.s.size() && st.s.size() < 14; ++i)
      for (size_t j = 0; j < i && st.s.size() < 14; ++j)
        if (st.comparable(i, j) && !st.le(st.s[i], st.s[j]) && !st.le(st.s[j], st.s[i])) {
          sig meet(N);
          for (size_t a = 0; a < N; ++a)
            meet[a] = U().le[st.s[i][a]][st.s[j][a]] ? st.s[i][a] : st.s[j][a];
          if (std::find(st.s.begin(), st.s.end(), meet) == st.s.end())
            st.s.push_back(meet);
        }
    for (size_t i = st.s.size(); i > 1; --i)
      std::swap(st.s[i - 1], st.s[c.rng.below(i)]);
  }
  return st;
}
static std::vector<nd::callable> callables(const Set &st) {
  std::vector<nd::callable> out;
  for (size_t f = 0; f < st.s.size(); ++f) {
    std::vector<ndt::type> a;
    for (int p : st.s[f])
      a.push_back(U().pat[p]);
    out.push_back(nd::make_callable<number_callable>((int)f, a));
  }
  return out;
}
static std::vector<int> gen_args(Ctx &c, const Set &st) {
  std::vector<int> t(st.N);
  const sig &s = st.s[c.rng.below(st.s.size())];
  for (size_t i = 0; i < st.N; ++i) {
    t[i] = (int)c.rng.below(NC);
    for (int tries = 0; tries < 60 && c.rng.chance(19, 20) && !U().m[s[i]][t[i]]; ++tries)
      t[i] = (int)c.rng.below(NC);
  }
  return t;
}
static bool ambiguous_somewhere(Ctx &c, const Set &st, std::vector<int> &at, bool &cross) {
  // where two signatures meet
  for (size_t i = 0; i < st.s.size(); ++i)
    for (size_t j = 0; j < i; ++j) {
      std::vector<int> t(st.N);
      std::vector<std::vector<int>> both(st.N);
      bool none = false;
      size_t total = 1;
      for (size_t a = 0; a < st.N; ++a) {
        for (size_t k = 0; k < NC; ++k)
          if (U().m[st.s[i][a]][k] && U().m[st.s[j][a]][k])
            both[a].push_back((int)k);
        none |= both[a].empty();
        total *= both[a].size();
      }
      if (none)
        continue;
      for (size_t k = 0; k < std::min<size_t>(total, 400); ++k) {
        size_t r = total <= 400 ? k : c.rng.below(total);
        for (size_t a = 0; a < st.N; ++a) {
          t[a] = both[a][r % both[a].size()];
          r /= both[a].size();
        }
        bool amb;
        st.least(t, amb);
        if (amb) {
          at = t;
          // do the signatures concerned cross only in whole arguments?
          cross = true;
          for (size_t f = 0; f < st.s.size(); ++f)
            for (size_t g = 0; g < f; ++g)
              if (st.matches(f, t) && st.matches(g, t) && !st.comparable(f, g))
                cross = false;
          return true;
        }
      }
    }
  return false;
}

template <size_t N>
struct Disp {
  typedef dispatcher<N, nd::callable> type;
};
template <size_t N>
static int ask(dispatcher<N, nd::callable> &d, const std::vector<int> &t) {
  std::vector<ndt::type> a;
  for (int k : t)
    a.push_back(U().con[k]);
  return dynamic_cast<const number_callable *>(d(ndt::type("int32"), a.size(), a.data()).get())->n;
}
template <size_t N>
static void judge(Ctx &c, const Set &st, dispatcher<N, nd::callable> &d, const std::string &how, int calls) {
  for (int k = 0; k < calls; ++k) {
    std::vector<int> t = gen_args(c, st);
    bool amb;
    std::set<int> want = st.least(t, amb);
    if (amb)
      continue;
    int got = -1;
    dv::Outcome oc = dv::attempt([&] { got = ask<N>(d, t); });
    c.saw(want.empty() ? "no_match" : "choice", vf::hash_str(st.str() + show(t)));
    if (want.empty())
      c.check(!oc.ok, k_nomatch, [&] { return vf::cat(how, " with ", show(t), " calls number ", got); });
    else if (c.check(oc.ok, k_threw, [&] { return vf::cat(how, " with ", show(t), ": ", oc.msg); }))
      c.check(want.count(got), k_choice, [&] { return vf::cat(how, " with ", show(t), " calls number ", got, " instead of ", *want.begin()); });
  }
}
template <size_t N>
static void choice_n(Ctx &c) {
  Set st = gen(c, N, 9);
  std::vector<nd::callable> fs = callables(st);
  dispatcher<N, nd::callable> d(by_args);
  std::string how = st.str();
  c.describe(how);
  std::vector<int> at;
  bool cross = false;
  bool amb = ambiguous_somewhere(c, st, at, cross);
  dv::Outcome oc;
  if (c.rng.coin()) {
    how += "at once";
    oc = dv::attempt([&] { d.assign(fs.begin(), fs.end()); });
  } else {
    how += "in pieces";
    oc = dv::attempt([&] {
      for (size_t i = 0; i < fs.size();) {
        size_t n = std::min<size_t>(fs.size() - i, 1 + c.rng.below(3));
        if (n == 1)
          d.insert(fs[i]);
        else
          d.insert(fs.begin() + i, fs.begin() + i + n);
        i += n;
      }
    });
  }
  c.saw(oc.ok ? "accepted" : "refused", vf::hash_str(how));
  if (amb && !cross)
    return; // see overlap
  if (oc.ok) {
    if (!c.check(!amb, cross ? k_ambig : k_overlap, [&] { return vf::cat(how, ": nothing is most specific for ", show(at)); }))
      return;
  } else {
    // in pieces, a prefix may lack what resolves it
    if (how.find("pieces") == std::string::npos)
      c.check(amb || !st.closed(), k_refused, [&] { return vf::cat(how, ": ", oc.msg); });
    return;
  }
  judge<N>(c, st, d, how, 12);
  // the order they were given in does not matter
  std::vector<nd::callable> sh = fs;
  for (size_t i = sh.size(); i > 1; --i)
    std::swap(sh[i - 1], sh[c.rng.below(i)]);
  dispatcher<N, nd::callable> e(by_args);
  dv::Outcome o2 = dv::attempt([&] { e.assign(sh.begin(), sh.end()); });
  if (c.check(o2.ok, k_refused, [&] { return vf::cat(how, " is taken in one order and refused in another: ", o2.msg); })) {
    judge<N>(c, st, e, how + " shuffled", 6);
    dispatcher<N, nd::callable> f(e);
    judge<N>(c, st, f, how + " shuffled and copied", 3);
  }
}
static void choice(Ctx &c) {
  switch (c.rng.below(3)) {
  case 0: return choice_n<1>(c);
  case 1: return choice_n<2>(c);
  default: return choice_n<3>(c);
  }
}

// signatures which cross within one argument
static void overlap(Ctx &c) {
  Set st;
  st.N = 1;
  for (auto t : {"3 * Any", "Fixed * int32"})
    for (size_t p = 0; p < NP; ++p)
      if (std::string(pattern_txt[p]) == t)
        st.s.push_back({(int)p});
  std::vector<nd::callable> fs = callables(st);
  dispatcher<1, nd::callable> d(by_args);
  c.describe("overloads for 3 * Any and Fixed * int32, called with 3 * int32");
  dv::Outcome oc = dv::attempt([&] { d.assign(fs.begin(), fs.end()); });
  c.saw("overlap", oc.ok);
  c.check(!oc.ok, k_overlap, [&] { return std::string("which one is called depends on the order they were added in"); });
}

// overloads are added one by one, some of them refused; what is there stays as it was
static void histories(Ctx &c) {
  Set all = gen(c, 2, 12);
  std::vector<nd::callable> fs = callables(all);
  dispatcher<2, nd::callable> d(by_args);
  Set in;
  in.N = 2;
  std::vector<int> num;
  std::string log;
  for (size_t i = 0; i < fs.size(); ++i) {
    Set trial = in;
    trial.s.push_back(all.s[i]);
    std::string one;
    for (int p : all.s[i])
      one += vf::cat(pattern_txt[p], ";");
    c.describe(log + " + (" + one + ")");
    dv::Outcome oc = dv::attempt([&] { d.insert(fs[i]); });
    log += vf::cat(" + (", one, ")", oc.ok ? "" : " refused");
    c.saw(oc.ok ? "added" : "add_refused", vf::hash_str(log));
    if (oc.ok) {
      in = trial;
      num.push_back((int)i);
    }
    if (in.s.empty())
      continue;
    for (int k = 0; k < 4; ++k) {
      std::vector<int> t = gen_args(c, in);
      bool amb;
      std::set<int> want = in.least(t, amb);
      if (amb)
        continue;
      int got = -1;
      dv::Outcome q = dv::attempt([&] { got = ask<2>(d, t); });
      if (want.empty())
        c.check(!q.ok, oc.ok ? k_nomatch : k_after, [&] { return vf::cat(log, " with ", show(t), " calls number ", got); });
      else if (c.check(q.ok, oc.ok ? k_threw : k_after, [&] { return vf::cat(log, " with ", show(t), ": ", q.msg); })) {
        bool good = false;
        for (int w : want)
          good = good || num[w] == got;
        c.check(good, oc.ok ? k_choice : k_after, [&] { return vf::cat(log, " with ", show(t), " calls number ", got, " instead of ", num[*want.begin()]); });
      }
    }
  }
}

// through a callable and arrays
static void calls(Ctx &c) {
  size_t N = 1 + c.rng.below(2);
  Set st = gen(c, N, 7);
  std::vector<nd::callable> fs = callables(st);
  std::string how = st.str();
  c.describe(how);
  std::vector<int> at;
  bool cross;
  if (ambiguous_somewhere(c, st, at, cross))
    return;
  ndt::type any("Any");
  std::vector<ndt::type> args(N, any);
  ndt::type tp = ndt::make_type<ndt::callable_type>(any, args);
  nd::callable f;
  size_t first = c.rng.below(fs.size() + 1);
  dv::Outcome oc = dv::attempt([&] {
    if (N == 1)
      f = nd::make_callable<nd::multidispatch_callable<1>>(tp, dispatcher<1, nd::callable>(by_first, fs.begin(), fs.begin() + first));
    else
      f = nd::make_callable<nd::multidispatch_callable<2>>(tp, dispatcher<2, nd::callable>(by_args, fs.begin(), fs.begin() + first));
    for (size_t i = first; i < fs.size(); ++i)
      f->overload(fs[i]);
  });
  if (!oc.ok)
    return;
  std::shared_ptr<nd::callable> copy(c.rng.coin() ? new nd::callable(f) : nullptr);
  for (int k = 0; k < 6; ++k) {
    std::vector<int> t = gen_args(c, st);
    bool amb;
    std::set<int> want = st.least(t, amb);
    if (amb)
      continue;
    std::vector<nd::array> a;
    for (int x : t)
      a.push_back(nd::empty(U().con[x]));
    int got = -1;
    bool dst = c.rng.coin();
    nd::array out = nd::empty(ndt::type("int32"));
    out.assign(nd::array(-7));
    dv::Outcome q = dv::attempt([&] {
      std::pair<const char *, nd::array> kw[] = {{"dst", out}};
      nd::array r = f.call(N, a.data(), dst ? 1 : 0, kw);
      got = *reinterpret_cast<const int *>(dst ? out.cdata() : r.cdata());
    });
    c.saw("call", vf::hash_str(how + show(t)));
    if (want.empty()) {
      c.check(!q.ok, k_nomatch, [&] { return vf::cat(how, " called with ", show(t), " runs number ", got); });
      c.check(*reinterpret_cast<const int *>(out.cdata()) == -7, k_call, [&] { return vf::cat(how, " called with ", show(t), " threw after writing"); });
    } else if (c.check(q.ok, k_threw, [&] { return vf::cat(how, " called with ", show(t), ": ", q.msg); })) {
      c.check(want.count(got), k_call, [&] { return vf::cat(how, " called with ", show(t), " runs number ", got, " instead of ", *want.begin()); });
      std::vector<ndt::type> ts;
      for (int x : t)
        ts.push_back(U().con[x]);
      int n = dynamic_cast<const number_callable *>(f.specialize(ndt::type("int32"), N, ts.data()).get())->n;
      c.check(n == got, k_call, [&] { return vf::cat(how, " for ", show(t), " specializes to ", n, " and runs ", got); });
    }
  }
}

// the sort below it: every vertex once, before those it points to
static void sorting(Ctx &c) {
  size_t n = 1 + c.rng.below(12);
  std::vector<int> v(n), perm(n);
  for (size_t i = 0; i < n; ++i)
    v[i] = 100 + (int)i, perm[i] = (int)i;
  for (size_t i = n; i > 1; --i)
    std::swap(perm[i - 1], perm[c.rng.below(i)]);
  std::vector<std::vector<size_t>> e(n);
  std::string txt = vf::cat(n, " vertices");
  bool cycle = c.rng.chance(1, 6) && n > 1;
  int density = 1 + (int)c.rng.below(5);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j)
      if (perm[i] < perm[j] && c.rng.chance(density, 8)) {
        e[i].push_back(j);
        txt += vf::cat(" ", i, ">", j);
      }
  if (cycle) {
    size_t i = c.rng.below(n), j = (i + 1 + c.rng.below(n - 1)) % n;
    e[i].push_back(j);
    e[j].push_back(i);
    txt += vf::cat(" ", i, "<>", j);
  }
  c.describe(txt);
  std::vector<int> res(n, -1);
  dv::Outcome oc = dv::attempt([&] { topological_sort(v.begin(), v.end(), e, res.begin()); });
  c.saw("sort", vf::hash_str(txt));
  if (!c.check(oc.ok == !cycle, k_order, [&] { return vf::cat(txt, oc.ok ? " is sorted" : " throws"); }) || cycle)
    return;
  std::vector<int> pos(n, -1);
  for (size_t i = 0; i < n; ++i)
    if (res[i] >= 100 && res[i] < 100 + (int)n)
      pos[res[i] - 100] = (int)i;
  for (size_t i = 0; i < n; ++i) {
    c.check(pos[i] >= 0, k_order, [&] { return vf::cat(txt, " loses ", i); });
    for (size_t j : e[i])
      c.check(pos[i] < pos[j], k_order, [&] { return vf::cat(txt, " puts ", j, " before ", i); });
  }
}

// ids made at run time: every name finds its own id, under the base it was given
static void registry(Ctx &c) {
  static int serial = 0;
  static std::vector<std::pair<std::string, type_id_t>> made;
  static std::set<int> ids;
  if (made.size() > 300)
    return;
  int n = 1 + (int)c.rng.below(3);
  for (int i = 0; i < n; ++i) {
    std::string nm = vf::cat("vf_kind_", serial++);
    type_id_t base = made.empty() || c.rng.coin() ? (c.rng.coin() ? scalar_kind_id : int_kind_id) : made[c.rng.below(made.size())].second;
    c.describe(nm);
    type_id_t id = new_id(nm.c_str(), base);
    c.saw("id", (uint64_t)id);
    c.check(ids.insert((int)id).second && (int)id > (int)void_id, "an id made is not new", [&] { return vf::cat(nm, " has id ", (int)id); });
    made.push_back({nm, id});
    auto look = lookup_id_by_name(nm);
    c.check(look.first == id && look.second && look.second->name == nm && look.second->base_id == base, "a name registered is not found", [&] { return vf::cat(nm, " finds ", (int)look.first); });
  }
  for (auto &m : made) {
    auto look = lookup_id_by_name(m.first);
    c.check(look.first == m.second, "a name registered is not found", [&] { return vf::cat(m.first, " finds ", (int)look.first); });
  }
  c.check(lookup_id_by_name("vf_no_such_name").second == nullptr, "a name not registered is found", [&] { return std::string(); });
  c.check(lookup_id_by_name("int32").first == int32_id, "a name registered is not found", [&] { return std::string("int32"); });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "F02",
                 "sets of 1 to 14 signatures of 1 to 3 arguments over kinds, types and patterns, in random order, at once and in pieces, called with types of all sorts; choices "
                 "compared with the least matching signature by inclusion",
                 {{"choice", 6000, 200000, choice}, {"overlap", 1, 1, overlap}, {"histories", 4000, 120000, histories}, {"calls", 4000, 100000, calls}, {"sorting", 20000, 500000, sorting}, {"registry", 40, 200, registry}});
}
