// S01: string search and comparison against std::string.
#include "dv.hpp"
#include <dynd/callable.hpp>
#include <dynd/comparison.hpp>
#include <dynd/index.hpp>
#include <dynd/string.hpp>
using namespace dynd;
using vf::Ctx;
using vf::quote;

// A string in a heap block of exactly its size: any byte read outside is an ASan report.
struct View {
  char *b;
  size_t n;
  explicit View(const std::string &s) : b(new char[s.size()]), n(s.size()) { memcpy(b, s.data(), n); }
  View(const View &o) : b(new char[o.n]), n(o.n) { memcpy(b, o.b, n); }
  ~View() { delete[] b; }
  View &operator=(const View &o) {
    if (this != &o) {
      delete[] b;
      b = new char[o.n];
      n = o.n;
      memcpy(b, o.b, n);
    }
    return *this;
  }
  void resize(size_t m) {
    char *x = new char[m];
    memset(x, '?', m);
    memcpy(x, b, std::min(m, n));
    delete[] b;
    b = x;
    n = m;
  }
  const char *begin() const { return b; }
  const char *end() const { return b + n; }
  char *begin() { return b; }
  char *end() { return b + n; }
  size_t size() const { return n; }
};
static std::string str(const View &v) { return std::string(v.b, v.n); }
static std::string str(const dynd::string &v) { return std::string(v.begin(), v.end()); }

// ---- the textbook definitions (an empty needle is never found, as the library has it)
static intptr_t r_find(const std::string &h, const std::string &n) {
  size_t p = n.empty() ? std::string::npos : h.find(n);
  return p == std::string::npos ? -1 : (intptr_t)p;
}
static intptr_t r_rfind(const std::string &h, const std::string &n) {
  size_t p = n.empty() ? std::string::npos : h.rfind(n);
  return p == std::string::npos ? -1 : (intptr_t)p;
}
static std::vector<std::string> r_split(const std::string &h, const std::string &n) {
  std::vector<std::string> r;
  size_t at = 0;
  while (!n.empty()) {
    size_t p = h.find(n, at);
    if (p == std::string::npos)
      break;
    r.push_back(h.substr(at, p - at));
    at = p + n.size();
  }
  r.push_back(h.substr(at));
  return r;
}
static intptr_t r_count(const std::string &h, const std::string &n) { return (intptr_t)r_split(h, n).size() - 1; }
static std::string r_replace(const std::string &h, const std::string &n, const std::string &w) {
  std::vector<std::string> p = r_split(h, n);
  std::string r = p[0];
  for (size_t i = 1; i < p.size(); ++i)
    r += w + p[i];
  return r;
}
static bool r_starts(const std::string &h, const std::string &n) { return h.substr(0, std::min(n.size(), h.size())) == n; }
static bool r_ends(const std::string &h, const std::string &n) { return n.size() <= h.size() && h.substr(h.size() - n.size()) == n; }
static int r_cmp(const std::string &a, const std::string &b) {
  std::vector<unsigned char> x(a.begin(), a.end()), y(b.begin(), b.end());
  return x < y ? -1 : x == y ? 0 : 1;
}

template <class V>
static void search(Ctx &c, const std::string &h, const std::string &n) {
  V hv(h), nv(n);
  auto d = [&](const char *what, intptr_t got, intptr_t want) {
    return vf::cat(what, "(", quote(h), ", ", quote(n), ") gives ", got, " instead of ", want);
  };
  c.saw("search", vf::mix(vf::hash_str(h), vf::hash_str(n)));
  intptr_t g = string_find(hv, nv), w = r_find(h, n);
  c.check(g == w, "find", [&] { return d("find", g, w); });
  g = string_rfind(hv, nv), w = r_rfind(h, n);
  c.check(g == w, "rfind", [&] { return d("rfind", g, w); });
  g = string_count(hv, nv), w = r_count(h, n);
  c.check(g == w, "count", [&] { return d("count", g, w); });
  g = string_contains(hv, nv), w = r_find(h, n) >= 0;
  c.check(g == w, "contains", [&] { return d("contains", g, w); });
  g = string_startswith(hv, nv), w = r_starts(h, n);
  c.check(g == w, "startswith", [&] { return d("startswith", g, w); });
  g = string_endswith(hv, nv), w = r_ends(h, n);
  c.check(g == w, "endswith", [&] { return d("endswith", g, w); });
}
template <class V>
static void rewrite(Ctx &c, const std::string &h, const std::string &n, const std::string &w) {
  V hv(h), nv(n), wv(w), dst((std::string()));
  string_replace(dst, hv, nv, wv);
  std::string want = r_replace(h, n, w);
  c.saw("replace", vf::mix(vf::hash_str(h), vf::mix(vf::hash_str(n), vf::hash_str(w))));
  c.check(str(dst) == want, "replace", [&] {
    return vf::cat("replace(", quote(h), ", ", quote(n), ", ", quote(w), ") gives ", quote(str(dst)), " instead of ", quote(want));
  });
  V d2(std::string("previous content of the destination"));
  string_replace(d2, hv, nv, wv);
  c.check(str(d2) == want, "replace-into-used", [&] { return vf::cat(quote(h), " gives ", quote(str(d2))); });
  c.check(str(hv) == h && str(nv) == n && str(wv) == w, "operand-changed", [&] { return quote(h); });
}

static std::string letters(uint64_t bits, int len, int base) {
  std::string s;
  for (int i = 0; i < len; ++i, bits /= base)
    s += char('a' + bits % base);
  return s;
}
// every haystack over {a,b} of up to 11 letters (quick) with every needle of up to 5 letters; over {a,b,c} up to 7
static void small(Ctx &c) {
  int base = 2;
  uint64_t k = c.idx;
  int len = 0;
  uint64_t size = 1;
  while (k >= size) {
    k -= size;
    size *= base;
    ++len;
  }
  std::string h = letters(k, len, base);
  c.describe("all needles in " + quote(h));
  for (int m = 0; m <= 5; ++m)
    for (uint64_t b = 0; b < (1u << m); ++b)
      search<View>(c, h, letters(b, m, 2));
  for (int m = 1; m <= 3; ++m)
    for (uint64_t b = 0; b < (1u << m); ++b)
      for (int w = 0; w <= 3; ++w)
        rewrite<View>(c, h, letters(b, m, 2), std::string("XYZ").substr(0, w));
}
static void small3(Ctx &c) {
  uint64_t k = c.idx, size = 1;
  int len = 0;
  while (k >= size) {
    k -= size;
    size *= 3;
    ++len;
  }
  std::string h = letters(k, len, 3);
  c.describe("all needles in " + quote(h));
  uint64_t nn = 1;
  for (int m = 0; m <= 4; ++m, nn *= 3)
    for (uint64_t b = 0; b < nn; ++b)
      search<View>(c, h, letters(b, m, 3));
}

// alphabets whose letters the skip table confuses (equal modulo 64), with high bytes and zero bytes
static const std::vector<std::string> &alphabets() {
  static const std::vector<std::string> a = {"ab", "a!", std::string("a\xe1\x21", 3), std::string("\0a", 2), std::string("\x80\xff\0@", 4),
                                             "abc", "abcdefghijklmnopqrstuvwxyz", std::string("\xc3\xa9\xe2\x82\xac" "e", 6), "ACGT", "aA1qQ"};
  return a;
}
static std::string gen(Ctx &c, const std::string &al, size_t n) {
  std::string s;
  while (s.size() < n) {
    if (s.size() > 2 && c.rng.chance(1, 3)) { // repeat something already there
      size_t at = c.rng.below(s.size()), l = 1 + c.rng.below(s.size() - at);
      s += s.substr(at, l);
    } else
      s += al[c.rng.below(al.size())];
  }
  s.resize(n);
  return s;
}
static std::string gen_needle(Ctx &c, const std::string &al, const std::string &h) {
  size_t r = c.rng.below(10);
  std::string n;
  if (r < 6 && !h.empty()) {
    size_t at = c.rng.coin() ? c.rng.below(h.size()) : (c.rng.coin() ? 0 : h.size() - 1 - c.rng.below(std::min<size_t>(h.size(), 8)));
    n = h.substr(at, 1 + c.rng.below(r < 3 ? 4 : 20));
    if (c.rng.chance(1, 4))
      n[c.rng.below(n.size())] = al[c.rng.below(al.size())];
  } else if (r < 9)
    n = gen(c, al, 1 + c.rng.below(6));
  else
    n = gen(c, al, c.rng.below(h.size() + 3));
  return n;
}
static size_t gen_len(Ctx &c) {
  switch (c.rng.below(5)) {
  case 0:
    return c.rng.below(6);
  case 1:
    return 8 + c.rng.below(10); // around the limits of the short string and of the naive loop
  case 2:
    return c.rng.below(40);
  case 3:
    return c.rng.below(200);
  default:
    return c.rng.below(c.thorough ? 3000 : 600);
  }
}
static void random_search(Ctx &c) {
  for (int k = 0; k < 20; ++k) {
    const std::string &al = alphabets()[c.rng.below(alphabets().size())];
    std::string h = gen(c, al, gen_len(c)), n = gen_needle(c, al, h);
    c.describe(vf::cat("search ", quote(n), " in ", quote(h)));
    search<View>(c, h, n);
    search<dynd::string>(c, h, n);
    std::string w = gen(c, al, c.rng.chance(1, 3) ? n.size() : c.rng.below(12));
    rewrite<View>(c, h, n, w);
    rewrite<dynd::string>(c, h, n, w);
  }
}

// ---------------------------------------------------------------- the callables, elementwise
static nd::array str_array(Ctx &c, const std::vector<std::string> &v, bool scalar) {
  if (scalar) {
    nd::array a = nd::empty(ndt::type("string"));
    reinterpret_cast<dynd::string *>(a.data())->assign(v[0].data(), v[0].size());
    return a;
  }
  // sometimes a strided view whose gaps hold something else
  int step = (int)c.rng.range(-2, 3);
  if (step == 0)
    step = 1;
  int as = std::abs(step);
  nd::array a = nd::empty(ndt::make_fixed_dim(v.size() * as, ndt::type("string")));
  dynd::string *s = reinterpret_cast<dynd::string *>(a.data());
  size_t total = v.size() * as;
  for (size_t i = 0; i < total; ++i)
    s[i] = dynd::string("gap");
  for (size_t i = 0; i < v.size(); ++i) {
    size_t at = step > 0 ? i * as : total - 1 - i * as;
    s[at].assign(v[i].data(), v[i].size());
  }
  return step == 1 ? a : a(irange().by(step));
}
static std::vector<std::string> read_strs(const dv::Val &v) {
  std::vector<std::string> r;
  for (const dv::Val &x : v.kids)
    r.push_back(x.s);
  return r;
}
static void arrays(Ctx &c) {
  const std::string &al = alphabets()[c.rng.below(alphabets().size())];
  size_t n = 1 + c.rng.below(6);
  bool hs = c.rng.chance(1, 5), ns = c.rng.chance(1, 3), ws = c.rng.chance(1, 3);
  std::vector<std::string> H, N, W;
  for (size_t i = 0; i < n; ++i) {
    H.push_back(gen(c, al, c.rng.below(c.rng.coin() ? 12 : 60)));
    N.push_back(gen_needle(c, al, hs ? H[0] : H[i]));
    W.push_back(gen(c, al, c.rng.below(20)));
  }
  nd::array h = str_array(c, H, hs), nn = str_array(c, N, ns), w = str_array(c, W, ws);
  c.describe(vf::cat("arrays of ", n, " strings, first ", quote(H[0]), " needle ", quote(N[0])));
  auto hi = [&](size_t i) { return H[hs ? 0 : i]; };
  auto ni = [&](size_t i) { return N[ns ? 0 : i]; };
  auto wi = [&](size_t i) { return W[ws ? 0 : i]; };
  typedef std::function<dv::Val(size_t)> want_fn;
  auto run = [&](const char *name, size_t opn, bool scalar, std::function<nd::array()> f, want_fn want) {
    nd::array r;
    auto o = dv::attempt([&] { r = f(); });
    c.saw(name, vf::mix(vf::hash_str(H[0]), vf::hash_str(N[0])));
    if (!c.check(o.ok, vf::cat(name, "-threw"), [&] { return o.msg; }))
      return;
    dv::Val got = dv::read(r);
    dv::Val exp = scalar ? want(0) : dv::Val::L({});
    if (!scalar)
      for (size_t i = 0; i < opn; ++i)
        exp.kids.push_back(want(i));
    c.check(got == exp, vf::cat(name, "-elementwise"), [&] {
      return vf::cat(name, " of ", dv::show(dv::read(h)), " with ", dv::show(dv::read(nn)), " gives ", dv::show(got), " instead of ", dv::show(exp));
    });
  };
  bool s2 = hs && ns;
  run("find", n, s2, [&] { return nd::string_find(h, nn); }, [&](size_t i) { return dv::Val::I(r_find(hi(i), ni(i))); });
  run("rfind", n, s2, [&] { return nd::string_rfind(h, nn); }, [&](size_t i) { return dv::Val::I(r_rfind(hi(i), ni(i))); });
  run("count", n, s2, [&] { return nd::string_count(h, nn); }, [&](size_t i) { return dv::Val::I(r_count(hi(i), ni(i))); });
  run("contains", n, s2, [&] { return nd::string_contains(h, nn); }, [&](size_t i) { return dv::Val::I(r_find(hi(i), ni(i)) >= 0); });
  run("startswith", n, s2, [&] { return nd::string_startswith(h, nn); }, [&](size_t i) { return dv::Val::I(r_starts(hi(i), ni(i))); });
  run("endswith", n, s2, [&] { return nd::string_endswith(h, nn); }, [&](size_t i) { return dv::Val::I(r_ends(hi(i), ni(i))); });
  run("concatenation", n, s2, [&] { return nd::string_concatenation(h, nn); }, [&](size_t i) { return dv::Val::S(hi(i) + ni(i)); });
  run("replace", n, hs && ns && ws, [&] { return nd::string_replace(h, nn, w); },
      [&](size_t i) { return dv::Val::S(r_replace(hi(i), ni(i), wi(i))); });
  run("split", n, s2, [&] { return nd::string_split(h, nn); }, [&](size_t i) {
    dv::Val v = dv::Val::L({});
    for (const std::string &p : r_split(hi(i), ni(i)))
      v.kids.push_back(dv::Val::S(p));
    return v;
  });
  // comparison: strings near one another
  for (size_t i = 0; i < n; ++i) {
    if (c.rng.coin())
      N[i] = hi(i);
    if (c.rng.chance(1, 3) && !N[i].empty())
      N[i][c.rng.below(N[i].size())] = al[c.rng.below(al.size())];
    else if (c.rng.chance(1, 3))
      N[i] = N[i].substr(0, c.rng.below(N[i].size() + 1));
  }
  nn = str_array(c, N, ns);
  auto cmp = [&](const char *name, std::function<nd::array()> f, bool (*ok)(int)) {
    run(name, n, s2, f, [&](size_t i) { return dv::Val::I(ok(r_cmp(hi(i), ni(i)))); });
  };
  cmp("less", [&] { return h < nn; }, [](int x) { return x < 0; });
  cmp("less_equal", [&] { return h <= nn; }, [](int x) { return x <= 0; });
  cmp("equal", [&] { return h == nn; }, [](int x) { return x == 0; });
  cmp("not_equal", [&] { return h != nn; }, [](int x) { return x != 0; });
  cmp("greater_equal", [&] { return h >= nn; }, [](int x) { return x >= 0; });
  cmp("greater", [&] { return h > nn; }, [](int x) { return x > 0; });
  // the operands are as they were
  dv::Val hv = dv::read(h), nv = dv::read(nn);
  c.check(hs ? hv.s == H[0] : read_strs(hv) == H, "operand-changed", [&] { return dv::show(hv); });
  c.check(ns ? nv.s == N[0] : read_strs(nv) == N, "operand-changed", [&] { return dv::show(nv); });
}

static void compare(Ctx &c) { // dynd::string and dynd::bytes operators
  for (int k = 0; k < 30; ++k) {
    const std::string &al = alphabets()[c.rng.below(alphabets().size())];
    std::string a = gen(c, al, c.rng.below(24)), b = c.rng.coin() ? a : gen(c, al, c.rng.below(24));
    if (c.rng.coin() && !b.empty())
      b[c.rng.below(b.size())] = al[c.rng.below(al.size())];
    if (c.rng.chance(1, 4))
      b = b.substr(0, c.rng.below(b.size() + 1));
    dynd::string x(a), y(b);
    if (c.rng.coin()) { // the same content in the other representation
      x = dynd::string(a + std::string(40, 'x'));
      x.resize(a.size());
    }
    int w = r_cmp(a, b);
    c.describe(vf::cat("compare ", quote(a), " and ", quote(b)));
    c.saw("compare", vf::mix(vf::hash_str(a), vf::hash_str(b)));
    auto d = [&] { return vf::cat(quote(a), " and ", quote(b)); };
    c.check((x < y) == (w < 0) && (x <= y) == (w <= 0) && (x > y) == (w > 0) && (x >= y) == (w >= 0), "order", d);
    c.check((x == y) == (w == 0) && (x != y) == (w != 0), "equality", d);
    dynd::bytes p(a.data(), a.size()), q(b.data(), b.size());
    c.check((p == q) == (w == 0) && (p != q) == (w != 0), "bytes-equality", d);
    c.check(str(x + y) == a + b, "plus", d);
    const dynd::string *ps[4] = {&x, &y, &x, &y};
    dynd::string r(gen(c, al, c.rng.below(30)));
    string_concat(1 + k % 4, r, ps);
    std::string wr = a;
    for (int j = 1; j < 1 + k % 4; ++j)
      wr += j % 2 ? b : a;
    c.check(str(r) == wr, "concat", [&] { return vf::cat(quote(str(r)), " instead of ", quote(wr)); });
  }
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "S01",
                 "each string function gives what std::string computes by the definition, reads only its operands and leaves them "
                 "unchanged",
                 {{"small", 2047, 16383, small, false},
                  {"small3", 1093, 9841, small3, false},
                  {"random", 2500, 200000, random_search, false},
                  {"compare", 800, 40000, compare, false},
                  {"arrays", 2000, 80000, arrays, false}});
}
