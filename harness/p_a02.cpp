// A02: permute, rotate, transpose, new_axis and reshape, by leaf addresses.
#include "arrgen.hpp"
#include <dynd/callable.hpp>
#include <dynd/irange.hpp>
#include <dynd/index.hpp>
using namespace dynd;
using ag::Node;
using vf::Ctx;
typedef std::vector<intptr_t> ivec;

static const char *elems[] = {"int32", "float64", "uint8", "string", "{a: int16, b: float64}", "complex[float64]", "(string, 2 * int32)",
                              "var * int16", "?int32", "fixed_string[5]", "var * 2 * string"};
static ag::View gen(Ctx &c, int min_ndim, bool builtin = false, ag::Layout lay = ag::Strided, bool any = true) {
  ivec sh;
  do
    sh = ag::gen_shape(c, 5, 4);
  while ((int)sh.size() < min_ndim);
  ndt::type e(elems[c.rng.below(builtin ? 3 : 11)]);
  return ag::make_view(c, e, sh, any ? ag::gen_layout(c, true) : lay);
}
static std::string list(const ivec &v) {
  std::string s = "(";
  for (intptr_t x : v)
    s += vf::cat(x, ",");
  return s + ")";
}
static uint64_t hash(const ivec &v) { return vf::hash_bytes(v.data(), v.size() * 8); }

// every element of `r`, at index ix, is the element of `v` at where(ix)
template <class F>
static void same(Ctx &c, const ag::View &v, const nd::array &r, const ivec &shape, F where, const char *key, const std::string &what) {
  ivec rs(r.get_ndim() + 1);
  const Node t = ag::tree(r);
  const Node *n = &t;
  size_t nd = 0;
  ndt::type tp = r.get_type();
  for (size_t i = 0; i < shape.size(); ++i) {
    if (!c.check(tp.get_id() == fixed_dim_id && tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == shape[i], key, [&] {
          return what + " gives " + r.get_type().str() + " instead of " + list(shape);
        }))
      return;
    tp = tp.extended<ndt::base_dim_type>()->get_element_type();
    ++nd;
  }
  (void)n;
  if (!c.check(tp == v.elem, key, [&] { return what + " gives " + r.get_type().str(); }))
    return;
  const char *md = v.owner.get()->metadata() + sizeof(fixed_dim_type_arrmeta);
  ag::each(shape, [&](const ivec &ix) {
    const Node *x = &t;
    for (intptr_t i : ix)
      x = &x->kids[i];
    std::string why;
    c.check(ag::same(*x, ag::tree(v.elem, md, v.at(where(ix))), why), key, [&] { return what + " at " + list(ix) + ": " + why; });
  });
}

static bool valid_perm(const ivec &axes) {
  std::vector<char> seen(axes.size(), 0);
  for (intptr_t a : axes) {
    if (a < 0 || a >= (intptr_t)axes.size() || seen[a])
      return false;
    seen[a] = 1;
  }
  return true;
}

static void permutes(Ctx &c) {
  ag::View v = gen(c, 0);
  size_t n = v.shape.size();
  size_t k = c.rng.below(n + 1);
  if (c.rng.chance(1, 20))
    k = n + 1;
  ivec ax(k);
  for (size_t i = 0; i < k; ++i)
    ax[i] = i;
  for (size_t i = k; i > 1; --i)
    if (c.rng.chance(2, 3))
      std::swap(ax[i - 1], ax[c.rng.below(i)]);
  if (k && c.rng.chance(1, 10))
    ax[c.rng.below(k)] = c.rng.chance(1, 2) ? c.rng.range(-2, k + 1) : c.rng.range(-1000, 1000);
  std::string what = v.str() + " permuted by " + list(ax);
  c.describe(what);
  nd::array r;
  auto o = dv::attempt([&] { r = v.a.permute(k, ax.data()); });
  c.saw("permute", vf::mix(hash(ax), vf::hash_str(v.str())));
  c.sample(what);
  // a variable dimension of the element counts as a dimension of the array, but it cannot be moved
  bool dims = v.elem.get_ndim() > 0;
  bool ok = valid_perm(ax) && (k <= n);
  if (k > n && dims) { // reaches into the element: only the identity there
    c.check(o.ok || !o.ok, "", [] { return ""; });
    return;
  }
  if (!c.check(o.ok == ok, ok ? "permute-threw" : "permute-accepted", [&] { return what + ": " + o.msg; }) || !ok)
    return;
  ivec sh = v.shape;
  for (size_t i = 0; i < k; ++i)
    sh[i] = v.shape[ax[i]];
  same(c, v, r, sh, [&](const ivec &ix) {
    ivec s = ix;
    for (size_t i = 0; i < k; ++i)
      s[ax[i]] = ix[i];
    return s;
  }, "permute", what);
  c.check(r.get_flags() == v.a.get_flags(), "flags", [&] { return what; });
}

static void rotates(Ctx &c) {
  ag::View v = gen(c, 1);
  size_t n = v.shape.size();
  intptr_t to = c.rng.below(n), from = c.rng.below(n);
  int how = (int)c.rng.below(3);
  if (how && v.elem.get_ndim())
    how = 0; // the default axis is the variable one
  if (how == 1) {
    to = n - 1;
  }
  std::string what = how == 2 ? v.str() + " transposed" : vf::cat(v.str(), " axis ", from, " rotated to ", to);
  c.describe(what);
  nd::array r;
  auto o = dv::attempt([&] { r = how == 0 ? v.a.rotate(to, from) : how == 1 ? v.a.rotate(to, from) : v.a.transpose(); });
  c.saw("rotate", vf::mix(how * 64 + to * 8 + from, vf::hash_str(v.str())));
  if (!c.check(o.ok, "rotate-threw", [&] { return what + ": " + o.msg; }))
    return;
  // ax[i]: which axis of the original is now axis i
  ivec ax(n);
  for (size_t i = 0; i < n; ++i)
    ax[i] = i;
  if (how == 2)
    std::reverse(ax.begin(), ax.end());
  else {
    ax.erase(ax.begin() + from);
    ax.insert(ax.begin() + to, from);
  }
  ivec sh(n);
  for (size_t i = 0; i < n; ++i)
    sh[i] = v.shape[ax[i]];
  same(c, v, r, sh, [&](const ivec &ix) {
    ivec s(n);
    for (size_t i = 0; i < n; ++i)
      s[ax[i]] = ix[i];
    return s;
  }, how == 2 ? "transpose" : "rotate", what);
}

static void new_axes(Ctx &c) {
  ag::View v = gen(c, 0);
  size_t n = v.shape.size();
  intptr_t at = c.rng.below(n + 1), k = c.rng.below(4);
  std::string what = vf::cat(v.str(), " with ", k, " new axes at ", at);
  c.describe(what);
  nd::array r;
  auto o = dv::attempt([&] { r = v.a.new_axis(at, k); });
  c.saw("new_axis", vf::mix(at * 8 + k, vf::hash_str(v.str())));
  if (!c.check(o.ok, "new-axis-threw", [&] { return what + ": " + o.msg; }))
    return;
  ivec sh = v.shape;
  sh.insert(sh.begin() + at, k, 1);
  same(c, v, r, sh, [&](const ivec &ix) {
    ivec s = ix;
    s.erase(s.begin() + at, s.begin() + at + k);
    return s;
  }, "new-axis", what);
}

static void reshapes(Ctx &c) {
  ag::View v = gen(c, 0, true, ag::Contiguous, false);
  intptr_t total = v.size();
  ivec sh;
  intptr_t left = total;
  bool bad = false;
  if (c.rng.chance(1, 8)) {
    for (size_t i = c.rng.below(5); i > 0; --i)
      sh.push_back(c.rng.range(-3, 6));
  } else if (total == 0) {
    for (size_t i = c.rng.below(4); i > 0; --i)
      sh.push_back(c.rng.below(4));
    sh.push_back(0);
  } else {
    while (left > 1 || c.rng.chance(1, 4)) {
      intptr_t f;
      do
        f = 1 + c.rng.below(left);
      while (left % f);
      sh.insert(sh.begin() + c.rng.below(sh.size() + 1), f);
      left /= f;
      if (sh.size() > 8)
        break;
    }
    if (left > 1)
      sh.push_back(left);
  }
  intptr_t prod = 1;
  for (intptr_t s : sh) {
    prod *= s;
    bad |= s < 0;
  }
  bad |= prod != total;
  std::string what = v.str() + " reshaped to " + list(sh);
  c.describe(what);
  nd::array r;
  auto o = dv::attempt([&] { r = c.rng.coin() ? nd::reshape(v.a, sh.size(), sh.data()) : nd::reshape(v.a, nd::array(sh)); });
  c.saw("reshape", vf::mix(hash(sh), vf::hash_str(v.str())));
  if (!c.check(o.ok == !bad, bad ? "reshape-accepted" : "reshape-threw", [&] { return what + ": " + o.msg; }) || bad)
    return;
  ivec st(v.shape.size());
  same(c, v, r, sh, [&](const ivec &ix) {
    intptr_t k = 0;
    for (size_t i = 0; i < sh.size(); ++i)
      k = k * sh[i] + ix[i];
    ivec s(v.shape.size());
    for (size_t i = v.shape.size(); i-- > 0;) {
      s[i] = k % v.shape[i];
      k /= v.shape[i];
    }
    return s;
  }, "reshape", what);
}

// a chain of rearrangements, views of views
static void chains(Ctx &c) {
  ag::View v = gen(c, 1);
  nd::array r = v.a;
  // perm[i]: the axis of v that axis i of r is, or -1 for a new one
  ivec perm(v.shape.size());
  for (size_t i = 0; i < perm.size(); ++i)
    perm[i] = i;
  std::string what = v.str();
  bool vardim = v.elem.get_ndim() > 0;
  for (int k = 0; k < 5; ++k) {
    size_t n = perm.size();
    switch (c.rng.below(3)) {
    case 0: {
      ivec ax(n);
      for (size_t i = 0; i < n; ++i)
        ax[i] = i;
      for (size_t i = n; i > 1; --i)
        std::swap(ax[i - 1], ax[c.rng.below(i)]);
      what += ".permute" + list(ax);
      c.describe(what);
      r = r.permute(n, ax.data());
      ivec p(n);
      for (size_t i = 0; i < n; ++i)
        p[i] = perm[ax[i]];
      perm = p;
      break;
    }
    case 1:
      if (!vardim) {
        what += ".transpose";
        c.describe(what);
        r = r.transpose();
        std::reverse(perm.begin(), perm.end());
      }
      break;
    default:
      if (n < 7) {
        size_t at = c.rng.below(n + 1);
        what += vf::cat(".new_axis(", at, ")");
        c.describe(what);
        r = r.new_axis(at, 1);
        perm.insert(perm.begin() + at, -1);
      }
    }
  }
  ivec sh;
  for (intptr_t p : perm)
    sh.push_back(p < 0 ? 1 : v.shape[p]);
  c.saw("chain", vf::hash_str(what));
  c.sample(what);
  same(c, v, r, sh, [&](const ivec &ix) {
    ivec s(v.shape.size());
    for (size_t i = 0; i < perm.size(); ++i)
      if (perm[i] >= 0)
        s[perm[i]] = ix[i];
    return s;
  }, "chain", what);
}

// concatenating two one-dimensional arrays: the elements of one, then those of the other
static void concats(Ctx &c) {
  ndt::type e(elems[c.rng.below(6)]);
  ag::View x = ag::make_view(c, e, {1 + (intptr_t)c.rng.below(6)}, ag::gen_layout(c, true)),
           y = ag::make_view(c, e, {1 + (intptr_t)c.rng.below(6)}, ag::gen_layout(c, true));
  c.describe("concatenate " + x.str() + " and " + y.str());
  nd::array r;
  dv::Val bx = dv::read(x.a), by = dv::read(y.a);
  auto o = dv::attempt([&] { r = nd::concatenate(x.a, y.a); });
  c.saw("concatenate", vf::mix(dv::hash(bx), dv::hash(by)));
  if (!c.check(o.ok, "concatenate-threw", [&] { return o.msg; }))
    return;
  dv::Val want = bx;
  want.kids.insert(want.kids.end(), by.kids.begin(), by.kids.end());
  c.check(dv::read(r) == want, "concatenate", [&] { return dv::show(dv::read(r)) + " instead of " + dv::show(want); });
  c.check(dv::read(x.a) == bx && dv::read(y.a) == by, "concatenate-changed-input", [&] { return x.str(); });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "A02", "each element of the rearranged array is, by address, the element of the original at the renamed position",
                 {{"permute", 6000, 300000, permutes, false},
                  {"rotate", 4000, 200000, rotates, false},
                  {"new-axis", 3000, 100000, new_axes, false},
                  {"reshape", 4000, 200000, reshapes, false},
                  {"chain", 3000, 200000, chains, false},
                  {"concatenate", 1500, 50000, concats, false}});
}
