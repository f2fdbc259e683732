// M02: the C interface, used from C++, C11 and C99 clients in turn, against a model of every object's references.
#include "vf.hpp"
#include <atomic>
#include <memory>
#include <sanitizer/asan_interface.h>
#include <thread>
#include <vector>
#define M02_NAME m02_client_cpp
extern "C" {
#include "m02_client.h"
extern const m02_client m02_client_cpp;
}
#include "m02_client.inc"
using vf::Ctx;

static const char *k_count = "an object's reference count is not what was taken and dropped";
static const char *k_early = "an object is released before its last reference is dropped";
static const char *k_late = "an object is not released when its last reference is dropped";
static const char *k_param = "a constructed type does not list its parameters in order";
static const char *k_align = "a type reports a wrong alignment";
static const char *k_head = "a constructed type's header does not describe it";
static const char *k_prim = "a primitive type reports a wrong size or alignment";
static const char *k_buf = "a buffer does not describe its block";
static const char *k_own = "a client's own object is not released exactly once, by its last reference";
static const char *k_atomic = "an atomic operation gives a wrong value";
static const char *k_layout = "the interface is laid out differently in C and in C++";
static const char *k_leak = "dropping all references does not free everything";
static const char *k_static = "a static object is not as it was after its references are dropped";
static const char *k_refuse = "an ordinary request is refused";
static const char *k_huge = "a block larger than the address space is handed out";
static const char *k_thread = "references taken and dropped by several threads are miscounted";
static const char *k_version = "the library's version is not its headers'";

static const m02_client *const clients[] = {&m02_client_cpp, &m02_client_c11, &m02_client_c99};
static const m02_client &any(Ctx &c) { return *clients[c.rng.below(3)]; }

static const size_t prim_size[M02_NPRIM] = {2, 4, 8, 1, 2, 4, 8, 1, 2, 4, 8, sizeof(size_t)};
static const char *ctor_name[] = {"dense", "sparse", "tuple"};

struct Obj {
  void *p;
  int kind; // -1 a primitive, -2 a constructor, -3 a client's own, else the constructor it was made by
  size_t refs, align, depth;
  std::vector<size_t> params;
  bool alive;
};
static std::vector<void *> g_released;
static void note(void *p) { g_released.push_back(p); }

struct World {
  Ctx &c;
  bool report;
  std::vector<Obj> o;
  size_t made = 0, freed = 0, steps = 0;
  World(Ctx &ctx, bool r) : c(ctx), report(r) {
    for (int i = 0; i < M02_NPRIM; ++i)
      o.push_back({m02_client_cpp.primitive(i), -1, m02_client_cpp.count(m02_client_cpp.primitive(i)), prim_size[i], 0, {}, true});
    for (int i = 0; i < M02_NCTOR; ++i)
      o.push_back({m02_client_cpp.ctor(i), -2, m02_client_cpp.count(m02_client_cpp.ctor(i)), 0, 0, {}, true});
    o.push_back({m02_client_cpp.prim_ctor(), -2, m02_client_cpp.count(m02_client_cpp.prim_ctor()), 0, 0, {}, true});
  }
  bool is_static(const Obj &x) const { return x.kind == -1 || x.kind == -2; }
  void check(bool ok, const char *k, std::function<std::string()> f) {
    if (report)
      c.check(ok, k, f);
  }
  std::string name(size_t i) const {
    const Obj &x = o[i];
    return vf::cat(x.kind == -1 ? "primitive " : x.kind == -2 ? "constructor " : x.kind == -3 ? "own " : ctor_name[x.kind], "#", i, " (",
                   x.params.size(), " parameters, align ", x.align, ", depth ", x.depth, ")");
  }
  bool poisoned(size_t i) const { return __asan_address_is_poisoned(o[i].p); }
  void look(size_t i) {
    if (!report)
      return;
    const Obj &x = o[i];
    const m02_client &m = any(c);
    if (!is_static(x) && poisoned(i)) {
      check(false, k_early, [&] { return vf::cat(name(i), " with ", x.refs, " references"); });
      return;
    }
    size_t n = m.count(x.p);
    check(n == x.refs, k_count, [&] { return vf::cat(name(i), ": ", n, ", model ", x.refs); });
    if (x.kind == -2 || x.kind == -3)
      return;
    size_t al = m.alignment(x.p);
    check(al == x.align, x.kind == -1 ? k_prim : k_align, [&] { return vf::cat(name(i), " aligns at ", al); });
    size_t np = 0;
    void **ps = m.params(x.p, &np);
    bool ok = np == x.params.size();
    for (size_t k = 0; ok && k < np; ++k)
      ok = ps[k] == o[x.params[k]].p;
    check(ok, k_param, [&] { return vf::cat(name(i), " lists ", np); });
    check(m.superclasses(x.p) == 0, k_param, [&] { return vf::cat(name(i), " lists superclasses"); });
    size_t size = 0;
    void *base = m.base_of(x.p, &size);
    if (x.kind >= 0) {
      check(base == x.p && size >= sizeof(dynd_type) + np * sizeof(void *), k_head,
            [&] { return vf::cat(name(i), ": block of ", size, " bytes at ", (char *)base - (char *)x.p); });
      check(m.constructor_of(x.p) == m.ctor(x.kind), k_head, [&] { return vf::cat(name(i), " names another constructor"); });
      check(base != x.p || __asan_region_is_poisoned(base, size) == nullptr, k_head,
            [&] { return vf::cat(name(i), ": its block is not ", size, " bytes"); });
    } else {
      check(m.primitive_size(x.p) == x.align || m.primitive_size(x.p) == prim_size[i], k_prim,
            [&] { return vf::cat(name(i), " has size ", m.primitive_size(x.p)); });
      check(m.constructor_of(x.p) == m.prim_ctor(), k_head, [&] { return vf::cat(name(i), " names another constructor"); });
    }
  }
  void incref(size_t i) {
    any(c).incref(o[i].p);
    ++o[i].refs;
  }
  void decref(size_t i) {
    Obj &x = o[i];
    bool last = x.refs == 1;
    size_t before = g_released.size();
    any(c).decref(x.p);
    --x.refs;
    if (x.kind == -3) {
      check(g_released.size() == before + (last ? 1 : 0) && (!last || g_released.back() == x.p), k_own, [&] {
        return vf::cat(name(i), ": released ", g_released.size() - before, " times with ", x.refs, " references left");
      });
    }
    if (!last)
      return;
    check(poisoned(i), k_late, [&] { return name(i); });
    x.alive = false;
    ++freed;
    std::vector<size_t> ps;
    ps.swap(x.params);
    // a type borrows its parameters: releasing it left their counts alone; its maker now drops what it held for it
    for (size_t p : ps) {
      check(!(!is_static(o[p]) && poisoned(p)), k_early, [&] { return vf::cat("parameter ", name(p)); });
      if (report && (is_static(o[p]) || !poisoned(p)))
        check(m02_client_cpp.count(o[p].p) == o[p].refs, k_count,
              [&] { return vf::cat("parameter ", name(p), ": ", m02_client_cpp.count(o[p].p), ", model ", o[p].refs); });
    }
    for (size_t p : ps)
      decref(p);
  }
  size_t pick(std::function<bool(const Obj &)> f) {
    std::vector<size_t> v;
    for (size_t i = 0; i < o.size(); ++i)
      if (o[i].alive && f(o[i]))
        v.push_back(i);
    return v.empty() ? (size_t)-1 : v[c.rng.below(v.size())];
  }
  void make(int w, size_t nparams, size_t maxdepth) {
    std::vector<size_t> ps;
    for (size_t k = 0; k < nparams; ++k)
      ps.push_back(c.rng.chance(2, 5) ? c.rng.below(M02_NPRIM)
                                      : pick([&](const Obj &x) { return x.kind >= -1 && x.depth < maxdepth; }));
    size_t al = 1, depth = 0;
    for (size_t p : ps) {
      al = std::max(al, o[p].align);
      depth = std::max(depth, o[p].depth + 1);
      incref(p);
    }
    // the caller's list is its own: it is gone once the type is made
    std::unique_ptr<void *[]> list(new void *[nparams ? nparams : 1]);
    for (size_t k = 0; k < nparams; ++k)
      list[k] = o[ps[k]].p;
    void *t = any(c).make(w, list.get(), list.get() + nparams);
    for (size_t k = 0; k < nparams; ++k)
      list[k] = nullptr;
    check(t != nullptr, k_refuse, [&] { return vf::cat(ctor_name[w], " of ", nparams); });
    if (!t) {
      for (size_t p : ps)
        decref(p);
      return;
    }
    ++made;
    o.push_back({t, w, 1, al, depth, ps, true});
    look(o.size() - 1);
    for (size_t p : ps)
      if (c.rng.chance(1, nparams > 8 ? 8 : 1))
        look(p);
  }
  void finish() {
    // drop everything, parents and children in any order (children are held by their parents' makers)
    std::vector<size_t> left;
    for (size_t i = 0; i < o.size(); ++i)
      if (!is_static(o[i]) && o[i].alive) {
        size_t held = 0;
        for (auto &x : o)
          if (x.alive)
            for (size_t p : x.params)
              held += p == i;
        for (size_t k = held; k < o[i].refs; ++k)
          left.push_back(i);
      }
    for (size_t k = left.size(); k > 1; --k)
      std::swap(left[k - 1], left[c.rng.below(k)]);
    for (size_t i : left) {
      decref(i);
      if (c.rng.chance(1, 4) && o[i].alive)
        look(i);
    }
    for (size_t i = 0; i < o.size(); ++i)
      if (is_static(o[i])) {
        size_t extra = extra_static[i];
        for (; extra; --extra)
          decref(i);
        extra_static[i] = 0;
        check(m02_client_cpp.count(o[i].p) == 1, k_static, [&] { return vf::cat(name(i), ": ", m02_client_cpp.count(o[i].p)); });
        look(i);
      } else
        check(!o[i].alive, k_late, [&] { return name(i); });
  }
  size_t extra_static[M02_NPRIM + M02_NCTOR + 1] = {};
  void history(size_t n, size_t maxdepth, size_t wide) {
    for (steps = 0; steps < n; ++steps) {
      switch (c.rng.below(9)) {
      case 0:
      case 1:
        make(M02_TUPLE, c.rng.chance(1, 6) ? 0 : 1 + c.rng.below(c.rng.chance(1, 5) ? wide : 5), maxdepth);
        break;
      case 2:
        make(c.rng.coin() ? M02_DENSE : M02_SPARSE, 1, maxdepth);
        break;
      case 3: {
        size_t extra = c.rng.below(40);
        o.push_back({any(c).own_make(extra, note), -3, 1, 0, 0, {}, true});
        break;
      }
      case 4:
      case 5: {
        size_t i = pick([](const Obj &) { return true; });
        incref(i);
        if (is_static(o[i]))
          ++extra_static[i];
        look(i);
        break;
      }
      default: {
        size_t i = c.rng.below(o.size());
        if (!o[i].alive)
          break;
        if (is_static(o[i])) {
          if (!extra_static[i])
            break;
          --extra_static[i];
          decref(i);
          break;
        }
        size_t held = 0;
        for (auto &x : o)
          if (x.alive)
            for (size_t p : x.params)
              held += p == i;
        if (o[i].refs > held)
          decref(i);
        if (o[i].alive)
          look(i);
      }
      }
      if (o.size() > (size_t)(M02_NPRIM + M02_NCTOR + 1) && c.rng.chance(1, 3)) {
        size_t i = pick([](const Obj &) { return true; });
        look(i);
      }
    }
    finish();
  }
};

static void histories(Ctx &c) {
  auto start = c.rng;
  long grew[3] = {};
  for (int r = 0; r < 3; ++r) {
    c.rng = start;
    size_t n = 5 + c.rng.below(c.thorough ? 400 : 120), depth = c.rng.chance(1, 4) ? 200 : 1 + c.rng.below(6),
           wide = c.rng.chance(1, 4) ? 300 : 12;
    g_released.clear();
    g_released.reserve(4096);
    auto after = c.rng;
    long h0;
    {
      std::unique_ptr<World> w(new World(c, r == 0));
      w->o.reserve(16384);
      h0 = vf::heap_bytes();
      (void)after;
      w->history(n, depth, wide);
      if (r == 0) {
        c.saw("objects", vf::mix(vf::mix(w->made, w->freed), w->o.size()));
        c.saw("history", vf::mix(c.idx, n));
        if (c.idx % 40 == 0)
          c.sample(vf::cat(n, " steps, ", w->made, " types made, ", w->freed, " objects released"));
      }
      grew[r] = vf::heap_bytes() - h0;
      w.reset();
    }
  }
  c.check(grew[1] == 0 || grew[2] == 0, k_leak, [&] { return vf::cat("a history leaves ", grew[1], " and ", grew[2], " bytes"); });
}

static void chains(Ctx &c) {
  // a long chain of types, each the parameter of the next, dropped from either end
  size_t n = 1 + c.rng.below(c.thorough ? 3000 : 400);
  std::vector<void *> t;
  std::vector<int> kind;
  int prim = (int)c.rng.below(M02_NPRIM);
  void *cur = any(c).primitive(prim);
  for (size_t i = 0; i < n; ++i) {
    int w = (int)c.rng.below(M02_NCTOR);
    void *list[1] = {cur};
    cur = any(c).make(w, list, list + 1);
    c.check(cur != nullptr, k_refuse, [] { return "link of a chain"; });
    t.push_back(cur);
    kind.push_back(w);
    size_t al = any(c).alignment(cur);
    c.check(al == prim_size[prim], k_align, [&] { return vf::cat("link ", i, " over primitive ", prim, " aligns at ", al); });
  }
  c.saw("chain", vf::mix(n, prim));
  for (size_t i = 0; i < n; ++i) {
    c.check(any(c).count(t[i]) == 1, k_count, [&] { return vf::cat("link ", i, " has ", any(c).count(t[i])); });
    size_t np;
    void **ps = any(c).params(t[i], &np);
    c.check(np == 1 && ps[0] == (i ? t[i - 1] : any(c).primitive(prim)), k_param, [&] { return vf::cat("link ", i); });
  }
  bool front = c.rng.coin();
  for (size_t i = 0; i < n; ++i) {
    void *p = front ? t[i] : t[n - 1 - i];
    any(c).decref(p);
    c.check(__asan_address_is_poisoned(p), k_late, [&] { return vf::cat("link ", i, " of a chain"); });
    if (i + 1 < n) {
      void *q = front ? t[i + 1] : t[n - 2 - i];
      c.check(!__asan_address_is_poisoned(q), k_early, [&] { return vf::cat("link ", i, " of a chain takes its neighbour along"); });
    }
  }
  c.check(m02_client_cpp.count(m02_client_cpp.primitive(prim)) == 1, k_static, [&] { return vf::cat("primitive ", prim); });
}

static void buffers(Ctx &c) {
  std::vector<std::pair<void *, size_t>> live;
  long h0 = vf::heap_bytes();
  size_t cap = 0;
  live.reserve(64);
  cap = vf::heap_bytes() - h0;
  h0 += cap;
  size_t n = 1 + c.rng.below(40);
  for (size_t k = 0; k < n; ++k) {
    if (live.size() < 60 && (live.empty() || c.rng.coin())) {
      if (c.rng.chance(1, 12)) {
        size_t huge = (size_t)-1 - c.rng.below(1u << 20);
        if (c.rng.coin())
          huge >>= 1 + c.rng.below(8);
        void *b = any(c).buffer_make(huge);
        c.check(b == nullptr, k_huge, [&] { return vf::cat(huge, " bytes"); });
        c.saw("huge", huge);
        continue;
      }
      size_t size = sizeof(dynd_buffer) + (c.rng.coin() ? c.rng.below(32) : c.rng.below(5000));
      void *b = any(c).buffer_make(size);
      c.check(b != nullptr, k_refuse, [&] { return vf::cat("a buffer of ", size); });
      if (!b)
        continue;
      c.saw("buffer", size);
      size_t got;
      void *base = any(c).buffer_base(b, &got);
      c.check(base == b && got == size && !__asan_region_is_poisoned(b, size), k_buf,
              [&] { return vf::cat(size, " bytes asked, ", got, " described, base at ", (char *)base - (char *)b); });
      memset((char *)b + sizeof(dynd_buffer), (int)(size & 255), size - sizeof(dynd_buffer));
      live.push_back({b, size});
    } else {
      size_t i = c.rng.below(live.size());
      void *b = live[i].first;
      size_t size = live[i].second, got;
      c.check(any(c).buffer_base(b, &got) == b && got == size, k_buf, [&] { return vf::cat("a buffer of ", size, " later"); });
      bool same = true;
      for (size_t j = sizeof(dynd_buffer); j < size; ++j)
        same = same && ((unsigned char *)b)[j] == (size & 255);
      c.check(same, k_buf, [&] { return vf::cat("a buffer of ", size, " was overwritten"); });
      any(c).buffer_release(b);
      c.check(__asan_address_is_poisoned(b), k_late, [&] { return vf::cat("a buffer of ", size); });
      live[i] = live.back();
      live.pop_back();
    }
  }
  for (auto &l : live)
    any(c).buffer_release(l.first);
  for (auto &l : live)
    c.check(__asan_address_is_poisoned(l.first), k_late, [&] { return vf::cat("a buffer of ", l.second); });
  // a descriptor kept apart from the block that it describes
  size_t size = 1 + c.rng.below(200);
  char *block = (char *)malloc(size);
  dynd_buffer d;
  d.resource.release = &dynd_release_malloc_allocated;
  d.allocated.base_ptr = block;
  d.allocated.size = size;
  any(c).buffer_release(&d);
  c.check(__asan_address_is_poisoned(block), k_late, [&] { return "a block described from outside it"; });
}

static void atomics(Ctx &c) {
  alignas(16) static unsigned char cell[32];
  size_t model = c.rng.coin() ? (size_t)c.rng.next() : (c.rng.coin() ? (size_t)0 - c.rng.below(4) : c.rng.below(4));
  any(c).atomic(3, cell, model);
  size_t n = 10 + c.rng.below(60);
  for (size_t i = 0; i < n; ++i) {
    int op = (int)c.rng.below(6);
    size_t v = c.rng.chance(3, 4) ? c.rng.below(3) : (size_t)c.rng.next();
    size_t want = op == 3 ? v : model;
    size_t got = any(c).atomic(op, cell, v);
    c.check(got == want, k_atomic, [&] { return vf::cat("operation ", op, " by ", v, " on ", model, " gives ", got, ", not ", want); });
    model = op == 0 || op == 2 ? model + v : op == 1 ? model - v : op == 3 ? v : model;
    c.saw("atomic", vf::mix(op, v));
  }
}

static std::atomic<int> g_freed;
static void note_mt(void *) { ++g_freed; }
static void threads(Ctx &c) {
  const m02_client *m[4];
  for (auto &x : m)
    x = &any(c);
  int prim = (int)c.rng.below(M02_NPRIM);
  void *list[2] = {m[0]->primitive(prim), m[0]->primitive((prim + 1) % M02_NPRIM)};
  void *tuple = m[0]->make(M02_TUPLE, list, list + 2), *own = m[1]->own_make(8, note_mt), *st = list[0];
  size_t n = 200 + c.rng.below(c.thorough ? 20000 : 2000);
  g_freed = 0;
  std::atomic<int> ready{0}, bad{0}, freed_tuple{0};
  uint64_t seeds[4] = {c.rng.next(), c.rng.next(), c.rng.next(), c.rng.next()};
  std::vector<std::thread> ts;
  for (int t = 0; t < 3; ++t) { // one reference each for the threads, which drop it at their end
    m[t]->incref(tuple);
    m[t]->incref(own);
    m[t]->incref(st);
  }
  for (int t = 0; t < 4; ++t)
    ts.emplace_back([&, t] {
      const m02_client &k = *m[t];
      ++ready;
      while (ready < 4)
        std::this_thread::yield();
      uint64_t x = seeds[t] | 1;
      size_t held = 0;
      for (size_t i = 0; i < n; ++i) {
        x ^= x << 13, x ^= x >> 7, x ^= x << 17;
        if (held && (x & 1)) {
          k.decref(tuple), k.decref(own), k.decref(st);
          --held;
        } else {
          k.incref(tuple), k.incref(own), k.incref(st);
          ++held;
        }
        if (k.alignment(tuple) != std::max(prim_size[prim], prim_size[(prim + 1) % M02_NPRIM]))
          ++bad;
      }
      for (++held; held; --held) {
        k.decref(tuple), k.decref(own);
        if (t != 3 || held > 1)
          k.decref(st);
      }
    });
  for (auto &t : ts)
    t.join();
  c.check(g_freed == 1, k_thread, [&] { return vf::cat("own object released ", g_freed.load(), " times"); });
  c.check(__asan_address_is_poisoned(tuple), k_thread, [&] { return "the shared type is still there"; });
  c.check(m[0]->count(st) == 1, k_thread, [&] { return vf::cat("primitive left with ", m[0]->count(st)); });
  c.check(bad == 0, k_align, [&] { return vf::cat(bad.load(), " times while shared"); });
  c.saw("threads", vf::mix(n, prim));
}

// many objects, the last references to each dropped by several threads at once
static void last(Ctx &c) {
  enum { R = 1500 };
  size_t nt = 2 + c.rng.below(3);
  const m02_client *m[4];
  for (auto &x : m)
    x = &any(c);
  std::vector<void *> o(R);
  static std::atomic<int> total;
  total = 0;
  for (auto &p : o) {
    p = m[0]->own_make(0, [](void *) { ++total; });
    for (size_t t = 1; t < nt; ++t)
      m[t]->incref(p);
  }
  std::atomic<size_t> at[4];
  for (auto &x : at)
    x = 0;
  std::vector<std::thread> ts;
  for (size_t t = 0; t < nt; ++t)
    ts.emplace_back([&, t] {
      for (size_t i = 0; i < R; ++i) {
        at[t] = i + 1;
        for (size_t u = 0; u < nt; ++u)
          for (int spin = 0; at[u] < i + 1; ++spin)
            if (spin > 3000)
              std::this_thread::yield();
        m[t]->decref(o[i]);
      }
    });
  for (auto &t : ts)
    t.join();
  c.check(total == R, k_own, [&] { return vf::cat(R, " objects shared by ", nt, " threads, ", total.load(), " releases"); });
  c.saw("dropped together", vf::mix(nt, c.idx));
}

static void layout(Ctx &c) {
  size_t a[M02_NLAYOUT], b[M02_NLAYOUT];
  clients[0]->layout(a);
  for (int k = 1; k < 3; ++k) {
    clients[k]->layout(b);
    for (int i = 0; i < M02_NLAYOUT; ++i) {
      c.check(a[i] == b[i], k_layout, [&] { return vf::cat(clients[k]->name, ": number ", i, " is ", b[i], ", not ", a[i]); });
      c.saw("layout", vf::mix(i, a[i]));
    }
  }
  for (auto m : clients) {
    for (int w = 0; w < 3; ++w)
      c.check(m->version(w, 0) == m->version(w, 1), k_version, [&] { return vf::cat(m->name, " part ", w); });
    for (int i = 0; i < M02_NPRIM; ++i) {
      void *p = m->primitive(i);
      c.check(p == clients[0]->primitive(i), k_layout, [&] { return vf::cat("primitive ", i); });
      c.check(m->primitive_size(p) == prim_size[i] && m->alignment(p) == prim_size[i], k_prim, [&] {
        return vf::cat("primitive ", i, ": size ", m->primitive_size(p), ", alignment ", m->alignment(p));
      });
      c.check(m->count(p) == 1, k_static, [&] { return vf::cat("primitive ", i, " starts with ", m->count(p)); });
      c.check(m->count(m->vtable_of(p)) == 1, k_static, [&] { return vf::cat("vtable of primitive ", i); });
      c.saw("primitive", i);
    }
    for (int i = 0; i < M02_NCTOR; ++i) {
      c.check(m->count(m->ctor(i)) == 1, k_static, [&] { return vf::cat("constructor ", i, " starts with ", m->count(m->ctor(i))); });
      c.check(m->count(m->ctor_vtable(i)) == 1, k_static, [&] { return vf::cat("vtable of constructor ", i); });
    }
    c.check(m->count(m->prim_ctor()) == 1, k_static, [&] { return vf::cat("constructor of primitives starts with ", m->count(m->prim_ctor())); });
  }
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "M02",
                 "an object's count is what was taken and dropped, and it is freed when that reaches nothing; types list their "
                 "parameters and align as them",
                 {{"layout", 8, 8, layout},
                  {"histories", 1500, 15000, histories},
                  {"chains", 300, 3000, chains},
                  {"buffers", 2000, 20000, buffers},
                  {"atomics", 1500, 15000, atomics},
                  {"threads", 60, 600, threads, true},
                  {"last", 60, 1000, last, true}});
}
