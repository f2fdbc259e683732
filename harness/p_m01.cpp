// M01: memory blocks and byte strings, against a shadow of every live piece of memory: where it is, how big, what it holds.
#include "arrgen.hpp"
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <unistd.h>
#include <dirent.h>
#include <dynd/memblock/external_memory_block.hpp>
#include <dynd/memblock/fixed_size_pod_memory_block.hpp>
#include <dynd/memblock/memmap_memory_block.hpp>
#include <dynd/memblock/objectarray_memory_block.hpp>
#include <dynd/memblock/pod_memory_block.hpp>
#include <dynd/memblock/zeroinit_memory_block.hpp>
#include <dynd/types/sso_bytestring.hpp>
using namespace dynd;
using vf::Ctx;

static const char *k_align = "a piece of memory is not aligned as asked";
static const char *k_zero = "memory promised zeroed is not zero";
static const char *k_overlap = "two live pieces of memory overlap";
static const char *k_keep = "a live piece of memory changes when another is handed out";
static const char *k_grow = "resizing a piece does not keep its contents";
static const char *k_leak = "destroying a block does not free everything it holds";
static const char *k_refuse = "an ordinary allocation is refused";
static const char *k_huge = "an allocation larger than the address space succeeds";
static const char *k_count = "a block keeps a wrong count of its references";
static const char *k_ext = "an external object is not freed exactly once, when its last reference is dropped";
static const char *k_map = "a mapped file does not show the bytes of the range asked for";
static const char *k_mapleak = "a mapped file is not unmapped and closed";
static const char *k_elem = "an element does not hold what was put in it";
static const char *k_str = "a byte string does not hold what was put in it";
static const char *k_strsize = "a byte string reports a wrong size or capacity";

// A piece of plain memory, filled with bytes derived from its seed
struct Piece {
  char *p;
  size_t n;
  uint32_t seed;
  static char pat(uint32_t seed, size_t i) { return (char)(vf::mix(seed, i) | 1); }
  void fill(uint32_t s) {
    seed = s;
    for (size_t i = 0; i < n; ++i)
      p[i] = pat(s, i);
  }
  bool good(size_t upto) const {
    for (size_t i = 0; i < upto; ++i)
      if (p[i] != pat(seed, i))
        return false;
    return true;
  }
};
static bool zero(const char *p, size_t n) {
  for (size_t i = 0; i < n; ++i)
    if (p[i])
      return false;
  return true;
}

// ---------------------------------------------------------------- plain memory, zeroed or not
static void plain_history(Ctx &c, bool report, bool zeroed, const ndt::type &tp, size_t esize, size_t align, intptr_t cap, bool raw) {
  nd::memory_block mb;
  if (zeroed)
    mb = nd::make_memory_block<nd::zeroinit_memory_block>(tp, cap);
  else if (raw)
    mb = nd::make_memory_block<nd::pod_memory_block>(esize, (intptr_t)align, cap);
  else
    mb = nd::make_memory_block<nd::pod_memory_block>(tp, cap);
  std::vector<nd::memory_block> refs; // other references: the last one of all frees the block
  std::vector<Piece> live;
  bool resizable = false;
  std::string log;
  size_t total = 0;
  int n = 8 + (int)c.rng.below(40);
  uint32_t seed = (uint32_t)c.rng.next();
  size_t span = std::max<size_t>(1, (size_t)cap / std::max<size_t>(1, esize));
  for (int k = 0; k < n; ++k) {
    int op = (int)c.rng.below(16);
    if (op < 9 || live.empty() || (op < 13 && !resizable)) {
      size_t cnt;
      switch (c.rng.below(5)) {
      case 0: cnt = c.rng.below(4); break;
      case 1: cnt = span + c.rng.below(3) - std::min<size_t>(span, 1); break;
      case 2: cnt = c.rng.below(2 * span + 2); break;
      default: cnt = c.rng.below(20);
      }
      if ((total + cnt * esize) > 300000)
        continue;
      log += vf::cat(" alloc", cnt);
      if (report)
        c.describe(log);
      char *p = nullptr;
      dv::Outcome o = dv::attempt([&] { p = mb->alloc(cnt); });
      if (!o.ok) {
        if (report)
          c.check(false, k_refuse, [&] { return vf::cat(tp.str(), " size ", esize, log, ": ", o.msg); });
        return;
      }
      Piece x{p, cnt * esize, 0};
      total += x.n;
      if (report) {
        if (!c.check(x.n == 0 || (uintptr_t)p % align == 0, k_align, [&] { return vf::cat(tp.str(), " size ", esize, " align ", align, " capacity ", cap, log, " gives ", (void *)p); }))
          return;
        if (zeroed && !c.check(zero(p, x.n), k_zero, [&] { return vf::cat(tp.str(), " size ", esize, " capacity ", cap, log); }))
          return;
        for (const Piece &y : live)
          if (!c.check(x.n == 0 || y.n == 0 || x.p + x.n <= y.p || y.p + y.n <= x.p, k_overlap, [&] { return vf::cat(tp.str(), " size ", esize, " capacity ", cap, log); }))
            return;
      }
      x.fill(++seed);
      live.push_back(x);
      resizable = true;
    } else if (op < 13) {
      Piece &x = live.back();
      size_t old = x.n / std::max<size_t>(esize, 1), cnt;
      switch (c.rng.below(6)) {
      case 0: cnt = c.rng.below(old + 1); break;
      case 1: cnt = old; break;
      case 2: cnt = old + 1; break;
      case 3: cnt = 2 * old; break;
      case 4: cnt = span + c.rng.below(3); break;
      default: cnt = old + c.rng.below(span + 2);
      }
      if (total + cnt * esize > 300000)
        continue;
      log += vf::cat(" resize", cnt);
      if (report)
        c.describe(log);
      char *p = nullptr;
      dv::Outcome o = dv::attempt([&] { p = mb->resize(x.p, cnt); });
      if (!o.ok) {
        if (report)
          c.check(false, k_refuse, [&] { return vf::cat(tp.str(), " size ", esize, log, ": ", o.msg); });
        return;
      }
      size_t keep = std::min(x.n, cnt * esize);
      x.p = p;
      x.n = cnt * esize;
      total += x.n;
      if (report) {
        if (!c.check(x.n == 0 || (uintptr_t)p % align == 0, k_align, [&] { return vf::cat(tp.str(), " size ", esize, " align ", align, " capacity ", cap, log, " gives ", (void *)p); }))
          return;
        if (!c.check(x.good(keep), k_grow, [&] { return vf::cat(tp.str(), " size ", esize, " capacity ", cap, log); }))
          return;
        if (zeroed && !c.check(zero(p + keep, x.n - keep), k_zero, [&] { return vf::cat(tp.str(), " size ", esize, " capacity ", cap, log); }))
          return;
        for (size_t i = 0; i + 1 < live.size(); ++i)
          if (!c.check(x.n == 0 || live[i].n == 0 || x.p + x.n <= live[i].p || live[i].p + live[i].n <= x.p, k_overlap, [&] { return vf::cat(tp.str(), " size ", esize, " capacity ", cap, log); }))
            return;
      }
      x.fill(++seed);
    } else if (op == 13) {
      log += " reset";
      mb->reset();
      live.clear();
      resizable = false;
      total = 0;
    } else if (op == 14) {
      if (c.rng.chance(3, 10)) {
        log += " finalize";
        mb->finalize();
        resizable = false;
      }
    } else {
      if (refs.size() < 4 && c.rng.coin())
        refs.push_back(mb);
      else if (!refs.empty()) {
        size_t i = c.rng.below(refs.size());
        if (c.rng.coin())
          mb = refs[i];
        refs.erase(refs.begin() + i);
      }
      if (report && !c.check(mb->get_use_count() == 1 + (long)refs.size(), k_count, [&] { return vf::cat(mb->get_use_count(), " for ", 1 + refs.size(), " references"); }))
        return;
    }
    if (report)
      for (const Piece &y : live)
        if (!c.check(y.good(y.n), k_keep, [&] { return vf::cat(tp.str(), " size ", esize, " align ", align, " capacity ", cap, log); }))
          return;
  }
  if (report) {
    c.saw("history", vf::hash_str(log));
    c.sample(vf::cat(tp.str(), " size ", esize, " capacity ", cap, ":", log));
  }
  if (c.rng.coin())
    mb = nd::memory_block();
}
static void plain(Ctx &c) {
  static const char *types[] = {"int8", "int16", "int32", "float64", "int128", "complex[float64]", "(int8, int16)", "{x: int32, y: int8}", "3 * int16", "fixed_bytes[6, align=2]",
                                "fixed_bytes[5]", "0 * int32", "char", "(int8, int64, int8)", "?int16", "fixed_bytes[24, align=8]", "fixed_string[7]"};
  bool zeroed = c.rng.coin(), raw = !zeroed && c.rng.coin();
  ndt::type tp(types[c.rng.below(sizeof types / sizeof *types)]);
  size_t esize = tp.get_default_data_size(), align = tp.get_data_alignment();
  if (raw) {
    align = (size_t)1 << c.rng.below(5);
    esize = c.rng.chance(7, 10) ? align * c.rng.below(6) : c.rng.below(40);
  }
  intptr_t cap = c.rng.chance(2, 10) ? 2048 : c.rng.chance(1, 10) ? 0 : (intptr_t)c.rng.below(300);
  long bal[3];
  auto rng = c.rng;
  for (int turn = 0; turn < 3; ++turn) {
    c.rng = rng;
    size_t h0 = vf::heap_bytes();
    plain_history(c, turn == 0, zeroed, tp, esize, align, cap, raw);
    bal[turn] = (long)(vf::heap_bytes() - h0);
  }
  c.check(bal[1] == 0 || bal[2] == 0, k_leak, [&] { return vf::cat(c.current, " leaves ", bal[1], " then ", bal[2], " bytes"); });
}

// Requests larger than memory are refused, and the block goes on as before
static void huge(Ctx &c) {
  static const char *types[] = {"int16", "float64", "int128", "(int8, int64, int8)", "3 * int16", "string", "(int32, string)", "fixed_bytes[24, align=8]"};
  ndt::type tp(types[c.rng.below(sizeof types / sizeof *types)]);
  size_t esize = tp.get_default_data_size();
  bool obj = (tp.get_flags() & type_flag_destructor) != 0;
  bool zeroed = obj || c.rng.coin();
  nd::memory_block mb;
  if (obj)
    mb = nd::make_memory_block<nd::objectarray_memory_block>(tp, (intptr_t)esize, (intptr_t)c.rng.below(20));
  else if (zeroed)
    mb = nd::make_memory_block<nd::zeroinit_memory_block>(tp, (intptr_t)c.rng.below(200));
  else
    mb = nd::make_memory_block<nd::pod_memory_block>(tp, (intptr_t)c.rng.below(200));
  Piece a{nullptr, 0, 0};
  if (!obj && c.rng.coin()) {
    size_t n = 1 + c.rng.below(20);
    a = {mb->alloc(n), n * esize, 0};
    a.fill(7);
  }
  Piece b{nullptr, 0, 0};
  size_t bn = 1 + c.rng.below(9);
  b = {mb->alloc(bn), bn * esize, 0};
  if (!obj)
    b.fill(9);
  size_t cnt;
  switch (c.rng.below(4)) {
  case 0: cnt = ((size_t)1 << (46 + c.rng.below(17))) + c.rng.below(100); break;
  case 1: cnt = ~(size_t)0 / esize + 1 + c.rng.below(9); break; // times the size wraps to few bytes
  case 2: cnt = ((size_t)PTRDIFF_MAX / esize) + c.rng.below(5); break;
  default: cnt = (size_t)-1 - c.rng.below(9);
  }
  bool re = c.rng.coin();
  c.describe(vf::cat(tp.str(), re ? " resize " : " alloc ", cnt));
  char *p = nullptr;
  dv::Outcome o = dv::attempt([&] { p = re ? mb->resize(b.p, cnt) : mb->alloc(cnt); });
  c.saw("refused", vf::hash_str(vf::cat(tp.str(), re, cnt)));
  if (!c.check(!o.ok, k_huge, [&] { return vf::cat(c.current, " gives memory for ", cnt, " elements of ", esize, " bytes"); }))
    return;
  c.check((a.n == 0 || a.good(a.n)) && (obj ? zero(b.p, b.n) : b.good(b.n)), k_keep, [&] { return vf::cat("after the refusal of ", c.current); });
  for (int k = 0; k < 3; ++k) {
    if (k == 2 || c.rng.chance(3, 10))
      mb->reset();
    size_t n = 1 + c.rng.below(30);
    Piece x{nullptr, n * esize, 0};
    o = dv::attempt([&] { x.p = mb->alloc(n); });
    if (!c.check(o.ok, k_refuse, [&] { return vf::cat("after the refusal of ", c.current, ": ", o.msg); }))
      return;
    if (zeroed)
      c.check(zero(x.p, x.n), k_zero, [&] { return vf::cat("after the refusal of ", c.current); });
    if (!obj)
      x.fill(11 + k), c.check(x.good(x.n), k_keep, [&] { return c.current; });
  }
}

// ---------------------------------------------------------------- elements with destructors
struct Kind {
  const char *tp;
  std::vector<size_t> strs, types, ints; // offsets
};
static const Kind kinds[] = {
    {"string", {0}, {}, {}},
    {"bytes", {0}, {}, {}},
    {"type", {}, {0}, {}},
    {"(int32, string)", {8}, {}, {0}},
    {"{s: string, i: int32}", {0}, {}, {16}},
    {"3 * string", {0, 16, 32}, {}, {}},
    {"(string, type, int32)", {0}, {16}, {24}},
    {"(bytes, int32, string)", {0, 24}, {}, {16}},
    {"2 * (int32, string)", {8, 32}, {}, {0, 24}},
    {"?string", {0}, {}, {}},
};
struct EVal {
  std::vector<std::string> s;
  std::vector<std::string> t;
  std::vector<int> i;
};
static EVal blank(const Kind &k) {
  EVal v;
  v.s.resize(k.strs.size());
  v.t.resize(k.types.size());
  v.i.resize(k.ints.size());
  return v;
}
static std::string some_text(Ctx &c) {
  size_t n = c.rng.coin() ? c.rng.below(18) : c.rng.below(60);
  std::string s;
  for (size_t i = 0; i < n; ++i)
    s += (char)('a' + c.rng.below(26));
  return s;
}
static void put(Ctx &c, const Kind &k, char *p, EVal &v) {
  for (size_t j = 0; j < k.strs.size(); ++j) {
    v.s[j] = some_text(c);
    reinterpret_cast<dynd::bytes *>(p + k.strs[j])->assign(v.s[j].data(), v.s[j].size());
  }
  for (size_t j = 0; j < k.types.size(); ++j) {
    v.t[j] = vf::cat(c.rng.below(9), " * fixed_string[", 1 + c.rng.below(9), "]");
    *reinterpret_cast<ndt::type *>(p + k.types[j]) = ndt::type(v.t[j]);
  }
  for (size_t j = 0; j < k.ints.size(); ++j)
    *reinterpret_cast<int *>(p + k.ints[j]) = v.i[j] = (int)c.rng.range(1, 1000000);
}
static bool holds(const Kind &k, const char *p, const EVal &v) {
  for (size_t j = 0; j < k.strs.size(); ++j) {
    auto b = reinterpret_cast<const dynd::bytes *>(p + k.strs[j]);
    if (std::string(b->data(), b->size()) != v.s[j])
      return false;
  }
  for (size_t j = 0; j < k.types.size(); ++j) {
    auto t = reinterpret_cast<const ndt::type *>(p + k.types[j]);
    if (v.t[j].empty() ? !zero((const char *)t, sizeof *t) : !(*t == ndt::type(v.t[j])))
      return false;
  }
  for (size_t j = 0; j < k.ints.size(); ++j)
    if (*reinterpret_cast<const int *>(p + k.ints[j]) != v.i[j])
      return false;
  return true;
}
struct Run {
  char *p;
  std::vector<EVal> v;
};
static void object_history(Ctx &c, bool report, const Kind &k, intptr_t cap) {
  ndt::type tp(k.tp);
  size_t es = tp.get_default_data_size();
  nd::memory_block mb = nd::make_memory_block<nd::objectarray_memory_block>(tp, (intptr_t)es, cap);
  nd::memory_block other;
  std::vector<Run> live;
  bool resizable = false;
  size_t total = 0;
  std::string log;
  int n = 6 + (int)c.rng.below(30);
  for (int s = 0; s < n; ++s) {
    int op = (int)c.rng.below(14);
    if (op < 7 || live.empty() || (op < 12 && !resizable)) {
      size_t cnt = c.rng.chance(3, 10) ? c.rng.below(2 * cap + 2) : c.rng.below(8);
      if (total + cnt > 600)
        continue;
      log += vf::cat(" alloc", cnt);
      if (report)
        c.describe(vf::cat(k.tp, " capacity ", cap, log));
      Run r{nullptr, std::vector<EVal>(cnt, blank(k))};
      dv::Outcome o = dv::attempt([&] { r.p = mb->alloc(cnt); });
      if (!o.ok) {
        if (report)
          c.check(false, k_refuse, [&] { return vf::cat(c.current, ": ", o.msg); });
        return;
      }
      total += cnt;
      if (report) {
        c.check(cnt == 0 || (uintptr_t)r.p % tp.get_data_alignment() == 0, k_align, [&] { return c.current; });
        if (!c.check(zero(r.p, cnt * es), k_zero, [&] { return c.current; }))
          return;
        for (Run &y : live)
          if (!c.check(cnt == 0 || y.v.empty() || r.p + cnt * es <= y.p || y.p + y.v.size() * es <= r.p, k_overlap, [&] { return c.current; }))
            return;
      }
      live.push_back(r);
      resizable = true;
    } else if (op < 12) {
      Run &r = live.back();
      size_t old = r.v.size(), cnt;
      switch (c.rng.below(4)) {
      case 0: cnt = c.rng.below(old + 1); break;
      case 1: cnt = old + 1; break;
      case 2: cnt = 2 * old; break;
      default: cnt = old + c.rng.below(cap + 3);
      }
      if (total + cnt > 600)
        continue;
      log += vf::cat(" resize", cnt);
      if (report)
        c.describe(vf::cat(k.tp, " capacity ", cap, log));
      dv::Outcome o = dv::attempt([&] { r.p = mb->resize(r.p, cnt); });
      if (!o.ok) {
        if (report)
          c.check(false, k_refuse, [&] { return vf::cat(c.current, ": ", o.msg); });
        return;
      }
      total += cnt > old ? cnt - old : 0;
      r.v.resize(cnt, blank(k));
      if (report) {
        for (size_t i = 0; i < std::min(cnt, old); ++i)
          if (!c.check(holds(k, r.p + i * es, r.v[i]), k_grow, [&] { return c.current; }))
            return;
        if (cnt > old && !c.check(zero(r.p + old * es, (cnt - old) * es), k_zero, [&] { return c.current; }))
          return;
        for (size_t i = 0; i + 1 < live.size(); ++i)
          if (!c.check(cnt == 0 || live[i].v.empty() || r.p + cnt * es <= live[i].p || live[i].p + live[i].v.size() * es <= r.p, k_overlap, [&] { return c.current; }))
            return;
      }
    } else if (op == 12) {
      log += " reset";
      if (report)
        c.describe(vf::cat(k.tp, " capacity ", cap, log));
      mb->reset();
      live.clear();
      resizable = false;
      total = 0;
    } else if (c.rng.coin()) {
      other = mb;
      mb = other;
    } else {
      log += " finalize";
      mb->finalize();
    }
    // put values in some elements, all the rest stay as they are
    for (int w = 0; w < 3 && !live.empty(); ++w) {
      Run &r = live[c.rng.below(live.size())];
      if (!r.v.empty()) {
        size_t i = c.rng.below(r.v.size());
        put(c, k, r.p + i * es, r.v[i]);
      }
    }
    if (report)
      for (Run &y : live)
        for (size_t i = 0; i < y.v.size(); ++i)
          if (!c.check(holds(k, y.p + i * es, y.v[i]), k_elem, [&] { return c.current; }))
            return;
  }
  if (report) {
    c.saw("history", vf::hash_str(vf::cat(k.tp, cap, log)));
    c.sample(vf::cat(k.tp, " capacity ", cap, ":", log));
  }
}
static void objects(Ctx &c) {
  const Kind &k = kinds[c.rng.below(sizeof kinds / sizeof *kinds)];
  intptr_t cap = c.rng.chance(2, 10) ? 64 : (intptr_t)c.rng.below(12);
  long bal[3];
  auto rng = c.rng;
  for (int turn = 0; turn < 3; ++turn) {
    c.rng = rng;
    size_t h0 = vf::heap_bytes();
    object_history(c, turn == 0, k, cap);
    bal[turn] = (long)(vf::heap_bytes() - h0);
  }
  c.check(bal[1] == 0 || bal[2] == 0, k_leak, [&] { return vf::cat(c.current, " leaves ", bal[1], " then ", bal[2], " bytes"); });
}

// ---------------------------------------------------------------- rows of arrays, whose memory comes from such blocks
static void rows_history(Ctx &c, bool report, const Kind *k, const std::string &plain_tp) {
  size_t nrow = 1 + c.rng.below(12);
  std::string et = k ? std::string(k->tp) : plain_tp;
  ndt::type tp(vf::cat(nrow, " * var * ", et));
  size_t es = ndt::type(et).get_default_data_size();
  nd::array a = nd::empty(tp);
  auto md = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(a.get()->metadata() + sizeof(ndt::fixed_dim_type::metadata_type));
  std::vector<Run> obj(nrow);
  std::vector<Piece> pl(nrow, Piece{nullptr, 0, 0});
  std::vector<char> done(nrow, 0);
  nd::array view;
  size_t viewed = (size_t)-1;
  size_t last = (size_t)-1;
  if (report)
    c.describe(tp.str());
  std::string log;
  for (size_t s = 0; s < 3 * nrow; ++s) {
    size_t r = c.rng.below(nrow);
    if (last != (size_t)-1 && c.rng.chance(3, 10))
      r = last;
    auto d = reinterpret_cast<ndt::var_dim_type::data_type *>(a.data()) + r;
    size_t cnt = c.rng.chance(2, 10) ? c.rng.below(70) : c.rng.below(9);
    if (!done[r]) {
      d->begin = md->blockref->alloc(cnt);
      d->size = cnt;
      done[r] = 1;
      last = r;
      log += vf::cat(" row", r, ":", cnt);
      if (k) {
        obj[r] = {d->begin, std::vector<EVal>(cnt, blank(*k))};
        if (report && !c.check(zero(d->begin, cnt * es), k_zero, [&] { return vf::cat(tp.str(), log); }))
          return;
      } else {
        pl[r] = {d->begin, cnt * es, 0};
        pl[r].fill((uint32_t)s + 1);
      }
    } else if (r == last && r != viewed) {
      d->begin = md->blockref->resize(d->begin, cnt);
      d->size = cnt;
      log += vf::cat(" resize", r, ":", cnt);
      if (k) {
        obj[r].p = d->begin;
        obj[r].v.resize(cnt, blank(*k));
      } else {
        size_t keep = std::min(pl[r].n, cnt * es);
        pl[r].p = d->begin;
        pl[r].n = cnt * es;
        if (report && !c.check(pl[r].good(keep), k_grow, [&] { return vf::cat(tp.str(), log); }))
          return;
        pl[r].fill((uint32_t)s + 1);
      }
    }
    if (k && !obj[r].v.empty()) {
      size_t i = c.rng.below(obj[r].v.size());
      put(c, *k, obj[r].p + i * es, obj[r].v[i]);
    }
    if (c.rng.chance(1, 10) && done[r]) {
      view = a((intptr_t)r).at(irange());
      viewed = r;
    }
    if (report)
      for (size_t q = 0; q < nrow; ++q)
        if (done[q]) {
          bool ok = k ? true : pl[q].good(pl[q].n);
          if (k)
            for (size_t i = 0; i < obj[q].v.size(); ++i)
              ok = ok && holds(*k, obj[q].p + i * es, obj[q].v[i]);
          if (!c.check(ok, k ? k_elem : k_keep, [&] { return vf::cat(tp.str(), log, " row ", q); }))
            return;
        }
  }
  if (viewed != (size_t)-1) {
    // the view keeps the rows alive
    a = nd::array();
    bool ok = k ? true : pl[viewed].good(pl[viewed].n);
    if (k)
      for (size_t i = 0; i < obj[viewed].v.size(); ++i)
        ok = ok && holds(*k, obj[viewed].p + i * es, obj[viewed].v[i]);
    if (report)
      c.check(ok, k_keep, [&] { return vf::cat("the row kept of ", tp.str()); });
  }
  if (report)
    c.saw("rows", vf::hash_str(vf::cat(tp.str(), log)));
}
static void rows(Ctx &c) {
  static const char *types[] = {"int8", "int32", "float64", "(int8, int16)", "{x: int32, y: int8}", "fixed_bytes[5]", "fixed_string[7]", "?int16"};
  const Kind *k = c.rng.coin() ? &kinds[c.rng.below(sizeof kinds / sizeof *kinds)] : nullptr;
  std::string t = types[c.rng.below(8)];
  long bal[3];
  auto rng = c.rng;
  for (int turn = 0; turn < 3; ++turn) {
    c.rng = rng;
    size_t h0 = vf::heap_bytes();
    rows_history(c, turn == 0, k, t);
    bal[turn] = (long)(vf::heap_bytes() - h0);
  }
  c.check(bal[1] == 0 || bal[2] == 0, k_leak, [&] { return vf::cat(c.current, " leaves ", bal[1], " then ", bal[2], " bytes"); });
}

// ---------------------------------------------------------------- external objects
static std::vector<int> freed;
struct Ext {
  size_t id;
  std::vector<char> data;
};
static void free_ext(void *p) {
  Ext *e = reinterpret_cast<Ext *>(p);
  ++freed[e->id];
  if (freed[e->id] == 1)
    delete e;
}
static void external(Ctx &c) {
  freed.clear();
  struct Ref {
    nd::memory_block m;
    nd::array a;
    size_t id;
  };
  std::vector<Ref> v;
  std::vector<long> nref; // references the driver holds
  std::vector<char *> base;
  std::string log;
  int n = 10 + (int)c.rng.below(40);
  auto audit = [&] {
    for (size_t i = 0; i < freed.size(); ++i) {
      bool held = false;
      for (Ref &r : v)
        held = held || r.id == i;
      if (!c.check(freed[i] == (held ? 0 : 1), k_ext, [&] { return vf::cat("history", log, " frees object ", i, " ", freed[i], " times, while it is ", held ? "" : "not ", "referred to"); }))
        return false;
    }
    return true;
  };
  for (int s = 0; s <= n; ++s) {
    size_t i = v.empty() ? 0 : c.rng.below(v.size());
    switch (v.empty() ? 0 : c.rng.below(8)) {
    case 0: {
      Ext *e = new Ext{freed.size(), std::vector<char>(64, (char)freed.size())};
      freed.push_back(0);
      base.push_back(e->data.data());
      Ref r{nd::memory_block(new nd::external_memory_block(e, &free_ext), false), nd::array(), e->id};
      v.push_back(r);
      log += vf::cat(" new", e->id);
      break;
    }
    case 1: case 2: {
      Ref r = v[i];
      v.push_back(r);
      log += vf::cat(" copy", v[i].id);
      break;
    }
    case 3: { // an array in the external memory
      if (!v[i].m)
        break;
      ndt::type tp("8 * int64");
      nd::array a = nd::make_array(tp, base[v[i].id], v[i].m, nd::readwrite_access_flags);
      tp->arrmeta_default_construct(a->metadata(), false);
      size_t id = v[i].id;
      v.push_back({nd::memory_block(), a, id});
      log += vf::cat(" array", id);
      break;
    }
    case 4: { // a view of such an array
      if (v[i].a.is_null() || v[i].a.get_ndim() == 0)
        break;
      size_t id = v[i].id;
      nd::array b = v[i].a((intptr_t)c.rng.below(8));
      v.push_back({nd::memory_block(), b, id});
      log += vf::cat(" view", id);
      break;
    }
    case 5: { // assignment over another
      size_t j = c.rng.below(v.size());
      log += vf::cat(" assign", v[i].id, "=", v[j].id);
      v[i] = v[j];
      break;
    }
    default:
      log += vf::cat(" drop", v[i].id);
      v.erase(v.begin() + i);
    }
    c.describe(log);
    if (!audit())
      return;
  }
  while (!v.empty()) {
    v.erase(v.begin() + c.rng.below(v.size()));
    if (!audit())
      return;
  }
  c.saw("history", vf::hash_str(log));
}

// ---------------------------------------------------------------- mapped files, in a scratch directory of the driver's own
static size_t open_files() {
  size_t n = 0;
  if (DIR *d = opendir("/proc/self/fd")) {
    while (readdir(d))
      ++n;
    closedir(d);
  }
  return n;
}
static bool mapped(const std::string &name) {
  std::ifstream f("/proc/self/maps");
  std::string l;
  while (std::getline(f, l))
    if (l.size() >= name.size() && l.compare(l.size() - name.size(), name.size(), name) == 0)
      return true;
  return false;
}
static void mapping(Ctx &c) {
  char dir[] = "/tmp/vf_m01_XXXXXX";
  if (!mkdtemp(dir))
    return;
  std::string file = std::string(dir) + "/data";
  long page = sysconf(_SC_PAGE_SIZE);
  size_t len = c.rng.chance(1, 10) ? 0 : c.rng.coin() ? c.rng.below(300) : (size_t)(page * (1 + c.rng.below(3)) + c.rng.range(-3, 3));
  std::string text;
  for (size_t i = 0; i < len; ++i)
    text += (char)c.rng.next();
  std::ofstream(file, std::ios::binary) << text;
  size_t fd0 = open_files();
  for (int t = 0; t < 8; ++t) {
    auto bound = [&]() -> intptr_t {
      switch (c.rng.below(5)) {
      case 0: return (intptr_t)c.rng.range(-(int64_t)len - 3, (int64_t)len + 3);
      case 1: return (intptr_t)(page * (1 + c.rng.below(2)) + c.rng.range(-1, 1)) * (c.rng.coin() ? 1 : -1);
      case 2: return (intptr_t)c.rng.range(-2, 2);
      case 3: return c.rng.coin() ? std::numeric_limits<intptr_t>::max() : std::numeric_limits<intptr_t>::min();
      default: return (intptr_t)len + (intptr_t)c.rng.range(-2, 2);
      }
    };
    intptr_t b = bound(), e = bound();
    int form = (int)c.rng.below(3);
    if (form == 0)
      b = 0, e = std::numeric_limits<intptr_t>::max();
    if (form == 1)
      e = std::numeric_limits<intptr_t>::max();
    // the meaning of text[b:e] in Python
    __int128 B = b, E = e, L = (__int128)len;
    if (B < 0)
      B = B + L < 0 ? 0 : B + L;
    B = B > L ? L : B;
    if (E < 0)
      E = E + L < 0 ? 0 : E + L;
    E = E > L ? L : E;
    std::string want = B < E ? text.substr((size_t)B, (size_t)(E - B)) : std::string();
    c.describe(vf::cat("file of ", len, " bytes [", b, ":", e, "]"));
    char *p = nullptr;
    intptr_t n = -1;
    {
      nd::memory_block mb, copy;
      dv::Outcome o = dv::attempt([&] { mb = nd::memory_block(form == 0 ? new nd::memmap_memory_block(file, nd::read_access_flag, &p, &n)
                                                       : form == 1 ? new nd::memmap_memory_block(file, nd::read_access_flag, &p, &n, b)
                                                                   : new nd::memmap_memory_block(file, nd::read_access_flag, &p, &n, b, e), false); });
      if (!o.ok) {
        // an empty mapping does not exist
        c.check(want.empty(), k_map, [&] { return vf::cat(c.current, " throws ", o.msg); });
      } else {
        if (c.rng.coin()) {
          copy = mb;
          mb = nd::memory_block();
        }
        c.check(n == (intptr_t)want.size() && std::string(p, (size_t)n) == want, k_map, [&] { return vf::cat(c.current, " gives ", n, " bytes instead of ", want.size(), " or other bytes"); });
        c.saw("mapped", vf::hash_str(c.current));
      }
    }
    c.check(!mapped(file) && open_files() == fd0, k_mapleak, [&] { return vf::cat("after ", c.current); });
  }
  char *p = nullptr;
  intptr_t n = 0;
  dv::Outcome o = dv::attempt([&] { nd::memory_block mb(new nd::memmap_memory_block(file + ".none", nd::read_access_flag, &p, &n), false); });
  c.check(!o.ok && open_files() == fd0, k_map, [&] { return "mapping a file that does not exist"; });
  unlink(file.c_str());
  rmdir(dir);
}

// ---------------------------------------------------------------- byte strings
template <int Pad>
static void strings_history(Ctx &c, bool report) {
  typedef sso_bytestring<Pad> B;
  struct S : B {
    using B::B;
  };
  struct Item {
    std::unique_ptr<B> b;
    std::string want;
    size_t kept; // bytes of which the value is defined (growing leaves the rest open)
  };
  std::vector<Item> v;
  std::string log;
  int n = 10 + (int)c.rng.below(50);
  for (int s = 0; s < n; ++s) {
    size_t i = v.empty() ? 0 : c.rng.below(v.size()), j = v.empty() ? 0 : c.rng.below(v.size());
    std::string t;
    size_t len = c.rng.coin() ? 13 + c.rng.below(5) : c.rng.chance(3, 10) ? c.rng.below(120) : c.rng.below(20);
    for (size_t q = 0; q < len; ++q)
      t += c.rng.chance(1, 10) ? '\0' : (char)c.rng.below(256);
    switch (v.size() < 2 ? 0 : c.rng.below(15)) {
    case 0:
      log += vf::cat(" new", len);
      v.push_back({std::unique_ptr<B>(new B(t.data(), t.size())), t, 0});
      break;
    case 1:
      log += vf::cat(" copy", i);
      v.push_back({std::unique_ptr<B>(new B(*v[i].b)), v[i].want, 0});
      break;
    case 2:
      log += vf::cat(" move", i);
      v.push_back({std::unique_ptr<B>(new B(std::move(*v[i].b))), v[i].want, 0});
      v[i].want.clear();
      break;
    case 3: case 4:
      log += vf::cat(" assign", i, ":", len);
      v[i].b->assign(t.data(), t.size());
      v[i].want = t;
      break;
    case 5:
      log += vf::cat(" ", i, "=", j);
      *v[i].b = *v[j].b;
      v[i].want = v[j].want;
      break;
    case 6:
      if (i == j)
        break;
      log += vf::cat(" ", i, "=move", j);
      *v[i].b = std::move(*v[j].b);
      v[i].want = v[j].want;
      v[j].want.clear();
      break;
    case 7: case 8:
      log += vf::cat(" append", i, ":", len);
      v[i].b->append(t.data(), t.size());
      v[i].want += t;
      break;
    case 9: { // part of itself or of another
      size_t b = c.rng.below(v[j].want.size() + 1), m = c.rng.below(v[j].want.size() - b + 1);
      std::string part = v[j].want.substr(b, m);
      if (c.rng.coin()) {
        log += vf::cat(" append", i, "<-", j, "[", b, ",", m, "]");
        v[i].b->append(v[j].b->data() + b, m);
        v[i].want += part;
      } else {
        log += vf::cat(" assign", i, "<-", j, "[", b, ",", m, "]");
        v[i].b->assign(v[j].b->data() + b, m);
        v[i].want = part;
      }
      break;
    }
    case 10:
      log += vf::cat(" clear", i);
      v[i].b->clear();
      v[i].want.clear();
      break;
    case 11: {
      size_t cap = c.rng.below(100);
      log += vf::cat(" reserve", i, ":", cap);
      v[i].b->reserve(cap);
      if (report && !c.check(v[i].b->capacity() >= cap, k_strsize, [&] { return vf::cat(log, " leaves capacity ", v[i].b->capacity()); }))
        return;
      break;
    }
    case 12: { // growing leaves the new bytes open, so they are written at once
      size_t m = c.rng.coin() ? c.rng.below(40) : 12 + c.rng.below(6), old = v[i].want.size();
      log += vf::cat(" resize", i, ":", m);
      if (c.rng.coin())
        v[i].b->resize(m);
      else
        v[i].b->resize_grow(m);
      if (report && !c.check(v[i].b->size() == m && v[i].b->capacity() >= m, k_strsize, [&] { return vf::cat(log, " leaves size ", v[i].b->size()); }))
        return;
      if (v[i].b->size() != m)
        return;
      v[i].want.resize(m);
      for (size_t q = old; q < m; ++q)
        v[i].b->data()[q] = v[i].want[q] = (char)(q * 7 + 1);
      break;
    }
    case 13:
      if (!v[i].want.empty()) {
        size_t q = c.rng.below(v[i].want.size());
        v[i].b->data()[q] = v[i].want[q] = (char)c.rng.below(256);
      }
      break;
    default:
      log += vf::cat(" drop", i);
      v.erase(v.begin() + i);
    }
    if (report) {
      c.describe(vf::cat("padding ", Pad, ":", log));
      for (size_t q = 0; q < v.size(); ++q) {
        const B &b = *v[q].b;
        if (!c.check(b.size() == v[q].want.size() && b.capacity() >= b.size() && (size_t)(b.end() - b.begin()) == b.size() && b.empty() == v[q].want.empty(), k_strsize, [&] { return vf::cat(c.current, " leaves string ", q, " with size ", b.size(), " capacity ", b.capacity(), " instead of ", v[q].want.size()); }))
          return;
        if (!c.check(memcmp(b.data(), v[q].want.data(), b.size()) == 0 && (!Pad || b.data()[b.size()] == 0), k_str, [&] { return vf::cat(c.current, " leaves string ", q, " as ", vf::hex(b.data(), b.size()), " instead of ", vf::hex(v[q].want.data(), v[q].want.size())); }))
          return;
      }
      if (v.size() > 1) {
        size_t p = c.rng.below(v.size()), q = c.rng.below(v.size());
        bool eq = *v[p].b == *v[q].b, ne = *v[p].b != *v[q].b, want = v[p].want == v[q].want;
        c.check(eq == want && ne == !want, k_str, [&] { return vf::cat(c.current, " compares ", p, " and ", q, " as ", eq ? "equal" : "unequal"); });
      }
    }
  }
  if (report)
    c.saw("history", vf::hash_str(log));
}
static void strings(Ctx &c) {
  bool pad = c.rng.coin();
  long bal[3];
  auto rng = c.rng;
  for (int turn = 0; turn < 3; ++turn) {
    c.rng = rng;
    size_t h0 = vf::heap_bytes();
    if (pad)
      strings_history<1>(c, turn == 0);
    else
      strings_history<0>(c, turn == 0);
    bal[turn] = (long)(vf::heap_bytes() - h0);
  }
  c.check(bal[1] == 0 || bal[2] == 0, k_leak, [&] { return vf::cat(c.current, " leaves ", bal[1], " then ", bal[2], " bytes"); });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "M01", "every piece a memory block hands out is aligned, its own, zeroed where promised, kept until released, and everything is freed and destroyed once",
                 {{"plain", 6000, 200000, plain, false},
                  {"huge", 1500, 20000, huge, false},
                  {"objects", 3000, 100000, objects, false},
                  {"rows", 1500, 60000, rows, false},
                  {"external", 1500, 40000, external, false},
                  {"mapping", 200, 4000, mapping, false},
                  {"strings", 4000, 150000, strings, false}});
}
