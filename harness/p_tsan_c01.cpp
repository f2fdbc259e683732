// C01: threads started together, each running its own program over shared types, arrays and callables and over data of its
// own, in a ThreadSanitizer build. Every result is compared with what the same program gives alone afterwards; references
// are counted at the end; reports of ThreadSanitizer are violations.
#include "dv.hpp"
#include "typegen.hpp"
#include <atomic>
#include <sstream>
#include <thread>
#include <sys/wait.h>
#include <unistd.h>
#include <dynd/arithmetic.hpp>
#include <dynd/array_range.hpp>
#include <dynd/assignment.hpp>
#include <dynd/callable.hpp>
#include <dynd/comparison.hpp>
#include <dynd/functional.hpp>
#include <dynd/index.hpp>
#include <dynd/io.hpp>
#include <dynd/json_formatter.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/limits.hpp>
#include <dynd/math.hpp>
#include <dynd/memblock/external_memory_block.hpp>
#include <dynd/option.hpp>
#include <dynd/random.hpp>
#include <dynd/range.hpp>
#include <dynd/registry.hpp>
#include <dynd/sort.hpp>
#include <dynd/statistics.hpp>
#include <dynd/string.hpp>
#include <dynd/string_search.hpp>
using namespace dynd;
using vf::Ctx;

static const char *k_result = "a thread does not get the result it gets alone";
static const char *k_freed = "a shared object is not freed exactly once, when the last reference of any thread is dropped";
static const char *k_count = "the reference count of a shared object is wrong once all threads are done";
static const char *k_died = "the process dies while threads share objects";
static const char *k_changed = "reading a shared array changes it";

// ---------------------------------------------------------------- reports
extern "C" {
int __tsan_get_report_data(void *report, const char **description, int *count, int *stack_count, int *mop_count, int *loc_count, int *mutex_count,
                           int *thread_count, int *unique_tid_count, void **sleep_trace, unsigned long trace_size);
int __tsan_get_report_mop(void *report, unsigned long idx, int *tid, void **addr, int *size, int *write, int *atomic, void **trace, unsigned long trace_size);
void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out, unsigned long size);
}
struct Report {
  char kind[40];
  void *trace[2][48];
};
static Report reports[64];
static std::atomic<int> nreport{0};
extern "C" void __tsan_on_report(void *r) {
  int k = nreport.load(std::memory_order_relaxed);
  if (k >= 64)
    return;
  const char *d = "";
  int n, stacks, mops, locs, mutexes, threads, tids;
  void *sleep[1];
  __tsan_get_report_data(r, &d, &n, &stacks, &mops, &locs, &mutexes, &threads, &tids, sleep, 1);
  snprintf(reports[k].kind, sizeof reports[k].kind, "%s", d);
  for (int m = 0; m < 2; ++m) {
    reports[k].trace[m][0] = nullptr;
    if (m < mops) {
      int tid, size, write, atomic;
      void *addr;
      __tsan_get_report_mop(r, (unsigned long)m, &tid, &addr, &size, &write, &atomic, reports[k].trace[m], 48);
    }
  }
  nreport.store(k + 1, std::memory_order_release);
}
// The first frames of a trace that lie in the library
static std::string frames(void **t, int want) {
  std::string s;
  int got = 0;
  for (int i = 0; i < 48 && t[i] && got < want; ++i) {
    char b[900];
    __sanitizer_symbolize_pc(t[i], "%f %S", b, sizeof b);
    std::string f = b;
    if (f.find("dynd") == std::string::npos)
      continue;
    size_t p = f.find("/include/dynd/");
    if (p == std::string::npos)
      p = f.find("/src/dynd/");
    std::string fn = f.substr(0, f.find_first_of("(< "));
    s += (got++ ? " < " : "") + fn + (p == std::string::npos ? "" : " in " + f.substr(p + 1));
  }
  return s;
}
struct Found {
  std::string key, detail;
};
static std::vector<Found> take_reports() {
  std::vector<Found> out;
  int n = nreport.load(std::memory_order_acquire);
  for (int k = 0; k < n; ++k) {
    std::string a = frames(reports[k].trace[0], 1);
    a = a.substr(0, a.find(" in "));
    out.push_back({vf::cat("threads: ", reports[k].kind, ": ", a.substr(0, 120)),
                   vf::cat(reports[k].kind, " between ", frames(reports[k].trace[0], 5), " and ", frames(reports[k].trace[1], 5))});
  }
  nreport.store(0);
  return out;
}

// ---------------------------------------------------------------- what threads share
static std::atomic<int> ext_freed{0}, token_live{0};
static void free_ext(void *p) {
  ++ext_freed;
  free(p);
}
struct Token {
  int k;
  Token(int k) : k(k) { ++token_live; }
  Token(const Token &o) : k(o.k) { ++token_live; }
  ~Token() { --token_live; }
  int operator()(int a, int b) const { return a * k + b; }
};
struct Shared {
  std::vector<ndt::type> t;
  std::vector<nd::array> a;
  std::vector<nd::callable> f;
};
static nd::array ints(vf::Rng &r, size_t n) {
  nd::array a = nd::empty(ndt::type(vf::cat(n, " * int32")));
  for (size_t i = 0; i < n; ++i)
    reinterpret_cast<int *>(a.data())[i] = (int)r.range(-50, 50);
  return a;
}
static nd::array doubles(vf::Rng &r, size_t n) {
  nd::array a = nd::empty(ndt::type(vf::cat(n, " * float64")));
  for (size_t i = 0; i < n; ++i)
    reinterpret_cast<double *>(a.data())[i] = (double)r.range(-500, 500) / 4;
  return a;
}
static std::string out(const nd::array &a) {
  return vf::cat(a.get_type().str(), " ", dv::show(dv::read(a)));
}
static std::string word(vf::Rng &r, size_t most) {
  std::string s;
  size_t n = r.below(most + 1);
  for (size_t i = 0; i < n; ++i)
    s += (char)('a' + r.below(4));
  return s;
}
static void build(vf::Rng &r, Shared &s) {
  static const char *tps[] = {"int32", "3 * float64", "var * {x: int32, y: string}", "?int64", "(int8, 2 * string)", "(int32, float64) -> float64", "pointer[int32]", "Fixed * M * T",
                              "fixed_string[9, 'utf16']", "type"};
  for (const char *t : tps)
    if (r.coin())
      s.t.push_back(ndt::type(t));
  s.t.push_back(ndt::type(tg::spell(tg::gen(r, 3, tg::GenOpts()), r, 0)));
  s.a.push_back(ints(r, 1 + r.below(9)));
  s.a.push_back(doubles(r, 1 + r.below(9)));
  s.a.push_back(parse_json(ndt::type("3 * {x: int32, y: string}"), nd::array("[{\"x\":1,\"y\":\"one\"},[2,\"a string longer than a small one\"],{\"y\":\"\",\"x\":3}]"), &eval::default_eval_context));
  s.a.push_back(parse_json(ndt::type("var * var * int16"), nd::array("[[1,2,3],[],[4,5]]"), &eval::default_eval_context));
  s.a.push_back(parse_json(ndt::type("4 * ?float64"), nd::array("[1.5,null,2.5,null]"), &eval::default_eval_context));
  {
    char *p = (char *)malloc(64);
    for (int i = 0; i < 8; ++i)
      reinterpret_cast<int64_t *>(p)[i] = i * i;
    ndt::type tp("8 * int64");
    nd::memory_block mb(new nd::external_memory_block(p, &free_ext), false);
    nd::array a = nd::make_array(tp, p, mb, nd::readwrite_access_flags);
    tp->arrmeta_default_construct(a->metadata(), false);
    s.a.push_back(a);
  }
  s.f.push_back(nd::functional::apply(Token((int)r.range(-5, 5))));
  s.f.push_back(nd::functional::elwise(s.f[0]));
  s.f.push_back(nd::functional::apply([](double x) { return x * 0.5; }));
  s.f.push_back(nd::functional::elwise(nd::functional::apply([](int x) -> int64_t {
    if (x == 49)
      throw std::runtime_error("forty-nine");
    return (int64_t)x * x;
  })));
  s.f.push_back(nd::functional::reduction([] { return int64_t(17); }, [](const return_wrapper<int64_t> &w, int64_t x) { w += x * 3; }));
  s.f.push_back(nd::functional::compose(nd::functional::apply([](int x) { return x + 7; }), nd::functional::apply([](int x) { return x * 5; }), ndt::make_type<int>()));
  s.f.push_back(nd::functional::outer([](int x, int y) { return x - y; }));
  s.f.push_back(nd::functional::where([](int x) { return x < 11; }));
}

// ---------------------------------------------------------------- what they do
typedef std::string (*Op)(vf::Rng &, Shared &);
struct Named {
  const char *name;
  Op op;
  bool shares() const { return *name != '!'; } // a name marked with ! needs nothing shared
};
static const Named ops[] = {
    {"!parse a type", [](vf::Rng &r, Shared &) { return ndt::type(tg::spell(tg::gen(r, 3, tg::GenOpts()), r, 1)).str(); }},
    {"!parse a named type", [](vf::Rng &r, Shared &) {
       static const char *n[] = {"intptr", "uintptr", "size", "int", "real", "complex[float32]", "int128", "float16", "bytes", "Dims... * T", "Any", "Scalar"};
       return ndt::type(n[r.below(12)]).str();
     }},
    {"!refuse a type", [](vf::Rng &r, Shared &) { return std::string(ndt::type(vf::cat(r.below(9), " * {x: int3", r.below(9), "}")).str()); }},
    {"copy types", [](vf::Rng &r, Shared &s) {
       std::vector<ndt::type> v;
       std::string o;
       for (int i = 0; i < 20; ++i) {
         v.push_back(s.t[r.below(s.t.size())]);
         if (r.coin())
           v.erase(v.begin() + r.below(v.size()));
         if (!v.empty())
           o += vf::cat((int)v.back().get_id(), ",");
       }
       return o;
     }},
    {"print and compare types", [](vf::Rng &r, Shared &s) {
       const ndt::type &a = s.t[r.below(s.t.size())], &b = s.t[r.below(s.t.size())];
       std::ostringstream o;
       o << a << (a == b) << a.get_canonical_type() << a.get_ndim() << a.is_symbolic();
       return o.str();
     }},
    {"make types from types", [](vf::Rng &r, Shared &s) {
       const ndt::type &a = s.t[r.below(s.t.size())];
       ndt::type f = ndt::make_fixed_dim(r.below(4), a);
       ndt::type t = ndt::make_type<ndt::tuple_type>({f, s.t[r.below(s.t.size())]});
       return t.str();
     }},
    {"match types", [](vf::Rng &r, Shared &s) {
       static const ndt::type pat("Fixed * M * T"), pat2("{x: T, y: T}"), pat3("Dims... * float64");
       std::map<std::string, ndt::type> tv;
       const ndt::type &p = r.coin() ? pat : r.coin() ? pat2 : pat3;
       bool m = p.match(s.t[r.below(s.t.size())], tv);
       std::string o = m ? "yes" : "no";
       if (m)
         for (auto &kv : tv)
           o += kv.first + "=" + kv.second.str();
       return o;
     }},
    {"copy arrays", [](vf::Rng &r, Shared &s) {
       std::vector<nd::array> v;
       for (int i = 0; i < 20; ++i) {
         v.push_back(s.a[r.below(s.a.size())]);
         if (r.coin())
           v.erase(v.begin() + r.below(v.size()));
       }
       return v.empty() ? std::string() : out(v.back());
     }},
    {"read arrays", [](vf::Rng &r, Shared &s) { return out(s.a[r.below(s.a.size())]); }},
    {"print arrays", [](vf::Rng &r, Shared &s) {
       std::ostringstream o;
       o << s.a[r.below(s.a.size())];
       return o.str();
     }},
    {"view arrays", [](vf::Rng &r, Shared &s) {
       const nd::array &a = s.a[r.below(2)];
       intptr_t n = a.get_dim_size();
       nd::array b = a((intptr_t)r.below(n));
       nd::array c = a(irange((intptr_t)r.below(n), n));
       return out(b) + out(c);
     }},
    {"view fields", [](vf::Rng &r, Shared &s) { return out(s.a[2]((intptr_t)r.below(3)).p(r.coin() ? "x" : "y")); }},
    {"copy the values", [](vf::Rng &r, Shared &s) { return out(s.a[r.below(s.a.size())].eval_copy()); }},
    {"format JSON", [](vf::Rng &r, Shared &s) { return format_json(s.a[r.below(s.a.size())], r.coin()).as<std::string>(); }},
    {"!parse JSON", [](vf::Rng &r, Shared &) {
       std::string t = vf::cat("[{\"x\":", r.range(-9, 9), ",\"y\":\"", word(r, 30), "\"},[", r.range(-9, 9), ",\"\\u00e9\"]]");
       return out(parse_json(ndt::type("var * {x: int32, y: string}"), nd::array(t), &eval::default_eval_context));
     }},
    {"!refuse JSON", [](vf::Rng &r, Shared &) { return out(parse_json(ndt::type("2 * int32"), nd::array(vf::cat("[1,", r.below(9), ",3]")), &eval::default_eval_context)); }},
    {"!add", [](vf::Rng &r, Shared &) {
       size_t n = 1 + r.below(9);
       return out(ints(r, n) + doubles(r, n));
     }},
    {"arithmetic with a shared array", [](vf::Rng &r, Shared &s) { return out(s.a[r.below(2)] * (int)r.range(-3, 3) - s.a[5](0)); }},
    {"options", [](vf::Rng &, Shared &s) { return out(nd::is_na(s.a[4])) + out(s.a[4] + 1.0); }},
    {"sum", [](vf::Rng &r, Shared &s) { return out(nd::sum(r.coin() ? s.a[1] : s.a[5])); }},
    {"!max", [](vf::Rng &r, Shared &) { return out(nd::max(ints(r, 1 + r.below(9)))); }},
    {"call a shared function", [](vf::Rng &r, Shared &s) { return out(s.f[0]((int)r.range(-9, 9), (int)r.range(-9, 9))); }},
    {"call a shared lifted function", [](vf::Rng &r, Shared &s) {
       size_t n = 1 + r.below(9);
       return out(s.f[1](ints(r, n), ints(r, n)));
     }},
    {"call a shared function that may throw", [](vf::Rng &r, Shared &s) { return out(s.f[3](ints(r, 1 + r.below(40)))); }},
    {"call a shared reduction", [](vf::Rng &, Shared &s) { return out(s.f[4](s.a[5])); }},
    {"call a shared composition", [](vf::Rng &r, Shared &s) { return out(s.f[5]((int)r.range(-9, 9))); }},
    {"call a shared outer product", [](vf::Rng &r, Shared &s) { return out(s.f[6](ints(r, 1 + r.below(4)), s.a[0])); }},
    {"call a shared condition", [](vf::Rng &, Shared &s) { return out(s.f[7](s.a[0])); }},
    {"!take", [](vf::Rng &r, Shared &) {
       size_t n = 1 + r.below(9);
       nd::array m = nd::empty(ndt::type(vf::cat(n, " * bool")));
       for (size_t i = 0; i < n; ++i)
         m.data()[i] = (char)r.below(2);
       return out(nd::take(ints(r, n), m));
     }},
    {"copy callables", [](vf::Rng &r, Shared &s) {
       std::vector<nd::callable> v;
       for (int i = 0; i < 12; ++i) {
         v.push_back(s.f[r.below(s.f.size())]);
         if (r.coin())
           v.erase(v.begin() + r.below(v.size()));
       }
       return v.empty() ? std::string() : v.back()->get_type().str();
     }},
    {"lift a callable", [](vf::Rng &r, Shared &s) {
       nd::callable f = nd::functional::elwise(s.f[2]);
       return out(f(doubles(r, 1 + r.below(9))));
     }},
    {"!make a callable", [](vf::Rng &r, Shared &) {
       int k = (int)r.range(-9, 9);
       nd::callable f = nd::functional::elwise(nd::functional::apply([k](int x) { return x + k; }));
       return out(f(ints(r, 1 + r.below(9))));
     }},
    {"call with no match", [](vf::Rng &, Shared &s) { return out(s.f[0](1, 2, 3)); }},
    {"!compare", [](vf::Rng &r, Shared &) {
       size_t n = 1 + r.below(9);
       nd::array a = ints(r, n), b = ints(r, n);
       return out(a < b) + out(nd::equal(a, b));
     }},
    {"!functions", [](vf::Rng &r, Shared &) { return out(nd::sqrt(nd::array((double)r.below(100)))) + out(nd::pow(nd::array(2.0), nd::array((double)r.below(9)))); }},
    {"assign", [](vf::Rng &r, Shared &s) {
       static const char *t[] = {"int64", "float32", "float64", "complex[float64]", "int128"};
       const nd::array &a = s.a[0];
       nd::array b = nd::empty(ndt::type(vf::cat(a.get_dim_size(), " * ", t[r.below(5)])));
       b.vals() = a;
       return out(b);
     }},
    {"!assign out of range", [](vf::Rng &r, Shared &) {
       nd::array b = nd::empty(ndt::type("uint8"));
       b.vals() = (int)r.range(-300, 300);
       return out(b);
     }},
    {"!parse numbers", [](vf::Rng &r, Shared &) {
       nd::array b = nd::empty(ndt::type(r.coin() ? "int32" : "float64"));
       b.vals() = nd::array(vf::cat(r.range(-99, 99)));
       return out(b);
     }},
    {"concatenate", [](vf::Rng &r, Shared &s) { return out(nd::concatenate(s.a[0], ints(r, 1 + r.below(5)))); }},
    {"!sort", [](vf::Rng &r, Shared &) {
       nd::array a = ints(r, 1 + r.below(20));
       nd::sort(a);
       return out(a);
     }},
    {"!strings", [](vf::Rng &r, Shared &) {
       dynd::string a = nd::array(word(r, 40)).as<dynd::string>(), b = nd::array(word(r, 2)).as<dynd::string>(), d;
       string_replace(d, a, b, a);
       return std::string(d.begin(), d.end()) + vf::cat(string_find(a, b));
     }},
    {"!random numbers", [](vf::Rng &r, Shared &) {
       int b = (int)r.below(90);
       nd::array a = nd::random::uniform({}, {{"a", -b}, {"b", b}, {"dst_tp", ndt::type("20 * int32")}});
       for (int i = 0; i < 20; ++i)
         if (reinterpret_cast<int *>(a.data())[i] < -b || reinterpret_cast<int *>(a.data())[i] > b)
           return std::string("outside");
       return std::string("inside");
     }},
    {"!ranges", [](vf::Rng &r, Shared &) { int b = (int)r.below(5), e = (int)(5 + r.below(9)), s = 1; return out(nd::old_range(ndt::make_type<int>(), &b, &e, &s)); }},
    {"!limits", [](vf::Rng &r, Shared &) { return out(nd::limits::max({}, {{"dst_tp", ndt::type(r.coin() ? "int16" : "float64")}})); }},
    {"!look functions up", [](vf::Rng &r, Shared &) {
       static const char *n[] = {"add", "sum", "pow", "is_na", "take"};
       return registered().find("dynd")->second.find("nd")->second.find(n[r.below(5)])->second.value()->get_type().str();
     }},
    {"!serialize", [](vf::Rng &r, Shared &) { return out(nd::serialize(ints(r, 3))); }},
    {"compare arrays exactly", [](vf::Rng &r, Shared &s) {
       const nd::array &a = s.a[r.below(s.a.size())];
       return vf::cat(a.equals_exact(s.a[r.below(s.a.size())]), a.get_flags(), a.is_null());
     }},
};
static const size_t nops = sizeof ops / sizeof *ops;

static std::string run_op(const Named &o, vf::Rng r, Shared &s) {
  std::string v;
  dv::Outcome oc = dv::attempt([&] { v = o.op(r, s); });
  return oc.ok ? v : vf::cat("throws ", oc.cls, ": ", oc.msg);
}

struct Step {
  size_t op;
  vf::Rng rng;
};
static void gate(std::atomic<int> &waiting, int n) {
  ++waiting;
  while (waiting.load() < n)
    std::this_thread::yield();
}
// Lets the other threads in at a random point
static void pause(vf::Rng &y) {
  switch (y.below(4)) {
  case 0: std::this_thread::yield(); break;
  case 1: {
    volatile int sink = 0;
    for (int i = (int)y.below(400); i > 0; --i)
      sink = sink + i;
    break;
  }
  default:;
  }
}
static std::string describe(const std::vector<std::vector<Step>> &prog) {
  std::string s;
  for (size_t t = 0; t < prog.size(); ++t) {
    s += vf::cat(" thread ", t, ":");
    for (const Step &x : prog[t])
      s += vf::cat(" ", ops[x.op].name, ";");
  }
  return s;
}

// One round: threads over shared objects. Returns what went wrong. Nothing of the library is called before the threads start but what
// the shared objects need.
static std::vector<Found> round(vf::Rng rng, std::string &what, std::vector<std::string> *seen, bool few) {
  std::vector<Found> bad;
  ext_freed = 0;
  token_live = 0;
  int nt = 2 + (int)rng.below(3);
  std::unique_ptr<Shared> s(new Shared);
  vf::Rng rb = rng;
  rb.next();
  if (!few)
    build(rb, *s);
  std::vector<size_t> may;
  for (size_t i = 0; i < nops; ++i)
    if (!few || !ops[i].shares())
      may.push_back(i);
  std::vector<std::vector<Step>> prog(nt);
  size_t favourite = may[rng.below(may.size())]; // two threads meet in the same function more often
  for (auto &p : prog) {
    int n = few ? 1 + (int)rng.below(3) : 4 + (int)rng.below(10);
    for (int i = 0; i < n; ++i) {
      size_t op = rng.chance(1, 3) || (few && i == 0) ? favourite : may[rng.below(may.size())];
      vf::Rng x = rng;
      rng.next();
      rng.next();
      p.push_back({op, x});
    }
  }
  what = describe(prog);
  std::vector<std::vector<std::string>> got(nt);
  std::vector<long> uses;
  for (auto &t : s->t)
    uses.push_back(t.is_builtin() ? 0 : t.use_count());
  for (auto &a : s->a)
    uses.push_back(a.get()->get_use_count());
  for (auto &f : s->f)
    uses.push_back(f.use_count());
  std::vector<std::string> before;
  if (!few)
    for (auto &a : s->a)
      before.push_back(out(a));
  {
    std::atomic<int> waiting{0};
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
        vf::Rng y = prog[t][0].rng;
        gate(waiting, nt);
        for (const Step &x : prog[t]) {
          got[t].push_back(run_op(ops[x.op], x.rng, *s));
          pause(y);
        }
      });
    for (auto &x : th)
      x.join();
  }
  // alone
  for (int t = 0; t < nt; ++t)
    for (size_t i = 0; i < prog[t].size(); ++i) {
      std::string w = run_op(ops[prog[t][i].op], prog[t][i].rng, *s);
      if (seen)
        seen->push_back(vf::cat(ops[prog[t][i].op].name, "|", w));
      if (w != got[t][i])
        bad.push_back({k_result, vf::cat("thread ", t, " of", what, " gets from '", ops[prog[t][i].op].name, "' ", got[t][i], " instead of ", w)});
    }
  size_t u = 0;
  for (auto &t : s->t) {
    if (!t.is_builtin() && t.use_count() != uses[u])
      bad.push_back({k_count, vf::cat("after", what, " the type ", t.str(), " has ", t.use_count(), " references instead of ", uses[u])});
    ++u;
  }
  for (auto &a : s->a) {
    if (a.get()->get_use_count() != uses[u])
      bad.push_back({k_count, vf::cat("after", what, " the array of ", a.get_type().str(), " has ", a.get()->get_use_count(), " references instead of ", uses[u])});
    ++u;
  }
  for (auto &f : s->f) {
    if (f.use_count() != uses[u])
      bad.push_back({k_count, vf::cat("after", what, " a callable has ", f.use_count(), " references instead of ", uses[u])});
    ++u;
  }
  for (size_t i = 0; i < before.size(); ++i)
    if (out(s->a[i]) != before[i])
      bad.push_back({k_changed, vf::cat("after", what, " an array is ", out(s->a[i]), " and was ", before[i])});
  // the last references are dropped by the threads
  if (!few) {
    std::atomic<int> waiting{0};
    std::vector<std::unique_ptr<Shared>> own;
    for (int t = 0; t < nt; ++t)
      own.emplace_back(new Shared(*s));
    s.reset();
    if (ext_freed != 0 || token_live == 0)
      bad.push_back({k_freed, "an object is freed while threads refer to it"});
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
        vf::Rng y = prog[t][0].rng;
        gate(waiting, nt);
        while (!own[t]->a.empty() || !own[t]->f.empty() || !own[t]->t.empty()) {
          pause(y);
          int k = (int)y.below(3);
          if (k == 0 && !own[t]->a.empty())
            own[t]->a.pop_back();
          if (k == 1 && !own[t]->f.empty())
            own[t]->f.pop_back();
          if (k == 2 && !own[t]->t.empty())
            own[t]->t.pop_back();
        }
      });
    for (auto &x : th)
      x.join();
    if (ext_freed != 1)
      bad.push_back({k_freed, vf::cat("external memory is freed ", ext_freed.load(), " times")});
    if (token_live != 0)
      bad.push_back({k_freed, vf::cat(token_live.load(), " function objects are left, or were destroyed twice")});
  }
  for (Found &f : take_reports())
    bad.push_back({f.key, f.detail + " in" + what});
  return bad;
}

static void shared(Ctx &c) {
  std::string what;
  std::vector<std::string> seen;
  std::vector<Found> bad = round(c.rng, what, &seen, false);
  c.describe(what);
  if (!seen.empty())
    c.sample(seen[c.idx % seen.size()]);
  for (auto &s : seen)
    c.saw("results", vf::hash_str(s)), c.check(true, k_result, [] { return std::string(); });
  for (Found &f : bad)
    c.violation(f.key, f.detail);
}
// Many objects, the last references to each dropped by several threads at the same moment
struct Held {
  ndt::type t;
  nd::array a;
  nd::callable f;
  nd::memory_block m;
};
static std::atomic<int> ext_gone[400];
static void note_ext(void *p) { ++*reinterpret_cast<std::atomic<int> *>(p); }
static void last(Ctx &c) {
  enum { R = 400 };
  int nt = 2 + (int)c.rng.below(3), kind = (int)c.rng.below(5);
  int before = token_live;
  std::vector<std::vector<Held>> held((size_t)nt);
  static char memory[64];
  for (auto &g : ext_gone)
    g = 0;
  int64_t expect = 0;
  {
    nd::callable f = nd::functional::apply(Token(3));
    for (int i = 0; i < R; ++i) {
      Held h;
      int k = kind == 4 ? (int)c.rng.below(4) : kind;
      if (k == 0)
        h.m = nd::memory_block(new nd::external_memory_block(&ext_gone[i], note_ext), false), ++expect;
      else if (k == 1)
        h.t = ndt::make_fixed_dim(1 + i, ndt::make_type<ndt::option_type>(ndt::make_type<int>()));
      else if (k == 2)
        h.f = c.rng.coin() ? nd::functional::elwise(f) : nd::functional::apply(Token(i));
      else {
        h.a = nd::make_array(ndt::type("4 * int32"), memory,
                             nd::memory_block(new nd::external_memory_block(&ext_gone[i], note_ext), false),
                             nd::read_access_flag);
        h.a.get_type().extended()->arrmeta_default_construct(h.a.get()->metadata(), false);
        ++expect;
      }
      for (auto &v : held)
        v.push_back(h);
    }
  }
  std::atomic<int> at[4];
  for (auto &x : at)
    x = 0;
  std::vector<std::thread> th;
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      for (int i = 0; i < R; ++i) {
        at[t].store(i + 1, std::memory_order_relaxed);
        for (int u = 0; u < nt; ++u)
          for (int spin = 0; at[u].load(std::memory_order_relaxed) < i + 1; ++spin)
            if (spin > 3000)
              std::this_thread::yield();
        held[t][i] = Held();
      }
    });
  for (auto &x : th)
    x.join();
  int once = 0, more = 0;
  for (auto &g : ext_gone)
    once += g == 1, more += g > 1;
  c.check(once == expect && more == 0, k_freed, [&] {
    return vf::cat(expect, " external objects dropped by ", nt, " threads at once: ", once, " freed once, ", more, " more than once");
  });
  c.check(token_live == before, k_freed, [&] { return vf::cat(token_live - before, " function objects more than before, dropped by ", nt, " threads at once"); });
  c.saw("dropped together", vf::mix(vf::mix(nt, kind), c.idx));
  for (Found &f : take_reports())
    c.violation(f.key, f.detail + vf::cat(" (last references to kind ", kind, " dropped together)"));
}
// In a process of its own, so that whatever the library sets up on first use is set up by the threads
static void first(Ctx &c) {
  int fd[2];
  if (pipe(fd))
    return;
  pid_t p = fork();
  if (p == 0) {
    close(fd[0]);
    std::string what, all;
    std::vector<std::string> seen;
    std::vector<Found> bad;
    dv::Outcome oc = dv::attempt([&] { bad = round(c.rng, what, &seen, true); });
    if (!oc.ok)
      _exit(3);
    all = what + '\1';
    for (auto &s : seen)
      all += s.substr(0, 60) + '\2';
    all += '\1';
    for (Found &f : bad)
      all += f.key + '\3' + f.detail + '\2';
    all += '\1';
    for (size_t i = 0; i < all.size();) {
      ssize_t w = write(fd[1], all.data() + i, all.size() - i);
      if (w <= 0)
        break;
      i += (size_t)w;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string all;
  char b[4096];
  ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0)
    all.append(b, (size_t)n);
  close(fd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  size_t e1 = all.find('\1'), e2 = e1 == std::string::npos ? e1 : all.find('\1', e1 + 1), e3 = e2 == std::string::npos ? e2 : all.find('\1', e2 + 1);
  if (!c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0 && e3 != std::string::npos, k_died, [&] { return vf::cat("status ", st); }))
    return;
  c.describe(all.substr(0, e1));
  auto each = [](const std::string &t, char sep, std::function<void(std::string)> fn) {
    size_t i = 0;
    for (size_t j; (j = t.find(sep, i)) != std::string::npos; i = j + 1)
      fn(t.substr(i, j - i));
  };
  each(all.substr(e1 + 1, e2 - e1 - 1), '\2', [&](std::string s) { c.saw("first results", vf::hash_str(s)), c.check(true, k_result, [] { return std::string(); }); });
  each(all.substr(e2 + 1, e3 - e2 - 1), '\2', [&](std::string s) {
    size_t m = s.find('\3');
    c.violation(s.substr(0, m), s.substr(m + 1));
  });
}

int main(int argc, char **argv) {
  return vf::run(argc, argv, "C01", "threads sharing types, arrays and callables do not race, get what they get alone, and free everything once",
                 {{"shared", 6000, 400000, shared, false}, {"first", 2600, 100000, first, false}, {"last", 80, 4000, last, true}});
}
