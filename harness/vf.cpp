#include "vf.hpp"
#include <dynd/exceptions.hpp>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sanitizer/allocator_interface.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#include <sanitizer/lsan_interface.h>
#define VF_ASAN 1
#endif
#include <sanitizer/common_interface_defs.h>

namespace vf {
namespace {

  struct Shared { // one per worker
    std::atomic<uint64_t> group;
    std::atomic<uint64_t> idx;
    std::atomic<uint64_t> ticks; // cases started
    std::atomic<int> in_case;
    std::atomic<uint64_t> fresh; // violations that are not listed findings
    std::atomic<int> reported; // a sanitizer report was already written for this case
    char desc[4096];
  };

  struct Stats {
    uint64_t cases = 0, checks = 0;
    std::map<std::string, uint64_t> events;
    std::map<std::string, std::unordered_set<uint64_t>> distinct;
    std::map<std::string, uint64_t> group_cases;
    std::vector<std::string> samples;
    std::map<std::string, int> nsamples;
  } g;

  Shared *my_shared = nullptr;
  FILE *vfile = nullptr; // violations of this worker, JSON lines
  std::map<std::string, int> key_count;
  std::string cur_group;
  uint64_t cur_idx;
  Ctx *cur_ctx = nullptr;

  double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
  }

  std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') {
        o += '\\';
        o += c;
      } else if (c < 0x20 || c >= 0x7f) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c);
        o += b;
      } else
        o += c;
    }
    return o + "\"";
  }

  bool listed(const std::string &key) { // a known finding, by the keys check.py passes in
    static const std::string known = std::string("\n") + (getenv("VF_KNOWN") ? getenv("VF_KNOWN") : "") + "\n";
    return known.find("\n" + key + "\n") != std::string::npos;
  }
  uint64_t parent_fresh = 0;

  void write_violation(FILE *f, const std::string &key, const std::string &group, uint64_t idx, const std::string &desc,
                       const std::string &detail) {
    if (!f)
      return;
    if (!listed(key))
      my_shared ? (void)my_shared->fresh++ : (void)++parent_fresh;
    std::string s = "{\"key\":" + jstr(key) + ",\"group\":" + jstr(group) + ",\"case\":" + std::to_string(idx) +
                    ",\"input\":" + jstr(desc.substr(0, 3000)) + ",\"detail\":" + jstr(detail.substr(0, 6000)) + "}\n";
    fwrite(s.data(), 1, s.size(), f);
    fflush(f);
  }

  void asan_report(const char *text) {
    std::string t = text ? text : "";
    // kind: the word after "ERROR: AddressSanitizer: "
    std::string kind = "unknown";
    size_t p = t.find("Sanitizer: ");
    if (p != std::string::npos) {
      size_t e = t.find_first_of(" \n", p + 11);
      kind = t.substr(p + 11, e - p - 11);
    }
    if (my_shared)
      my_shared->reported = 1;
    // first frame inside the library or its headers
    std::string frame = "?";
    size_t q = 0;
    while ((q = t.find("    #", q)) != std::string::npos) {
      size_t e = t.find('\n', q);
      std::string line = t.substr(q, e - q);
      if (line.find("dynd") != std::string::npos && line.find("/verif/harness") == std::string::npos &&
          line.find("compiler-rt") == std::string::npos) {
        size_t in = line.find(" in ");
        frame = in == std::string::npos ? line : line.substr(in + 4);
        size_t par = frame.find_first_of("(<");
        if (par != std::string::npos)
          frame = frame.substr(0, par);
        size_t sp = frame.find(' ');
        if (sp != std::string::npos)
          frame = frame.substr(0, sp);
        break;
      }
      q = e == std::string::npos ? t.size() : e;
    }
    write_violation(vfile, "asan:" + kind + ":" + frame, cur_group, cur_idx, my_shared ? my_shared->desc : "", t);
  }
} // namespace

std::string hex(const void *p, size_t n) {
  static const char *d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n; ++i) {
    s += d[((const unsigned char *)p)[i] >> 4];
    s += d[((const unsigned char *)p)[i] & 15];
  }
  return s;
}
std::string quote(const std::string &s) { return jstr(s); }

namespace {
  size_t own_bytes = 0; // what the monitor's own tables hold: not the library's
  struct Own {
    size_t at = raw();
    ~Own() { own_bytes += raw() - at; }
    static size_t raw() {
#ifdef VF_ASAN
      return __sanitizer_get_current_allocated_bytes();
#else
      return 0;
#endif
    }
  };
}
size_t heap_bytes() { return Own::raw() - own_bytes; }

void Ctx::violation(const std::string &key, const std::string &detail) {
  Own own;
  if (verbose)
    std::cerr << "violation " << key << ": " << detail << "\n   input: " << current << std::endl;
  if (++key_count[key] <= 5)
    write_violation(vfile, key, group, idx, current, detail);
}
bool Ctx::check(bool ok, const std::string &key, const std::function<std::string()> &detail) {
  ++g.checks;
  if (!ok)
    violation(key, detail());
  return ok;
}
void Ctx::saw(const char *tag, uint64_t h) {
  Own own;
  ++g.events[tag];
  auto &s = g.distinct[tag];
  if (s.size() < 400000)
    s.insert(mix(h, 0));
}
void Ctx::sample(const std::string &s) {
  Own own;
  if (g.nsamples[group]++ < 2)
    g.samples.push_back(group + "#" + std::to_string(idx) + ": " + s.substr(0, 400));
}
void Ctx::describe(const std::string &s) {
  Own own;
  current = s;
  if (my_shared) {
    size_t n = std::min(s.size(), sizeof(my_shared->desc) - 1);
    memcpy(my_shared->desc, s.data(), n);
    my_shared->desc[n] = 0;
  }
}

namespace {
  uint64_t seed_ = 1;
  bool thorough_ = false;
  std::string outdir;

  void run_case(Group &gr, uint64_t gi, uint64_t i, bool verbose) {
    Ctx c;
    c.rng = Rng(mix(mix(seed_, hash_str(gr.name)), i));
    c.rng.next();
    c.group = gr.name;
    c.idx = i;
    c.verbose = verbose;
    c.thorough = thorough_;
    cur_group = gr.name;
    cur_idx = i;
    if (my_shared) {
      my_shared->group = gi;
      my_shared->idx = i;
      my_shared->reported = 0;
      my_shared->desc[0] = 0;
      my_shared->in_case = 1;
      my_shared->ticks++;
    }
    cur_ctx = &c;
    try {
      gr.fn(c);
    } catch (const dynd::dynd_exception &e) {
      int st = 0;
      char *dm = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
      c.violation("uncaught:" + gr.name + ":" + (dm ? dm : typeid(e).name()), e.what());
      free(dm);
    } catch (const std::exception &e) {
      int st = 0;
      char *dm = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
      c.violation("uncaught:" + gr.name + ":" + (dm ? dm : typeid(e).name()), e.what());
      free(dm);
    } catch (...) {
      c.violation("uncaught:" + gr.name + ":?", "non-standard exception");
    }
    cur_ctx = nullptr;
    if (my_shared)
      my_shared->in_case = 0;
    ++g.cases;
    ++g.group_cases[gr.name];
  }

  void dump_stats(const std::string &path) {
    std::ofstream o(path + ".json");
    o << "{\"cases\":" << g.cases << ",\"checks\":" << g.checks << ",\"events\":{";
    bool f = true;
    for (auto &e : g.events)
      o << (f ? "" : ",") << jstr(e.first) << ":" << e.second, f = false;
    o << "},\"groups\":{";
    f = true;
    for (auto &e : g.group_cases)
      o << (f ? "" : ",") << jstr(e.first) << ":" << e.second, f = false;
    o << "},\"samples\":[";
    f = true;
    for (auto &s : g.samples)
      o << (f ? "" : ",") << jstr(s), f = false;
    o << "]}\n";
    for (auto &d : g.distinct) {
      std::string fn = path + "." + d.first + ".set";
      for (size_t i = path.size(); i < fn.size(); ++i)
        if (fn[i] == '/')
          fn[i] = ':';
      std::ofstream b(fn, std::ios::binary);
      for (uint64_t h : d.second)
        b.write((const char *)&h, 8);
    }
  }
} // namespace

int run(int argc, char **argv, const char *property, const char *rule, std::vector<Group> groups) {
  int workers = 6;
  const char *only_group = nullptr;
  long only_case = -1;
  double hang_s = 90;
  bool verbose = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
    if (a == "--seed")
      seed_ = strtoull(val(), 0, 10);
    else if (a == "--tier")
      thorough_ = std::string(val()) == "thorough";
    else if (a == "--out")
      outdir = val();
    else if (a == "--workers")
      workers = atoi(val());
    else if (a == "--group")
      only_group = val();
    else if (a == "--case")
      only_case = atol(val());
    else if (a == "--hang")
      hang_s = atof(val());
    else if (a == "-v")
      verbose = true;
  }
#ifdef VF_ASAN
  __asan_set_error_report_callback(asan_report);
#endif
  if (only_case >= 0) { // replay one case in this process
    vfile = stdout;
    for (size_t k = 0; k < groups.size(); ++k)
      if (groups[k].name == only_group)
        run_case(groups[k], k, only_case, true);
    return key_count.empty() ? 0 : 1;
  }
  if (outdir.empty())
    outdir = ".";
  struct Slot {
    pid_t pid = -1;
    Shared *sh;
    std::vector<std::pair<int, uint64_t>> work; // (group, idx)
    size_t pos = 0;
    uint64_t last_ticks = 0;
    double last_change = 0;
    int incarnation = 0;
    int crashes = 0;
    bool dumped = false, done = false;
    std::map<std::pair<int, uint64_t>, int> hangs;
  };
  std::vector<Slot> slots(workers);
  size_t total = 0;
  for (int w = 0; w < workers; ++w) {
    slots[w].sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (slots[w].sh) Shared();
  }
  const uint64_t scale = getenv("VF_SCALE") ? strtoull(getenv("VF_SCALE"), nullptr, 10) : 2;
  for (size_t k = 0; k < groups.size(); ++k) {
    if (only_group && groups[k].name != only_group)
      continue;
    // groups with a fixed list of cases have the same count in both tiers
    uint64_t n = thorough_ ? groups[k].thorough : std::min(groups[k].thorough, groups[k].quick * (groups[k].serial ? 1 : scale));
    for (uint64_t i = 0; i < n; ++i) {
      int w = groups[k].serial ? (int)(k % workers) : (int)((i + k) % workers);
      slots[w].work.push_back({(int)k, i});
      ++total;
    }
  }
  auto spawn = [&](int w) {
    Slot &s = slots[w];
    s.incarnation++;
    s.sh->in_case = 0;
    s.last_ticks = s.sh->ticks;
    s.last_change = now();
    std::string base = outdir + "/w" + std::to_string(w) + "." + std::to_string(s.incarnation);
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
      my_shared = s.sh;
      vfile = fopen((base + ".viol").c_str(), "w");
      int fd = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (!verbose) {
        dup2(fd, 2);
        dup2(fd, 1);
      }
      size_t n = 0;
      for (size_t i = s.pos; i < s.work.size(); ++i) {
        run_case(groups[s.work[i].first], s.work[i].first, s.work[i].second, verbose);
        if (++n % 512 == 0)
          dump_stats(base);
      }
      dump_stats(base);
      int rc = 0;
#ifdef VF_ASAN
      if (getenv("VF_LEAKCHECK") && __lsan_do_recoverable_leak_check()) {
        write_violation(vfile, "leak", "exit", 0, "", "LeakSanitizer reported leaked memory at worker exit");
      }
#endif
      fflush(vfile);
      _exit(rc);
    }
    s.pid = p;
  };
  FILE *pv = fopen((outdir + "/parent.viol").c_str(), "w");
  uint64_t crashes = 0, hangs = 0;
  bool harness_error = false, stopped = false;
  double first_fresh = 0;
  for (int w = 0; w < workers; ++w) {
    if (slots[w].work.empty())
      slots[w].done = true;
    else
      spawn(w);
  }
  for (;;) {
    bool alive = false;
    uint64_t fresh = parent_fresh;
    for (Slot &s : slots)
      fresh += s.sh->fresh;
    if (fresh && !first_fresh)
      first_fresh = now();
    if (first_fresh && now() - first_fresh > (thorough_ ? 180 : 30)) { // decided: a broken tree can make the rest very slow
      for (Slot &s : slots)
        if (!s.done) {
          kill(s.pid, SIGKILL);
          waitpid(s.pid, nullptr, 0);
        }
      fprintf(pv, "{\"note\":\"stopped early: violations were found\"}\n");
      stopped = true;
      break;
    }
    for (int w = 0; w < workers; ++w) {
      Slot &s = slots[w];
      if (s.done)
        continue;
      alive = true;
      int st = 0;
      pid_t r = waitpid(s.pid, &st, WNOHANG);
      bool hung = false;
      if (r == 0) {
        uint64_t t = s.sh->ticks;
        if (t != s.last_ticks) {
          s.last_ticks = t;
          s.last_change = now();
          continue;
        } else if (now() - s.last_change > hang_s) {
          kill(s.pid, SIGKILL);
          waitpid(s.pid, &st, 0);
          hung = true;
        } else
          continue;
      }
      if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0 && !s.sh->in_case) {
        s.done = true;
        continue;
      }
      // died or hung inside a case
      int gi = s.sh->group;
      uint64_t ix = s.sh->idx;
      size_t at = s.pos;
      while (at < s.work.size() && !(s.work[at].first == gi && s.work[at].second == ix))
        ++at;
      if (at == s.work.size() || (!s.sh->in_case && !hung)) {
        fprintf(pv, "{\"harness_error\":\"worker %d died outside a case, status %d\"}\n", w, st);
        harness_error = true;
        s.done = true;
        continue;
      }
      if (hung) {
        ++hangs;
        if (++s.hangs[s.work[at]] < 2) { // run it once more before believing it
          s.pos = at;
          spawn(w);
          continue;
        }
        write_violation(pv, "hang:" + groups[gi].name, groups[gi].name, ix, s.sh->desc,
                        "no progress within the watchdog limit, twice");
      } else if (!s.sh->reported) {
        std::string k = WIFSIGNALED(st) ? "signal:" + std::to_string(WTERMSIG(st)) : "exit:" + std::to_string(WEXITSTATUS(st));
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { // the machine ended it (memory): not a verdict
          fprintf(pv, "{\"harness_error\":\"worker %d was killed\"}\n", w);
          harness_error = true;
        } else
          write_violation(pv, k + ":" + groups[gi].name, groups[gi].name, ix, s.sh->desc, "the process died in this case");
      }
      ++crashes;
      if (++s.crashes > 25) {
        fprintf(pv, "{\"note\":\"worker %d stopped after 25 crashes\"}\n", w);
        s.done = true;
        continue;
      }
      s.pos = at + 1;
      if (s.pos >= s.work.size())
        s.done = true;
      else
        spawn(w);
    }
    if (!alive)
      break;
    usleep(10000);
  }
  fclose(pv);
  std::ofstream o(outdir + "/run.json");
  o << "{\"property\":" << jstr(property) << ",\"rule\":" << jstr(rule) << ",\"planned\":" << total
    << ",\"crashes\":" << crashes << ",\"hangs\":" << hangs << ",\"stopped\":" << (stopped ? "true" : "false") << ",\"harness_error\":" << (harness_error ? "true" : "false")
    << "}\n";
  return harness_error ? 3 : 0;
}

} // namespace vf

extern "C" void __ubsan_get_current_report_data(const char **OutIssueKind, const char **OutMessage,
                                                const char **OutFilename, unsigned *OutLine, unsigned *OutCol,
                                                char **OutMemoryAddr);
#ifdef VF_ASAN
extern "C" __attribute__((visibility("default"))) void __ubsan_on_report(void) {
  const char *kind, *msg, *file;
  unsigned line, col;
  char *addr;
  __ubsan_get_current_report_data(&kind, &msg, &file, &line, &col, &addr);
  std::string f = file ? file : "?";
  if (f.find("/verif/harness") != std::string::npos)
    return;
  size_t p = f.rfind("/repo/");
  if (p != std::string::npos)
    f = f.substr(p + 6);
  std::string key = std::string("ubsan:") + (kind ? kind : "?") + ":" + f;
  if (vf::cur_ctx)
    vf::cur_ctx->violation(key, vf::cat(msg ? msg : "", " at ", f, ":", line, ":", col));
  else
    vf::write_violation(vf::vfile, key, vf::cur_group, vf::cur_idx, "", vf::cat(msg ? msg : "", " at ", f, ":", line));
}
#endif
