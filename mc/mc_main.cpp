#include "mc.hpp"
#include <algorithm>
#include <atomic>
#include <memory>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
std::vector<Program>& programs() {
  static std::vector<Program> p;
  return p;
}

constexpr int MAXW = 64;
constexpr std::size_t SET_BITS = 20;
constexpr std::size_t SET_CAP = (std::size_t(1) << SET_BITS) * 3 / 4;

struct ProgStat {
  std::atomic<uint64_t> traces, ops, skipped;
};
struct Shared {
  std::atomic<uint64_t> next_task;
  std::atomic<int> stop;
  std::atomic<int> fail_lock;
  int fail_program;
  uint32_t fail_bound;
  uint32_t fail_len;
  uint32_t fail_choice[MAX_CHOICES];
  char fail_msg[4096];
  std::atomic<int> capped;
  std::atomic<int> truncated;
  ProgStat stat[512];
  char sample[512][1024];
  std::atomic<int> sample_set[512];
  Slot slot[MAXW];
  uint64_t set_size[MAXW];
};

static Shared* sh;
static uint64_t* sets[MAXW];

template <class T> T* shalloc(std::size_t bytes) {
  void* p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _Exit(77);
  }
  return static_cast<T*>(p);
}

static void insert_state(int w, uint64_t h) {
  if (h == 0) h = 1;
  if (sh->set_size[w] >= SET_CAP) {
    sh->capped = 1;
    return;
  }
  uint64_t* s = sets[w];
  std::size_t i = (h * 0x9e3779b97f4a7c15ULL) >> (64 - SET_BITS);
  const std::size_t m = (std::size_t(1) << SET_BITS) - 1;
  while (s[i] != 0) {
    if (s[i] == h) return;
    i = (i + 1) & m;
  }
  s[i] = h;
  ++sh->set_size[w];
}

struct Task {
  int program;
  uint32_t bound;
  uint32_t shard, shards;
};

// returns true if a violation was found
static bool run_one(Ctx& c, const Program& p, std::string& msg) {
  try {
    p.fn(c);
    return false;
  } catch (const Violation& v) {
    msg = v.msg;
    return true;
  } catch (const ShardPrune&) {
    throw;
  } catch (const std::exception& e) {
    msg = std::string("unexpected exception: ") + e.what();
    return true;
  }
}

static void worker(int w, const std::vector<Task>& tasks, bool thorough) {
  auto c = std::make_unique<Ctx>();
  c->slot = &sh->slot[w];
  c->tier_thorough = thorough;
  while (!sh->stop) {
    const uint64_t t = sh->next_task++;
    if (t >= tasks.size()) break;
    const Task& k = tasks[t];
    const Program& p = programs()[k.program];
    c->slot->program = k.program;
    c->slot->bound = k.bound;
    c->bound = k.bound;
    c->shards = k.shards;
    c->shard = k.shard;
    c->depth = 0;
    uint64_t traces = 0, ops = 0, skipped = 0;
    for (;;) {
      c->begin();
      c->slot->trace_serial = c->slot->trace_serial + 1;
      bool pruned = false, bad = false;
      std::string msg;
      c->sampling = sh->sample_set[k.program] == 0;
      try {
        bad = run_one(*c, p, msg);
      } catch (const ShardPrune&) {
        pruned = true;
      }
      // a trace shorter than the splitting point belongs to shard 0
      if (!pruned && !c->split_done && k.shards > 1 && k.shard != 0) pruned = true;
      if (pruned) {
        bad = false;
      } else if (bad) {
        int e = 0;
        if (sh->fail_lock.compare_exchange_strong(e, 1)) {
          sh->fail_program = k.program;
          sh->fail_bound = k.bound;
          sh->fail_len = c->slot->pos;
          for (uint32_t i = 0; i < c->slot->pos; ++i) sh->fail_choice[i] = c->slot->choice[i];
          std::snprintf(sh->fail_msg, sizeof sh->fail_msg, "%s", msg.c_str());
          sh->stop = 1;
        }
        _exit(0);
      } else if (c->deviations < k.bound) {
        // already covered (and counted) with a smaller deviation bound
        if (c->bound == 0) abort();
      }
      if (!pruned && !bad && (k.bound == 0 || c->deviations == k.bound)) {
        if (c->skipped) {
          ++skipped;
        } else {
          ++traces;
          ops += c->ops;
          for (std::size_t i = 0; i < c->nstates; ++i) insert_state(w, c->states_buf[i]);
          if (c->sampling && !c->notes.empty() && traces >= 3) {
            int e = 0;
            if (sh->sample_set[k.program].compare_exchange_strong(e, 1)) {
              std::string s;
              for (auto& n : c->notes) s += (s.empty() ? "" : "; ") + n;
              std::snprintf(sh->sample[k.program], 1024, "%s", s.c_str());
            }
          }
        }
      }
      if (sh->stop) _exit(0);
      if (!c->next()) break;
    }
    sh->stat[k.program].traces += traces;
    sh->stat[k.program].ops += ops;
    sh->stat[k.program].skipped += skipped;
    if (c->truncated) sh->truncated = 1;
  }
  c->slot->program = -1;
  _exit(0);
}

struct Trace {
  std::string program;
  uint32_t bound = 0;
  std::vector<uint32_t> choices;
};

// executes exactly one trace in this process; never returns
[[noreturn]] static void exec_trace(const Trace& t, bool thorough, bool print) {
  for (auto& p : programs()) {
    if (t.program != p.name) continue;
    auto c = std::make_unique<Ctx>();
    Slot s;
    c->slot = &s;
    s.program = int(&p - programs().data());
    c->tier_thorough = thorough;
    c->replaying = true;
    c->bound = t.bound;
    c->begin();
    for (std::size_t i = 0; i < t.choices.size(); ++i) s.choice[i] = t.choices[i];
    c->depth = uint32_t(t.choices.size());
    std::string msg;
    const bool bad = run_one(*c, p, msg);
    if (print) {
      for (auto& n : c->notes) std::cout << "  " << n << "\n";
      std::cout << (bad ? "  VIOLATED: " + msg : std::string("  held")) << std::endl;
    }
    _exit(bad ? 1 : 0);
  }
  std::cerr << "unknown program " << t.program << "\n";
  _exit(77);
}

// replays one trace in a child: 0 held, 1 violated, 2 crashed, 3 hung; out receives its output
static int replay_child(const Trace& t, bool thorough, int limit_s, std::string& out) {
  int fd[2];
  if (pipe(fd)) _Exit(77);
  std::cout.flush();
  const pid_t pid = fork();
  if (pid == 0) {
    ::close(fd[0]);
    dup2(fd[1], 1);
    dup2(fd[1], 2);
    exec_trace(t, thorough, true);
  }
  ::close(fd[1]);
  const auto t0 = std::chrono::steady_clock::now();
  bool hung = false;
  std::string o;
  int status = 0;
  char buf[4096];
  // a deterministic single-threaded child: poll for completion, kill on timeout
  for (;;) {
    const pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) break;
    if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(limit_s)) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      hung = true;
      break;
    }
    usleep(2000);
  }
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0 && o.size() < 20000) o.append(buf, n);
  ::close(fd[0]);
  out = o;
  if (hung) return 3;
  if (WIFEXITED(status)) {
    if (WEXITSTATUS(status) == 77) return 4;
    if (WEXITSTATUS(status) <= 1 && o.find("  held") == std::string::npos && o.find("  VIOLATED") == std::string::npos) return 2;
    return WEXITSTATUS(status) <= 1 ? WEXITSTATUS(status) : 2;
  }
  return 2;
}

static std::string esc(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += char(ch);
    } else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      std::snprintf(b, 8, "\\u%04x", ch);
      r += b;
    } else {
      r += char(ch);
    }
  }
  return r;
}
} // namespace mc

using namespace mc;

int main(int argc, char** argv) {
  bool thorough = false;
  std::string replay, outfile, replay_out, only;
  int nw = int(sysconf(_SC_NPROCESSORS_ONLN));
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    if (a == "--thorough") thorough = true;
    else if (a == "--replay") replay = argv[++i];
    else if (a == "--out") outfile = argv[++i];
    else if (a == "--replay-out") replay_out = argv[++i];
    else if (a == "--only") only = argv[++i];
    else if (a == "--workers") nw = atoi(argv[++i]);
    else if (a == "--list") {
      for (auto& p : programs()) std::cout << p.name << "\n";
      return 0;
    }
  }
  std::sort(programs().begin(), programs().end(), [](const Program& a, const Program& b) { return std::strcmp(a.name, b.name) < 0; });
  if (programs().size() > 512) return 77;
  nw = std::max(1, std::min(nw, MAXW));

  if (!replay.empty()) {
    std::ifstream f(replay);
    Trace t;
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream s(line);
      std::string k;
      s >> k;
      if (k == "program") s >> t.program;
      else if (k == "bound") s >> t.bound;
      else if (k == "tier") {
        std::string x;
        s >> x;
        thorough = x == "thorough";
      } else if (k == "choices") {
        uint32_t v;
        while (s >> v) t.choices.push_back(v);
      }
    }
    std::string o;
    const int r = replay_child(t, thorough, 60, o);
    std::cout << o;
    std::cout << (r == 0 ? "REPLAY held" : r == 1 ? "REPLAY violated" : r == 2 ? "REPLAY crashed" : r == 3 ? "REPLAY hung" : "REPLAY error") << std::endl;
    return r == 0 ? 0 : r == 4 ? 77 : 1;
  }

  sh = shalloc<Shared>(sizeof(Shared));
  new (sh) Shared();
  for (int w = 0; w < nw; ++w) sets[w] = shalloc<uint64_t>((std::size_t(1) << SET_BITS) * 8);

  std::vector<Task> tasks;
  uint32_t maxb = 0;
  for (auto& p : programs()) maxb = std::max(maxb, thorough ? p.dev_thorough : p.dev_quick);
  for (uint32_t b = 0; b <= maxb; ++b) {
    for (std::size_t i = 0; i < programs().size(); ++i) {
      auto& p = programs()[i];
      if (p.thorough_only && !thorough) continue;
      if (!only.empty() && only != p.name) continue;
      if (b > (thorough ? p.dev_thorough : p.dev_quick)) continue;
      const uint32_t S = 64;
      for (uint32_t s = 0; s < S; ++s) tasks.push_back({int(i), b, s, S});
    }
  }

  const auto t0 = std::chrono::steady_clock::now();
  std::vector<pid_t> pid(nw, 0);
  std::vector<uint64_t> serial(nw, 0);
  std::vector<std::chrono::steady_clock::time_point> since(nw, t0);
  int live = 0;
  std::cout.flush();
  for (int w = 0; w < nw; ++w) {
    pid[w] = fork();
    if (pid[w] == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      worker(w, tasks, thorough);
    }
    ++live;
  }
  int result = 0; // 0 ok, 1 violation, 77 internal error
  Trace bad;
  std::string why;
  auto trace_of = [&](int w) {
    Trace t;
    const Slot& s = sh->slot[w];
    t.program = programs()[s.program].name;
    t.bound = s.bound;
    for (uint32_t i = 0; i < s.pos; ++i) t.choices.push_back(s.choice[i]);
    return t;
  };
  const int HANG_S = 20;
  while (live > 0) {
    int status;
    const pid_t r = waitpid(-1, &status, WNOHANG);
    if (r > 0) {
      int w = -1;
      for (int i = 0; i < nw; ++i)
        if (pid[i] == r) w = i;
      if (w < 0) continue;
      pid[w] = 0;
      --live;
      if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        if (sh->slot[w].program >= 0 && !sh->stop && result == 0) {
          // library code called exit(0): the execution never completed
          result = 1;
          why = "process terminated inside the execution";
          bad = trace_of(w);
          sh->stop = 1;
        }
        continue;
      }
      if (WIFEXITED(status) && WEXITSTATUS(status) == 77) {
        if (result == 0) result = 77;
        sh->stop = 1;
        continue;
      }
      if (result == 0 && sh->slot[w].program >= 0) {
        result = 1;
        why = WIFSIGNALED(status) ? "process killed by signal " + std::to_string(WTERMSIG(status)) : "process exited with status " + std::to_string(WEXITSTATUS(status));
        bad = trace_of(w);
      }
      sh->stop = 1;
      continue;
    }
    const auto now = std::chrono::steady_clock::now();
    for (int w = 0; w < nw; ++w) {
      if (!pid[w]) continue;
      const uint64_t s = sh->slot[w].trace_serial;
      if (s != serial[w]) {
        serial[w] = s;
        since[w] = now;
      } else if (now - since[w] > std::chrono::seconds(HANG_S)) {
        if (sh->stop || result != 0) {
          kill(pid[w], SIGKILL);
          continue;
        }
        if (sh->slot[w].program < 0) continue;
        // re-run this single execution alone, with a longer limit, before calling it a hang
        const Trace t = trace_of(w);
        std::string o;
        const int rr = replay_child(t, thorough, 2 * HANG_S, o);
        if (rr == 3) {
          result = 1;
          why = "execution does not terminate";
          bad = t;
          sh->stop = 1;
          kill(pid[w], SIGKILL);
        } else {
          since[w] = std::chrono::steady_clock::now();
        }
      }
    }
    usleep(3000);
  }
  if (result == 0 && sh->fail_lock) {
    result = 1;
    why = sh->fail_msg;
    bad.program = programs()[sh->fail_program].name;
    bad.bound = sh->fail_bound;
    bad.choices.assign(sh->fail_choice, sh->fail_choice + sh->fail_len);
  }
  std::string detail;
  if (result == 1) {
    // replay twice; identical verdicts required before reporting
    std::string o1, o2;
    const int lim = why == "execution does not terminate" ? 10 : 60;
    const int r1 = replay_child(bad, thorough, lim, o1), r2 = replay_child(bad, thorough, lim, o2);
    if (r1 == 0 || r1 != r2 || r1 == 4) {
      std::cerr << "MC-INTERNAL-ERROR: violation does not replay (" << r1 << "," << r2 << ") " << why << "\n" << o1 << "\n" << o2;
      result = 77;
    }
    detail = o1;
    if (!replay_out.empty()) {
      std::ofstream f(replay_out);
      f << "program " << bad.program << "\nbound " << bad.bound << "\ntier " << (thorough ? "thorough" : "quick") << "\nchoices";
      for (auto v : bad.choices) f << " " << v;
      f << "\n\n# " << why << "\n";
      std::istringstream s(detail);
      std::string l;
      while (std::getline(s, l)) f << "# " << l << "\n";
    }
    std::cout << "counterexample in program " << bad.program << ": " << why << "\n" << detail.substr(0, 4000) << std::endl;
  }
  // merge state sets
  std::vector<uint64_t> all;
  for (int w = 0; w < nw; ++w)
    for (std::size_t i = 0; i < (std::size_t(1) << SET_BITS); ++i)
      if (sets[w][i]) all.push_back(sets[w][i]);
  std::sort(all.begin(), all.end());
  all.erase(std::unique(all.begin(), all.end()), all.end());
  uint64_t traces = 0, ops = 0, skipped = 0;
  for (std::size_t i = 0; i < programs().size(); ++i) {
    traces += sh->stat[i].traces;
    ops += sh->stat[i].ops;
    skipped += sh->stat[i].skipped;
  }
  const double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (!outfile.empty()) {
    std::ofstream f(outfile);
    f << "{\"result\":" << result << ",\"traces\":" << traces << ",\"transitions\":" << ops << ",\"skipped\":" << skipped
      << ",\"states\":" << all.size() << ",\"state_cap_hit\":" << (sh->capped ? "true" : "false") << ",\"max_deviation_bound\":" << maxb
      << ",\"wall\":" << wall << ",\"why\":\"" << esc(why) << "\",\"detail\":\"" << esc(detail.substr(0, 4000)) << "\",\"programs\":[";
    bool first = true;
    for (std::size_t i = 0; i < programs().size(); ++i) {
      auto& p = programs()[i];
      if (p.thorough_only && !thorough) continue;
      if (!first) f << ",";
      first = false;
      f << "{\"name\":\"" << p.name << "\",\"traces\":" << sh->stat[i].traces << ",\"transitions\":" << sh->stat[i].ops
        << ",\"outside_domain\":" << sh->stat[i].skipped << ",\"deviation_bound\":" << (thorough ? p.dev_thorough : p.dev_quick) << ",\"sample\":\"" << esc(sh->sample[i])
        << "\"}";
    }
    f << "]}\n";
  }
  return result;
}
