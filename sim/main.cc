// Simulator executable: one zygote process forks a pristine child per run.
//   gen   PROP SEED TIER                     print the plan of a seed
//   run   PLANFILE [-v]                      execute one plan, print the result as key=value lines
//   batch PROP TIER BASE FIRST STEP COUNT CAP_S OUT   execute seeds FIRST, FIRST+STEP, ... (COUNT of them)
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <fstream>
#include <set>
#include <sstream>
#include <typeinfo>

#include <cxxabi.h>

#include "core.hpp"
#include "sched.hpp"

using namespace sim;

#ifdef SIM_ASAN
extern "C" const char* __asan_get_report_description();
extern "C" void __asan_on_error() {
  const char* d = __asan_get_report_description();
  char cls[120];
  snprintf(cls, sizeof cls, "memory:%s", d ? d : "asan");
  Violation(cls, "invalid memory access: %s", d ? d : "?");
}
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:max_malloc_fill_size=0:allocator_may_return_null=1:handle_abort=0:"
         "max_allocation_size_mb=4096:verbosity=0:log_path=/dev/null:detect_stack_use_after_return=0";
}
#endif

static void ReapplyLimits() {
#ifdef SIM_SCHED
  const unsigned cpu = 60;  // histories around the retention cap take several seconds
#else
  const unsigned cpu = 20;
#endif
  struct rlimit rl;
  rl.rlim_cur = cpu;
  rl.rlim_max = cpu + 5;
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  signal(SIGALRM, SIG_DFL);
  alarm(4 * cpu);
}

static void OnTerminate() {
  LibDepth() = 0;
  const char* t = "no active exception";
  if (std::type_info* ti = abi::__cxa_current_exception_type()) t = ti->name();
  Violation("terminate", "std::terminate called (%s)", t);
}

static void ChildMain(const Plan& plan0) {
  ReapplyLimits();
#ifdef SIM_SCHED
  SchedEnterChild();
#endif
  const Plan& plan = plan0;
  std::set_terminate(OnTerminate);
  const PropDef* def = FindProp(plan.prop);
  if (!def) HarnessError("unknown property %s", plan.prop.c_str());
  for (const Item& it : plan.items)
    if (it.type == "mem") {
      g_memfill = static_cast<int>(it.i("fill", 0));
      Count(g_memfill == 1 ? "fault.memory.garbage" : "fault.memory.zeros");
    }
  InstallSeams();
  def->run(plan);
  FinishOk();
}

static void ResetShared() {
  g_shared->status = 0;
  g_shared->cls[0] = g_shared->msg[0] = 0;
  g_shared->loghash = 1469598103934665603ull;
  g_shared->nlog = g_shared->sim_ns = 0;
  g_shared->ncounters = g_shared->nstates = g_shared->nontrivial = 0;
  g_shared->switches[0] = 0;
}

// Executes a plan in a forked child; fills g_shared.
static void Execute(const Plan& plan) {
  ResetShared();
  fflush(stdout);
  const pid_t pid = fork();
  if (pid < 0) {
    g_shared->status = 3;
    snprintf(g_shared->msg, sizeof g_shared->msg, "fork: %s", strerror(errno));
    return;
  }
  if (pid == 0) {
    if (!g_verbose) {
      int fd = open("/dev/null", O_WRONLY);
      if (fd >= 0) {
        dup2(fd, 1);
        dup2(fd, 2);
      }
    }
    ChildMain(plan);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (g_shared->status == 0) {
    if (WIFSIGNALED(st)) {
      const int sg = WTERMSIG(st);
      g_shared->status = 2;
      if (sg == SIGXCPU || sg == SIGALRM)
        snprintf(g_shared->cls, sizeof g_shared->cls, "hang");
      else if (sg == SIGKILL) {
        g_shared->status = 3;
        snprintf(g_shared->cls, sizeof g_shared->cls, "killed");
      } else
        snprintf(g_shared->cls, sizeof g_shared->cls, "crash:SIG%s", sigabbrev_np(sg) ? sigabbrev_np(sg) : "?");
      snprintf(g_shared->msg, sizeof g_shared->msg, "the process was ended by signal %d (%s)", sg, strsignal(sg));
    } else {
      // The library under test called exit()/_exit() by itself, or the child vanished.
      g_shared->status = 2;
      snprintf(g_shared->cls, sizeof g_shared->cls, "crash:exit");
      snprintf(g_shared->msg, sizeof g_shared->msg, "the process exited with status %d before the run finished", WEXITSTATUS(st));
    }
  }
}

static std::string OneLine(const char* s) {
  std::string r(s);
  for (char& c : r)
    if (c == '\n' || c == '\r') c = ' ';
  return r;
}

static void PrintResult(FILE* f) {
  fprintf(f, "status=%d\ncls=%s\nmsg=%s\nloghash=%016lx\nnlog=%lu\nsim_ns=%lu\nnontrivial=%u\n", g_shared->status,
          OneLine(g_shared->cls).c_str(), OneLine(g_shared->msg).c_str(), static_cast<unsigned long>(g_shared->loghash),
          static_cast<unsigned long>(g_shared->nlog), static_cast<unsigned long>(g_shared->sim_ns), g_shared->nontrivial);
  fprintf(f, "switches=%s\n", g_shared->switches);
  for (uint32_t i = 0; i < g_shared->ncounters; ++i)
    fprintf(f, "counter %s=%lu\n", g_shared->counters[i].name, static_cast<unsigned long>(g_shared->counters[i].v));
}

static Plan MakePlan(const std::string& prop, uint64_t seed, const std::string& tier) {
  const PropDef* def = FindProp(prop);
  if (!def) {
    fprintf(stderr, "unknown property %s in this variant\n", prop.c_str());
    _exit(3);
  }
  Plan p;
  p.prop = prop;
  p.seed = seed;
  p.tier = tier;
  Rng rng(seed ^ Hash(prop.data(), prop.size()));
  def->gen(&p, rng, tier == "thorough");
  if (rng.chance(0.4)) p.items.push_back(Item("mem").set("fill", rng.chance(0.75) ? 1 : 2));
  return p;
}

static double NowReal() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);  // seams are off in the zygote
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

int main(int argc, char** argv) {
  if (!getenv("SIM_REEXEC")) {
    const int cur = personality(0xffffffff);
    if (cur >= 0 && !(cur & ADDR_NO_RANDOMIZE) && personality(static_cast<unsigned long>(cur) | ADDR_NO_RANDOMIZE) >= 0) {
      setenv("SIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (g_shared == MAP_FAILED) return 3;
  ResetShared();
  const std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "gen" && argc >= 5) {
    fputs(MakePlan(argv[2], strtoull(argv[3], nullptr, 10), argv[4]).str().c_str(), stdout);
    return 0;
  }
  if (mode == "run" && argc >= 3) {
    std::ifstream in(argv[2]);
    std::stringstream ss;
    ss << in.rdbuf();
    Plan p;
    std::string err;
    if (!Plan::parse(ss.str(), &p, &err)) {
      printf("status=3\nmsg=%s\n", err.c_str());
      return 0;
    }
    if (argc > 3) g_verbose = 1;
    Execute(p);
    PrintResult(stdout);
    return 0;
  }
  if (mode == "batch" && argc >= 10) {
    const std::string prop = argv[2], tier = argv[3];
    const uint64_t base = strtoull(argv[4], nullptr, 10);
    const uint64_t first = strtoull(argv[5], nullptr, 10), step = strtoull(argv[6], nullptr, 10);
    const uint64_t count = strtoull(argv[7], nullptr, 10);
    const double cap = strtod(argv[8], nullptr);
    const std::string out = argv[9];
    const double t0 = NowReal();
    std::map<std::string, uint64_t> counters;
    std::map<std::string, uint64_t> runs_with;
    std::set<uint64_t> states, plans;
    uint64_t runs = 0, nontrivial = 0, sim_ns = 0, twice = 0, logs = 0, distinct = 0;
    std::vector<std::string> found;
    std::vector<std::string> samples;
    std::string herr;
    bool capped = false;
    const uint64_t twice_every = getenv("SIM_TWICE") ? strtoull(getenv("SIM_TWICE"), nullptr, 10) : 40;
    for (uint64_t k = 0; k < count; ++k) {
      if (NowReal() - t0 > cap) {
        capped = true;
        break;
      }
      const uint64_t seed = base * 100000007ull + first + k * step;
      const Plan p = MakePlan(prop, seed, tier);
      const std::string text = p.str();
      Execute(p);
      ++runs;
      if (g_shared->status == 3) {
        herr = "seed " + std::to_string(seed) + ": " + g_shared->msg;
        break;
      }
      sim_ns += g_shared->sim_ns;
      logs += g_shared->nlog;
      bool newstate = false;
      for (uint32_t i = 0; i < g_shared->nstates; ++i)
        if (states.insert(g_shared->states[i]).second) newstate = true;
      if (g_shared->nontrivial) {
        ++nontrivial;
        const size_t body = text.find('\n');
        const uint64_t ph = HashU(g_shared->loghash, Hash(text.data() + body, text.size() - body));
        if (plans.insert(ph).second) ++distinct;
        if (newstate && samples.size() < 3) samples.push_back(text);
      }
      for (uint32_t i = 0; i < g_shared->ncounters; ++i) {
        counters[g_shared->counters[i].name] += g_shared->counters[i].v;
        runs_with[g_shared->counters[i].name]++;
      }
      if (g_shared->status == 2) {
        found.push_back(std::to_string(seed) + "\t" + g_shared->cls + "\t" + OneLine(g_shared->msg));
        if (found.size() >= 2) break;
      } else if (k % twice_every == twice_every / 5) {
        const uint64_t h = g_shared->loghash;
        Execute(p);
        ++twice;
        if (g_shared->status != 1 || g_shared->loghash != h) {
          herr = "seed " + std::to_string(seed) + " is not deterministic: " + g_shared->cls + " " + g_shared->msg;
          break;
        }
      }
    }
    const double wall = NowReal() - t0;
    std::string tmp = out + ".tmp";
    FILE* f = fopen(tmp.c_str(), "w");
    if (!f) return 3;
    fprintf(f, "runs=%lu\nnontrivial=%lu\ndistinct=%lu\nsim_ns=%lu\ntwice=%lu\nlogs=%lu\nwall=%.3f\ncapped=%d\n",
            static_cast<unsigned long>(runs), static_cast<unsigned long>(nontrivial), static_cast<unsigned long>(distinct),
            static_cast<unsigned long>(sim_ns), static_cast<unsigned long>(twice), static_cast<unsigned long>(logs), wall,
            capped ? 1 : 0);
    if (!herr.empty()) fprintf(f, "harness=%s\n", OneLine(herr.c_str()).c_str());
    for (auto& c : counters) fprintf(f, "counter\t%s\t%lu\t%lu\n", c.first.c_str(), static_cast<unsigned long>(c.second), static_cast<unsigned long>(runs_with[c.first]));
    for (uint64_t h : plans) fprintf(f, "case\t%016lx\n", static_cast<unsigned long>(h));
    for (uint64_t s : states) fprintf(f, "state\t%016lx\n", static_cast<unsigned long>(s));
    for (auto& v : found) fprintf(f, "violation\t%s\n", v.c_str());
    for (auto& s : samples) {
      std::string e = s;
      std::replace(e.begin(), e.end(), '\n', '\x1f');
      fprintf(f, "sample\t%s\n", e.c_str());
    }
    fclose(f);
    rename(tmp.c_str(), out.c_str());
    return 0;
  }
  fprintf(stderr, "usage: gen|run|batch ...\n");
  return 3;
}
