#include "mc.h"
#include <algorithm>
#include <chrono>
#include <cxxabi.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
namespace {

struct Shared {
  volatile uint64_t curIndex; // index of case under execution
  volatile uint64_t inCase;
  volatile uint64_t cases, transitions, traces, evals;
  volatile uint64_t failures;
  char caseId[1 << 15];
  char note[1 << 14];
};

std::string g_dir;      // scratch directory for worker outputs
int g_worker = 0, g_nworkers = 1;
uint64_t g_resumeFrom = 0;
bool g_onlyMode = false;
std::string g_only;
bool g_onlyFound = false;
Shared* g_sh = nullptr;
double g_limit = 60;
double g_deadline = 0;
std::unordered_set<uint64_t>* g_states = nullptr;
std::map<std::string, uint64_t>* g_outcomes = nullptr;
std::vector<std::string>* g_samples = nullptr;
std::set<std::string>* g_caps = nullptr;
std::set<uint64_t>* g_failKeys = nullptr;
int g_failFd = -1;
Options g_opts;

double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n')
      o += "\\n";
    else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o;
}
// one-line field encoding for worker -> parent files
std::string enc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '\\')
      o += "\\\\";
    else if (c == '\n')
      o += "\\n";
    else if (c == '\t')
      o += "\\t";
    else
      o += c;
  }
  return o;
}
std::string dec(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\\' && i + 1 < s.size()) {
      i++;
      o += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i];
    } else
      o += s[i];
  }
  return o;
}

void armTimer(double sec) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (long)sec;
  it.it_value.tv_usec = (long)((sec - (long)sec) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
}

void flushWorker() {
  std::ofstream f(g_dir + "/w" + std::to_string(g_worker) + "." + std::to_string(getpid()) + ".out");
  for (auto& kv : *g_outcomes) f << "O\t" << kv.second << "\t" << enc(kv.first) << "\n";
  for (auto& s : *g_samples) f << "S\t" << enc(s) << "\n";
  for (auto& s : *g_caps) f << "C\t" << enc(s) << "\n";
  f.close();
  std::ofstream b(g_dir + "/w" + std::to_string(g_worker) + "." + std::to_string(getpid()) + ".states", std::ios::binary);
  std::vector<uint64_t> v(g_states->begin(), g_states->end());
  b.write((const char*)v.data(), v.size() * 8);
}

} // namespace

bool Ctx::mine() {
  if (g_onlyMode) return true;
  uint64_t i = index;
  if (i % g_nworkers != (uint64_t)g_worker || i < g_resumeFrom) {
    index++;
    return false;
  }
  if (g_deadline > 0 && now() > g_deadline) {
    g_caps->insert("wall-clock guard reached; cases from some index on were not executed");
    index++;
    return false;
  }
  return true;
}
bool Ctx::begin_(const std::string& id) {
  if (g_onlyMode) {
    index++;
    if (id != g_only) return false;
    g_onlyFound = true;
  } else {
    index++;
  }
  caseId = id;
  failedInCase = false;
  failCount = 0;
  g_sh->curIndex = index - 1;
  g_sh->inCase = 1;
  size_t n = std::min(id.size(), sizeof(g_sh->caseId) - 1);
  memcpy(g_sh->caseId, id.data(), n);
  g_sh->caseId[n] = 0;
  g_sh->note[0] = 0;
  g_sh->cases = g_sh->cases + 1;
  armTimer(g_limit);
  return true;
}
bool Ctx::begin(const std::string& id) {
  if (!mine()) return false;
  return begin_(id);
}
void Ctx::note(const std::string& s) {
  size_t n = std::min(s.size(), sizeof(g_sh->note) - 1);
  memcpy(g_sh->note, s.data(), n);
  g_sh->note[n] = 0;
}
void Ctx::fail(const std::string& key, const std::string& msg) {
  failedInCase = true;
  failCount++;
  g_sh->failures = g_sh->failures + 1;
  if (!g_failKeys->insert(hashStr(key)).second) return; // one report per key and worker
  if (g_failKeys->size() > 200) return;
  std::string line = enc(caseId) + "\t" + enc(key) + "\t" + enc(msg) + "\n";
  ssize_t r = write(g_failFd, line.data(), line.size());
  (void)r;
}
void Ctx::state(uint64_t h) { g_states->insert(h); }
void Ctx::transition(uint64_t n) { g_sh->transitions = g_sh->transitions + n; }
void Ctx::trace(uint64_t n) { g_sh->traces = g_sh->traces + n; }
void Ctx::eval(uint64_t n) { g_sh->evals = g_sh->evals + n; }
void Ctx::outcome(const std::string& l) { (*g_outcomes)[l]++; }
void Ctx::sample(const std::string& s) {
  if (g_samples->size() < 3) g_samples->push_back(s.substr(0, 1200));
}
void Ctx::capped(const std::string& why) { g_caps->insert(why); }

namespace {

// fork one worker; returns pid
pid_t spawn(const std::function<void(Ctx&)>& body, bool thorough, int seed, Shared* sh, int worker, int nworkers,
            uint64_t resume, bool only, const std::string& onlyId, double limit, const std::string& failFile,
            bool verbose) {
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p) return p;
  g_sh = sh;
  g_worker = worker;
  g_nworkers = nworkers;
  g_resumeFrom = resume;
  g_onlyMode = only;
  g_only = onlyId;
  g_limit = limit;
  g_states = new std::unordered_set<uint64_t>();
  g_outcomes = new std::map<std::string, uint64_t>();
  g_samples = new std::vector<std::string>();
  g_caps = new std::set<std::string>();
  g_failKeys = new std::set<uint64_t>();
  g_failFd = open(failFile.c_str(), O_CREAT | O_APPEND | O_WRONLY, 0644);
  if (!verbose) {
    int fd = open((g_dir + "/w" + std::to_string(worker) + ".log").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    // the code under test may be chatty; keep the log bounded
    struct rlimit rl = {1 << 26, 1 << 26};
    (void)rl;
  }
  sh->inCase = 0;
  Ctx ctx;
  ctx.thorough = thorough;
  ctx.seed = seed;
  int code = 0;
  bool more = true;
  while (more) {
    more = false;
    try {
      body(ctx);
    } catch (const CaseAbort&) {
      code = 9; // harness must catch these itself
    } catch (const std::exception& e) {
      ctx.fail("uncaught-exception:" + ctx.caseId, std::string("uncaught exception: ") + e.what() + " note: " + sh->note);
      code = 7;
    } catch (...) {
      ctx.fail("uncaught-exception:" + ctx.caseId, std::string("uncaught unknown exception; note: ") + sh->note);
      code = 7;
    }
  }
  flushWorker();
  if (only && !g_onlyFound) code = 8;
  fflush(stdout);
  fflush(stderr);
  _exit(code);
}

std::vector<std::string> splitTab(const std::string& l) {
  std::vector<std::string> r(1);
  for (char c : l) {
    if (c == '\t')
      r.emplace_back();
    else
      r.back() += c;
  }
  return r;
}

std::string sigName(int st) {
  if (WIFEXITED(st)) return "exit code " + std::to_string(WEXITSTATUS(st));
  int s = WTERMSIG(st);
  if (s == SIGPROF) return "hang (CPU limit for one case exceeded)";
  return std::string("crash: ") + strsignal(s);
}

Shared* newShared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(p, 0, sizeof(Shared));
  return (Shared*)p;
}

struct Failure {
  std::string caseId, key, msg;
};

} // namespace

int run(int argc, char** argv, const Options& opts, const std::function<void(Ctx&)>& body) {
  g_opts = opts;
  double t0 = now();
  bool thorough = false;
  int seed = 1;
  int nworkers = 0;
  std::string verif = ".";
  std::string only;
  bool haveOnly = false, list = false;
  double wallGuard = 0;
  if (const char* s = getenv("VERIF_SEED")) seed = atoi(s);
  if (const char* s = getenv("VERIF_TIER")) thorough = std::string(s) == "thorough";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--tier" && i + 1 < argc) thorough = std::string(argv[++i]) == "thorough";
    else if (a == "--verif" && i + 1 < argc) verif = argv[++i];
    else if (a == "--workers" && i + 1 < argc) nworkers = atoi(argv[++i]);
    else if (a == "--guard" && i + 1 < argc) wallGuard = atof(argv[++i]);
    else if (a == "--only" && i + 1 < argc) { only = argv[++i]; haveOnly = true; }
    else if (a == "--list") list = true;
  }
  (void)list;
  if (nworkers <= 0) {
    nworkers = (int)sysconf(_SC_NPROCESSORS_ONLN);
    if (nworkers < 1) nworkers = 1;
    if (nworkers > opts.maxWorkers) nworkers = opts.maxWorkers;
  }
  if (wallGuard <= 0) wallGuard = thorough ? 6 * 3600 : 600;

  // no core files, bounded log
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);

  char tmpl[] = "/tmp/mcXXXXXX";
  g_dir = mkdtemp(tmpl);
  auto cleanup = [&]() {
    std::string cmd = "rm -rf '" + g_dir + "'";
    if (system(cmd.c_str())) {}
  };

  if (haveOnly) {
    Shared* sh = newShared();
    std::string ff = g_dir + "/replay.fail";
    pid_t p = spawn(body, thorough, seed, sh, 0, 1, 0, true, only, opts.caseCpuLimit * 3, ff, true);
    int st;
    waitpid(p, &st, 0);
    bool bad = false;
    std::ifstream in(ff);
    std::string l;
    while (std::getline(in, l)) {
      auto f = splitTab(l);
      if (f.size() >= 3) {
        std::cout << "FAIL key=" << dec(f[1]) << "\n  case " << dec(f[0]) << "\n  " << dec(f[2]) << "\n";
        bad = true;
      }
    }
    if (WIFSIGNALED(st)) {
      std::cout << "FAIL " << sigName(st) << " note: " << sh->note << "\n";
      bad = true;
    } else if (WEXITSTATUS(st) == 8) {
      std::cout << "case not found: " << only << "\n";
      cleanup();
      return 2;
    }
    if (!bad) std::cout << "case passes: " << only << "\n";
    cleanup();
    return bad ? 1 : 0;
  }

  g_deadline = t0 + wallGuard;
  std::vector<Shared*> sh(nworkers);
  std::vector<pid_t> pids(nworkers);
  std::vector<int> crashes(nworkers, 0), hangs(nworkers, 0);
  std::string ff = g_dir + "/fail";
  std::vector<Failure> fails;
  bool internalError = false;
  std::string internalMsg;
  for (int w = 0; w < nworkers; w++) {
    sh[w] = newShared();
    pids[w] = spawn(body, thorough, seed, sh[w], w, nworkers, 0, false, "", opts.caseCpuLimit, ff, false);
  }
  int alive = nworkers;
  while (alive > 0) {
    int st;
    pid_t p = wait(&st);
    if (p < 0) break;
    int w = -1;
    for (int i = 0; i < nworkers; i++)
      if (pids[i] == p) w = i;
    if (w < 0) continue;
    bool resume = false;
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
      if (!sh[w]->inCase) {
        internalError = true;
        internalMsg = "worker ended outside any case: " + sigName(st);
      } else {
        if (WIFSIGNALED(st) || WEXITSTATUS(st) != 7) {
          Failure f;
          f.caseId = sh[w]->caseId;
          f.key = std::string("abnormal:") + sh[w]->caseId;
          std::string logTail;
          {
            std::ifstream lf(g_dir + "/w" + std::to_string(w) + ".log", std::ios::binary);
            std::string all((std::istreambuf_iterator<char>(lf)), std::istreambuf_iterator<char>());
            if (all.size() > 1500) {
              size_t q = all.find("ERROR: AddressSanitizer");
              all = q != std::string::npos ? all.substr(q, 1500) : all.substr(all.size() - 1500);
            }
            logTail = all;
          }
          f.msg = sigName(st) + " during: " + sh[w]->note + "\n" + logTail;
          fails.push_back(f);
        }
        crashes[w]++;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) hangs[w]++;
        resume = crashes[w] <= 12 && hangs[w] < 2 && now() - t0 < 300;
        if (!resume) fails.push_back({sh[w]->caseId, "abnormal-too-many", "too many abnormal ends or hangs in one worker; remaining cases of this worker skipped"});
      }
    }
    if (resume) {
      uint64_t from = sh[w]->curIndex + 1;
      pids[w] = spawn(body, thorough, seed, sh[w], w, nworkers, from, false, "", opts.caseCpuLimit, ff, false);
    } else {
      alive--;
    }
  }
  // collect
  {
    std::ifstream in(ff);
    std::string l;
    while (std::getline(in, l)) {
      auto f = splitTab(l);
      if (f.size() >= 3) fails.push_back({dec(f[0]), dec(f[1]), dec(f[2])});
    }
  }
  uint64_t cases = 0, transitions = 0, traces = 0, evals = 0;
  for (int w = 0; w < nworkers; w++) {
    cases += sh[w]->cases;
    transitions += sh[w]->transitions;
    traces += sh[w]->traces;
    evals += sh[w]->evals;
  }
  std::map<std::string, uint64_t> outcomes;
  std::vector<std::string> samples;
  std::set<std::string> caps;
  std::vector<uint64_t> states;
  {
    std::string cmd = "ls '" + g_dir + "'";
    FILE* pf = popen(cmd.c_str(), "r");
    char buf[4096];
    std::vector<std::string> names;
    while (fgets(buf, sizeof buf, pf)) {
      std::string n = buf;
      while (!n.empty() && n.back() == '\n') n.pop_back();
      names.push_back(n);
    }
    pclose(pf);
    for (auto& n : names) {
      if (n.size() > 4 && n.substr(n.size() - 4) == ".out") {
        std::ifstream in(g_dir + "/" + n);
        std::string l;
        while (std::getline(in, l)) {
          auto f = splitTab(l);
          if (f[0] == "O") outcomes[dec(f[2])] += strtoull(f[1].c_str(), nullptr, 10);
          if (f[0] == "S") samples.push_back(dec(f[1]));
          if (f[0] == "C") caps.insert(dec(f[1]));
        }
      }
      if (n.size() > 7 && n.substr(n.size() - 7) == ".states") {
        std::ifstream in(g_dir + "/" + n, std::ios::binary);
        std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        size_t k = all.size() / 8;
        size_t o = states.size();
        states.resize(o + k);
        memcpy(states.data() + o, all.data(), k * 8);
      }
    }
  }
  std::sort(states.begin(), states.end());
  states.erase(std::unique(states.begin(), states.end()), states.end());

  // replay before report (each distinct key once, shortest case id first)
  std::sort(fails.begin(), fails.end(), [](const Failure& a, const Failure& b) {
    if (a.caseId.size() != b.caseId.size()) return a.caseId.size() < b.caseId.size();
    if (a.caseId != b.caseId) return a.caseId < b.caseId;
    return a.key < b.key;
  });
  std::vector<Failure> uniq;
  std::set<std::string> seenKeys;
  for (auto& f : fails)
    if (seenKeys.insert(f.key).second) uniq.push_back(f);

  if (const char* df = getenv("MC_DUMPFAILS")) { // development aid
    std::ofstream o(df);
    for (auto& f : uniq) o << f.key << "\t" << f.msg << "\n";
  }

  // known findings
  std::map<std::string, std::string> known; // key -> description
  {
    std::ifstream in(verif + "/known_findings.txt");
    std::string l;
    std::string pre = "known: property=" + opts.property + " key=";
    while (std::getline(in, l)) {
      if (l.compare(0, pre.size(), pre) == 0) {
        size_t a = pre.size();
        size_t b = l.find(" :: ", a);
        if (b == std::string::npos) continue;
        known[l.substr(a, b - a)] = l.substr(b + 4);
      }
    }
  }
  std::vector<Failure> reported;
  std::set<std::string> knownSeen;
  int unconfirmed = 0;
  std::map<std::string, int> caseVerdict;
  for (auto& f : uniq) {
    if (known.count(f.key)) {
      knownSeen.insert(f.key);
      continue;
    }
    if (reported.size() >= 10 || (!reported.empty() && now() - t0 > 200)) continue;
    int verdict = -1;
    auto it = caseVerdict.find(f.caseId);
    if (it != caseVerdict.end())
      verdict = it->second;
    else {
      verdict = 0;
      for (int attempt = 0; attempt < 3 && !verdict; attempt++) {
        Shared* s2 = newShared();
        std::string rf = g_dir + "/replay.fail";
        unlink(rf.c_str());
        double saved = g_deadline;
        g_deadline = 0;
        pid_t p = spawn(body, thorough, seed, s2, 100, 1, 0, true, f.caseId, opts.caseCpuLimit * 2, rf, false);
        g_deadline = saved;
        int st;
        waitpid(p, &st, 0);
        if (WIFSIGNALED(st)) verdict = 1;
        std::ifstream in(rf);
        std::string l;
        if (std::getline(in, l)) verdict = 1;
        munmap(s2, sizeof(Shared));
      }
      caseVerdict[f.caseId] = verdict;
    }
    if (verdict)
      reported.push_back(f);
    else
      unconfirmed++;
  }
  for (auto& kv : known) {
    // every listed finding is re-checked by the enumeration; say whether it was seen
    std::cout << "KNOWN-FINDING: property=" << opts.property << " " << kv.second
              << (knownSeen.count(kv.first) ? "" : " (not reproduced in this run)") << "\n";
  }

  // evidence
  double wall = now() - t0;
  std::ostringstream ev;
  ev << "{\n \"property\": \"" << opts.property << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick")
     << "\",\n \"seed\": " << seed << ",\n \"level\": \"" << opts.level << "\",\n \"coverage\": {\n";
  ev << "  \"cases\": " << cases << ",\n";
  if (opts.level == "model_checking") {
    ev << "  \"states\": " << states.size() << ",\n";
    ev << "  \"transitions\": " << transitions << ",\n";
    ev << "  \"traces_validated_against_impl\": " << traces << ",\n";
    if (evals) ev << "  \"oracle_evaluations\": " << evals << ",\n";
  } else {
    ev << "  \"evaluations\": " << evals << ",\n";
    ev << "  \"distinct_nontrivial\": " << states.size() << ",\n";
  }
  ev << "  \"rule\": \"" << jesc(opts.rule) << "\",\n";
  ev << "  \"exhaustive\": " << ((opts.exhaustive && caps.empty()) ? "true" : "false") << ",\n";
  if (!caps.empty()) {
    ev << "  \"capped\": [";
    bool first = true;
    for (auto& c : caps) {
      ev << (first ? "" : ",") << "\"" << jesc(c) << "\"";
      first = false;
    }
    ev << "],\n";
  }
  ev << "  \"outcomes\": {";
  {
    bool first = true;
    int n = 0;
    for (auto& kv : outcomes) {
      if (n++ > 200) break;
      ev << (first ? "" : ", ") << "\"" << jesc(kv.first.substr(0, 120)) << "\": " << kv.second;
      first = false;
    }
  }
  ev << "},\n  \"samples\": [";
  {
    bool first = true;
    int n = 0;
    for (auto& s : samples) {
      if (n++ >= 12) break;
      ev << (first ? "" : ",\n   ") << "\"" << jesc(s) << "\"";
      first = false;
    }
  }
  ev << "]\n },\n \"assumptions\": [";
  for (size_t i = 0; i < opts.assumptions.size(); i++) ev << (i ? ", " : "") << "\"" << jesc(opts.assumptions[i]) << "\"";
  ev << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << reported.size() << "\n}\n";
  if (mkdir((verif + "/evidence").c_str(), 0755)) {}
  {
    std::ofstream f(verif + "/evidence/" + opts.property + ".json");
    f << ev.str();
  }
  std::cout << opts.property << ": cases=" << cases << " states=" << states.size() << " transitions=" << transitions
            << " traces=" << traces << " evals=" << evals << " wall=" << wall << "s";
  if (!caps.empty()) std::cout << " CAPPED";
  if (unconfirmed) std::cout << " unconfirmed=" << unconfirmed;
  std::cout << "\n";
  int rc = 0;
  if (!reported.empty()) {
    rc = 1;
    mkdir((verif + "/build").c_str(), 0755);
    mkdir((verif + "/build/replay").c_str(), 0755);
    int n = 0;
    for (auto& f : reported) {
      std::string path = "build/replay/" + opts.property + "-" + std::to_string(n++) + ".json";
      std::ofstream r(verif + "/" + path);
      r << "{\"property\": \"" << opts.property << "\", \"tier\": \"" << (thorough ? "thorough" : "quick") << "\", \"case\": \""
        << jesc(f.caseId) << "\", \"key\": \"" << jesc(f.key) << "\", \"message\": \"" << jesc(f.msg) << "\"}\n";
      std::cout << "VIOLATION property=" << opts.property << " replay=" << path << "\n";
      std::cout << "  key: " << f.key.substr(0, 400) << "\n  case: " << f.caseId.substr(0, 600) << "\n  " << f.msg.substr(0, 1500) << "\n";
    }
  }
  if (internalError && rc == 0) {
    std::cout << "INTERNAL: " << internalMsg << "\n";
    rc = 3;
  }
  if (cases == 0 && rc == 0) {
    std::cout << "INTERNAL: no case was explored\n";
    rc = 3;
  }
  cleanup();
  return rc;
}
} // namespace mc
