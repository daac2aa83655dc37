#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {
int g_tier_thorough = 0;

static std::vector<Harness>& hs() { static std::vector<Harness> v; return v; }
int reg(const Harness& h) { hs().push_back(h); return (int)hs().size(); }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

std::string Case::text() const {
  std::string o = "cfg";
  for (auto x : cfg) o += " " + std::to_string(x);
  o += "\n";
  for (auto& t : thr) {
    o += "thread\n";
    for (auto& p : t) {
      char b[128];
      snprintf(b, sizeof b, "op %u %llu %llu %llu\n", p.k, (unsigned long long)p.a, (unsigned long long)p.b, (unsigned long long)p.c);
      o += b;
    }
  }
  return o;
}
Case Case::parse(const std::string& s) {
  Case c; std::istringstream in(s); std::string l;
  while (std::getline(in, l)) {
    std::istringstream w(l); std::string h; w >> h;
    if (h == "cfg") { uint64_t x; while (w >> x) c.cfg.push_back(x); }
    else if (h == "thread") c.thr.emplace_back();
    else if (h == "op") { Op p{}; w >> p.k >> p.a >> p.b >> p.c; if (c.thr.empty()) c.thr.emplace_back(); c.thr.back().push_back(p); }
  }
  return c;
}
uint64_t Case::hash() const {
  uint64_t h = 0x1234567;
  auto f = [&](uint64_t x) { h = Rng::mix(h ^ x); };
  for (auto x : cfg) f(x);
  for (auto& t : thr) { f(0xabcdef); for (auto& p : t) { f(p.k); f(p.a); f(p.b); f(p.c); } }
  return h;
}

// ---------------------------------------------------------------- shared slots
struct Slot {
  std::atomic<uint64_t> idx;       // current case
  std::atomic<uint64_t> started;   // ns, 0 = none
  std::atomic<uint64_t> done;      // cases finished in this batch
  std::atomic<uint32_t> failed;
  char msg[4096];
};
static Slot* g_slot = nullptr;     // in the child
static std::string g_notes;

void note(const char* fmt, ...) {
  char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (g_notes.size() < 2000) { g_notes += b; g_notes += "\n"; }
}
void fail(const char* fmt, ...) {
  char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (g_slot) {
    uint32_t z = 0;
    if (g_slot->failed.compare_exchange_strong(z, 1)) {
      snprintf(g_slot->msg, sizeof g_slot->msg, "%s%s%s", b, g_notes.empty() ? "" : "\n", g_notes.c_str());
      g_slot->failed.store(2);
    }
  } else fprintf(stderr, "FAIL: %s\n", b);
  _exit(77);
}

static Slot* newslot() {
  void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return new (p) Slot();
}
static void resetslot(Slot* s) { s->idx = 0; s->started = 0; s->done = 0; s->failed = 0; s->msg[0] = 0; }
static uint64_t nowns() { return (uint64_t)(now() * 1e9); }

struct Cfg {
  uint64_t seed = 1; int workers = 8; uint64_t cases = 1000; double time = 30; std::string out, replay, dir = ".", prop = "X", only;
  double shrink_time = 25; uint64_t rss_mb = 3000; std::string target;
};
static Cfg C;

static Case genCase(const Harness& h, int hi, uint64_t idx) {
  Rng r(Rng::mix(C.seed * 1000003ull + hi * 7919ull) ^ Rng::mix(idx + 17));
  // sizes cycle so that small and big cases are both frequent, whatever the number of cases
  static const int sz[] = {5, 10, 20, 30, 45, 60, 80, 100};
  return h.gen(r, sz[idx % 8]);
}

static uint64_t rss_mb(pid_t p) {
  char b[64]; snprintf(b, sizeof b, "/proc/%d/statm", (int)p);
  FILE* f = fopen(b, "r"); if (!f) return 0;
  unsigned long long a = 0, r = 0; int n = fscanf(f, "%llu %llu", &a, &r); fclose(f);
  return n == 2 ? r * 4096 / 1048576 : 0;
}

enum { OK = 0, ORACLE, CRASH, HANG, MEM, HARNESS_ERR };
static const char* kindname[] = {"ok", "oracle", "crash", "hang", "memory", "harness"};
struct Result { int kind = OK; std::string msg; };

static std::string tailfile(const std::string& p, size_t n) {
  std::ifstream f(p); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
  // the head of a sanitizer report is what explains it
  size_t e = s.find("ERROR: "); if (e != std::string::npos) s = s.substr(e);
  if (s.size() > n) s = s.substr(0, n);
  return s;
}

#if !defined(__SANITIZE_ADDRESS__)
#include <execinfo.h>
static void on_crash(int sig) {
  void* b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2);
  signal(sig, SIG_DFL); raise(sig);
}
static void crash_handlers() {
  void* warm[2]; backtrace(warm, 2);
  static char st[65536]; stack_t ss{}; ss.ss_sp = st; ss.ss_size = sizeof st; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
}
#else
static void crash_handlers() {}
#endif
static void child_setup(const std::string& errfile) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  rlimit z{0, 0}; setrlimit(RLIMIT_CORE, &z);
  int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
  crash_handlers();
  int dn = open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 1); close(dn); }
}

// runs one case (or a batch prefix ending in it) in a child
static Result run_isolated(const Harness& h, const std::vector<Case>& cs, double timeout) {
  static Slot* s = newslot();
  resetslot(s);
  std::string err = C.dir + "/.err-" + std::to_string(getpid());
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); return {HARNESS_ERR, "fork"}; }
  if (p == 0) {
    child_setup(err);
    setpgid(0, 0);
    g_slot = s;
    for (auto& c : cs) { Obs o; s->started = nowns(); g_notes.clear(); h.run(c, o); s->started = 0; }
    _exit(0);
  }
  double t0 = now(); Result r; int st = 0;
  uint64_t laststart = 0; double laststart_t = t0;
  for (;;) {
    pid_t w = waitpid(p, &st, WNOHANG);
    if (w == p) break;
    if (w < 0 && errno != EINTR) break;
    uint64_t ss = s->started; if (ss != laststart) { laststart = ss; laststart_t = now(); }
    if (now() - laststart_t > timeout) { kill(p, SIGKILL); waitpid(p, &st, 0); r.kind = HANG; r.msg = "no result after " + std::to_string((int)timeout) + " s"; unlink(err.c_str()); return r; }
    if (rss_mb(p) > C.rss_mb) { kill(p, SIGKILL); waitpid(p, &st, 0); r.kind = MEM; r.msg = "memory use above " + std::to_string(C.rss_mb) + " MB"; unlink(err.c_str()); return r; }
    usleep(now() - t0 < 0.05 ? 500 : 3000);
  }
  if (s->failed) { r.kind = ORACLE; r.msg = s->msg; }
  else if (WIFSIGNALED(st)) { r.kind = CRASH; r.msg = std::string("killed by signal ") + strsignal(WTERMSIG(st)) + "\n" + tailfile(err, 2500); }
  else if (WEXITSTATUS(st)) { r.kind = CRASH; r.msg = "exit " + std::to_string(WEXITSTATUS(st)) + "\n" + tailfile(err, 2500); }
  unlink(err.c_str());
  return r;
}
static Result run_one(const Harness& h, const Case& c, int tries, double timeout) {
  Result r;
  for (int i = 0; i < tries; ++i) { r = run_isolated(h, {c}, timeout); if (r.kind != OK) return r; }
  return r;
}

static Case shrink(const Harness& h, Case best, Result& br, double budget) {
  double t0 = now();
  int tries = h.concurrent ? 6 : 1;
  double to = br.kind == HANG ? std::min(h.timeout, 5.0) : h.timeout;
  auto left = [&] { return now() - t0 < budget; };
  auto attempt = [&](const Case& c) {
    if (!left()) return false;
    Result r = run_one(h, c, tries, to);
    bool bad = r.kind == br.kind || (r.kind != OK && r.kind != HANG && br.kind != HANG);
    if (bad) { best = c; br = r; }
    return bad;
  };
  bool progress = true;
  while (progress && left()) {
    progress = false;
    for (size_t t = best.thr.size(); t-- > 0 && left();) {   // whole threads
      if (best.thr[t].empty()) continue;
      Case c = best; c.thr[t].clear();
      if (attempt(c)) progress = true;
    }
    for (size_t t = 0; t < best.thr.size() && left(); ++t) {  // chunks
      size_t n = best.thr[t].size();
      for (size_t ch = std::max<size_t>(1, n / 2);; ch /= 2) {
        for (size_t i = 0; i < best.thr[t].size() && left();) {
          Case c = best; auto& v = c.thr[t];
          v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + ch));
          if (attempt(c)) progress = true; else i += ch;
        }
        if (ch == 1 || !left()) break;
      }
    }
    if (best.size() <= 60)
      for (size_t t = 0; t < best.thr.size() && left(); ++t)
        for (size_t i = 0; i < best.thr[t].size() && left(); ++i)
          for (int f = 0; f < 3 && left(); ++f) {
            auto get = [&](Case& c) -> uint64_t& { Op& o = c.thr[t][i]; return f == 0 ? o.a : f == 1 ? o.b : o.c; };
            uint64_t cur = get(best);
            for (uint64_t nv : {(uint64_t)0, (uint64_t)1, cur & 0xff, cur & 0xffff, cur / 2, cur - 1}) {
              if (nv >= get(best)) continue;
              Case c = best; get(c) = nv;
              if (attempt(c)) { progress = true; break; }
            }
          }
    for (size_t i = 0; i < best.cfg.size() && left(); ++i)
      for (uint64_t nv : {(uint64_t)0, (uint64_t)1, best.cfg[i] / 2}) {
        if (nv >= best.cfg[i]) continue;
        Case c = best; c.cfg[i] = nv;
        if (attempt(c)) { progress = true; break; }
      }
  }
  return best;
}

static std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}
static std::string sample_text(const Harness& h, const Case& c, size_t maxops = 14) {
  std::string o = "cfg=["; bool f = true;
  for (auto x : c.cfg) { o += (f ? "" : ",") + std::to_string(x); f = false; }
  o += "]";
  for (size_t t = 0; t < c.thr.size(); ++t) {
    o += " t" + std::to_string(t) + ":";
    size_t n = 0;
    for (auto& p : c.thr[t]) {
      if (n++ == maxops) { o += " ...(" + std::to_string(c.thr[t].size()) + " ops)"; break; }
      std::string nm = p.k < h.opnames.size() ? h.opnames[p.k] : "op" + std::to_string(p.k);
      char b[160]; snprintf(b, sizeof b, " %s(%llu,%llu,%llu)", nm.c_str(), (unsigned long long)p.a, (unsigned long long)p.b, (unsigned long long)p.c);
      o += b;
    }
  }
  return o;
}

static std::string write_replay(const Harness& h, const Case& c, const Result& r, const std::string& origin) {
  char fn[512]; snprintf(fn, sizeof fn, "%s/%s-%s-%016llx.case", C.dir.c_str(), C.prop.c_str(), h.name.c_str(), (unsigned long long)c.hash());
  std::ofstream f(fn);
  f << "harness " << h.name << "\ntarget " << C.target << "\nproperty " << C.prop << "\n";
  f << "# kind: " << kindname[r.kind] << "\n# origin: " << origin << "\n";
  std::istringstream in(r.msg); std::string l; while (std::getline(in, l)) f << "# " << l << "\n";
  f << "# readable: " << sample_text(h, c, 80) << "\n";
  f << c.text();
  return fn;
}

struct Worker { pid_t pid = 0; Slot* s = nullptr; int hi = 0; uint64_t b0 = 0, b1 = 0; double idx_seen = 0; uint64_t idx = ~0ull; std::string err, stat; };

// statistics lines a child appends: "h <hash>" for non-trivial cases, "l name n" for labels
static void child_batch(const Harness& h, int hi, uint64_t b0, uint64_t b1, Slot* s, const std::string& stat, double deadline) {
  g_slot = s;
  FILE* f = fopen(stat.c_str(), "a");
  std::map<std::string, uint64_t> lab;
  uint64_t nt = 0;
  std::vector<uint64_t> hashes;
  for (uint64_t i = b0; i < b1; ++i) {
    if (now() > deadline) break;
    s->idx = i;
    Case c = genCase(h, hi, i);
    Obs o; g_notes.clear();
    s->started = nowns();
    h.run(c, o);
    s->started = 0;
    s->done++;
    if (o.nt) { ++nt; hashes.push_back(c.hash()); }
    for (auto& kv : o.labels) lab[kv.first] += kv.second;
  }
  if (f) {
    for (auto x : hashes) fprintf(f, "h %llu\n", (unsigned long long)x);
    for (auto& kv : lab) fprintf(f, "l %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
    fclose(f);
  }
  _exit(0);
}

static const Harness* find(const std::string& n) { for (auto& h : hs()) if (h.name == n) return &h; return nullptr; }

static int do_replay() {
  std::ifstream f(C.replay); std::stringstream ss; ss << f.rdbuf(); std::string t = ss.str();
  std::string name; { size_t p = t.find("harness "); if (p != std::string::npos) { size_t e = t.find('\n', p); name = t.substr(p + 8, e - p - 8); } }
  const Harness* h = find(name);
  if (!h) { fprintf(stderr, "no harness %s\n", name.c_str()); return 2; }
  Case c = Case::parse(t);
  int n = h->concurrent ? 60 : 3, bad = 0; Result last;
  for (int i = 0; i < n; ++i) { Result r = run_isolated(*h, {c}, h->timeout); if (r.kind != OK) { ++bad; last = r; if (bad >= 3) break; } }
  if (bad) { printf("REPLAY FAILS %d time(s): %s: %s\n", bad, kindname[last.kind], last.msg.c_str()); return 1; }
  printf("REPLAY PASSES\n");
  return 0;
}

int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto v = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") C.seed = strtoull(v().c_str(), 0, 10);
    else if (a == "--workers") C.workers = atoi(v().c_str());
    else if (a == "--cases") C.cases = strtoull(v().c_str(), 0, 10);
    else if (a == "--time") C.time = atof(v().c_str());
    else if (a == "--out") C.out = v();
    else if (a == "--dir") C.dir = v();
    else if (a == "--prop") C.prop = v();
    else if (a == "--only") C.only = v();
    else if (a == "--target") C.target = v();
    else if (a == "--shrink") C.shrink_time = atof(v().c_str());
    else if (a == "--replay") C.replay = v();
    else if (a == "--thorough") g_tier_thorough = 1;
    else if (a == "--dump") { std::string hn = v(); uint64_t ix = strtoull(v().c_str(), 0, 10); for (size_t q = 0; q < hs().size(); ++q) if (hs()[q].name == hn) printf("harness %s\n%s", hn.c_str(), genCase(hs()[q], (int)q, ix).text().c_str()); return 0; }
    else if (a == "--list") { for (auto& h : hs()) printf("%s\n", h.name.c_str()); return 0; }
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
  }
  mkdir(C.dir.c_str(), 0755);
  if (!C.replay.empty()) return do_replay();
  double t0 = now(), deadline = t0 + C.time;
  // plan: cases split over harnesses by weight, interleaved in batches so that a deadline cuts all alike
  struct Job { int hi; uint64_t b0, b1; double frac; };
  std::vector<Job> jobs; unsigned tw = 0;
  for (auto& h : hs()) if (C.only.empty() || h.name == C.only) tw += h.weight;
  if (!tw) { fprintf(stderr, "no harness\n"); return 2; }
  std::vector<uint64_t> planned(hs().size(), 0);
  for (size_t hi = 0; hi < hs().size(); ++hi) {
    auto& h = hs()[hi]; if (!C.only.empty() && h.name != C.only) continue;
    uint64_t n = std::max<uint64_t>(1, C.cases * h.weight / tw); planned[hi] = n;
    uint64_t B = std::max<uint64_t>(1, std::min<uint64_t>(h.batch, (n + C.workers - 1) / C.workers));
    for (uint64_t b = 0; b < n; b += B) jobs.push_back({(int)hi, b, std::min(n, b + B), (double)b / n});
  }
  std::stable_sort(jobs.begin(), jobs.end(), [](const Job& a, const Job& b) { return a.frac < b.frac; });
  size_t nextjob = 0; uint64_t evals = 0;
  std::vector<uint64_t> hevals(hs().size(), 0);
  std::vector<Worker> ws(C.workers);
  std::string base = C.dir + "/.w" + std::to_string(getpid());
  for (int i = 0; i < C.workers; ++i) { ws[i].s = newslot(); ws[i].err = base + ".err" + std::to_string(i); ws[i].stat = base + ".stat" + std::to_string(i); unlink(ws[i].stat.c_str()); }
  int fkind = OK; Worker fw; Result fr;
  auto start = [&](Worker& w) {
    if (nextjob >= jobs.size() || now() > deadline) return false;
    Job& j = jobs[nextjob++]; resetslot(w.s);
    w.hi = j.hi; w.b0 = j.b0; w.b1 = j.b1; w.idx = ~0ull; w.idx_seen = now();
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(3); }
    if (p == 0) { child_setup(w.err); child_batch(hs()[j.hi], j.hi, j.b0, j.b1, w.s, w.stat, deadline); }
    w.pid = p; return true;
  };
  for (;;) {
    bool any = false; 
    for (auto& w : ws) {
      if (!w.pid) { if (!start(w)) continue; }
      any = true; int st = 0;
      pid_t r = waitpid(w.pid, &st, WNOHANG);
      if (r == w.pid) {
        w.pid = 0; evals += w.s->done; hevals[w.hi] += w.s->done;
        if (w.s->failed || st != 0) {
          fw = w; 
          if (w.s->failed) { fkind = ORACLE; fr.msg = w.s->msg; }
          else if (WIFSIGNALED(st)) { fkind = CRASH; fr.msg = std::string("killed by ") + strsignal(WTERMSIG(st)) + "\n" + tailfile(w.err, 2500); }
          else { fkind = CRASH; fr.msg = "exit " + std::to_string(WEXITSTATUS(st)) + "\n" + tailfile(w.err, 2500); }
        }
      } else {
        uint64_t id = w.s->idx.load() * 2 + (w.s->started.load() ? 1 : 0);
        if (id != w.idx) { w.idx = id; w.idx_seen = now(); }
        else if (w.s->started.load() && now() - w.idx_seen > hs()[w.hi].timeout) {
          kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0); w.pid = 0; fw = w; fkind = HANG; fr.msg = "no result after " + std::to_string((int)hs()[w.hi].timeout) + " s";
        } else if (rss_mb(w.pid) > C.rss_mb) {
          kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0); w.pid = 0; fw = w; fkind = MEM; fr.msg = "memory use above " + std::to_string(C.rss_mb) + " MB";
        }
      }
      if (fkind) break;
    }
    if (fkind || !any) break;
    usleep(2000);
  }
  for (auto& w : ws) if (w.pid) { kill(w.pid, SIGKILL); int st; waitpid(w.pid, &st, 0); evals += w.s->done; hevals[w.hi] += w.s->done; }
  std::unordered_set<uint64_t> nth; std::map<std::string, uint64_t> lab; 
  for (auto& w : ws) {
    std::ifstream f(w.stat); std::string k; 
    while (f >> k) { if (k == "h") { uint64_t x; f >> x; nth.insert(x); } else { std::string n; uint64_t x; f >> n >> x; lab[n] += x; } }
    unlink(w.stat.c_str()); unlink(w.err.c_str());
  }
  int rc = 0; std::string replay, vmsg; uint64_t viol = 0;
  if (fkind) {
    const Harness& h = hs()[fw.hi]; fr.kind = fkind;
    uint64_t idx = fw.s->idx;
    Case c = genCase(h, fw.hi, idx);
    std::string origin = "seed " + std::to_string(C.seed) + " harness " + h.name + " case " + std::to_string(idx);
    printf("failing case: %s: %s: %.1500s\n", origin.c_str(), kindname[fkind], fr.msg.c_str());
    // confirm: alone, three times (repeated more often when really parallel)
    int n = h.concurrent ? 40 : 3, bad = 0; Result cr; double cto = fkind == HANG ? h.timeout * 1.5 : h.timeout; double c0 = now();
    for (int i = 0; i < n && now() - c0 < 120; ++i) { Result r = run_isolated(h, {c}, cto); if (r.kind != OK) { ++bad; cr = r; if (bad >= 3 || fkind == HANG) break; } }
    bool report = false;
    if (bad) { Case m = shrink(h, c, cr, C.shrink_time); replay = write_replay(h, m, cr, origin + ", shrunk; reproduced " + std::to_string(bad) + "x alone"); vmsg = cr.msg; report = true; }
    else {
      // state of the process (heap contents) may matter: replay the batch up to the case
      std::vector<Case> pre; for (uint64_t i = fw.b0; i <= idx; ++i) pre.push_back(genCase(h, fw.hi, i));
      Result r = run_isolated(h, pre, cto);
      bool batch = r.kind != OK;
      if (batch || fkind == ORACLE || (fkind == CRASH && fr.msg.find("signal 9") == std::string::npos && fr.msg.find("Killed") == std::string::npos) || (h.concurrent && fkind == HANG)) {
        replay = write_replay(h, c, batch ? r : fr, origin + (batch ? ", reproduced with the cases before it in the same process" : ", seen once, not reproduced alone"));
        vmsg = batch ? r.msg : fr.msg; report = true;
      } else printf("not reproduced: discarded (%s)\n", kindname[fkind]);
    }
    if (report) { viol = 1; rc = 1; printf("%s\n", vmsg.c_str()); printf("VIOLATION property=%s replay=%s\n", C.prop.c_str(), replay.c_str()); }
  }
  if (!C.out.empty()) {
    std::ofstream f(C.out);
    f << "{\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << nth.size() << ",\"violations\":" << viol << ",\"wall_s\":" << (now() - t0);
    f << ",\"planned\":" << C.cases << ",\"replay\":\"" << esc(replay) << "\",\"harnesses\":[";
    bool first = true;
    for (size_t hi = 0; hi < hs().size(); ++hi) {
      auto& h = hs()[hi]; if (!planned[hi]) continue;
      f << (first ? "" : ",") << "{\"name\":\"" << h.name << "\",\"rule\":\"" << esc(h.rule) << "\",\"evaluations\":" << hevals[hi] << ",\"planned\":" << planned[hi] << ",\"samples\":[";
      first = false;
      for (int k = 0; k < 2; ++k) { uint64_t id = k == 0 ? 0 : std::min<uint64_t>(planned[hi] - 1, 11); f << (k ? "," : "") << "\"" << esc(sample_text(h, genCase(h, (int)hi, id))) << "\""; }
      f << "]}";
    }
    f << "],\"labels\":{"; first = true;
    for (auto& kv : lab) { f << (first ? "" : ",") << "\"" << esc(kv.first) << "\":" << kv.second; first = false; }
    f << "}}\n";
  }
  printf("%s: %llu cases, %zu distinct non-trivial, %.1f s%s\n", C.target.c_str(), (unsigned long long)evals, nth.size(), now() - t0, rc ? " FAILED" : "");
  return rc;
}
}  // namespace pbt
int main(int argc, char** argv) { return pbt::main(argc, argv); }
