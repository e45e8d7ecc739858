#include "pbt.hh"

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char *__asan_default_options()
{ return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:handle_segv=1:detect_stack_use_after_return=0:quarantine_size_mb=32:malloc_context_size=8"; }
extern "C" const char *__ubsan_default_options()
{ return "print_stacktrace=0:halt_on_error=1:exitcode=99"; }
extern "C" const char *__tsan_default_options()
{ return "exitcode=99:halt_on_error=1:report_signal_unsafe=0"; }

namespace pbt {

  uint64_t *Gen::s_log = nullptr;

  static double now()
  {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
  }

  static const int CASE_CPU_S = 20;      // CPU seconds allowed per case
  static const double CASE_WALL_S = 150; // wall seconds allowed per case (blocked forever)

  static const double BLOCKED_S = 40;    // seconds without any CPU use: blocked

  struct Shared { // in shared memory, one per child
    volatile long current;
    volatile double caseStart;
    volatile long done;
    volatile int racy;
    volatile long beats;
  };

  static Shared *g_sh = nullptr;
  void racy() { if (g_sh) g_sh->racy = 1; }
  void heartbeat() { if (g_sh) g_sh->beats = g_sh->beats + 1; }

  // Clock ticks used by a process; -1 if unknown.
  static long cpuTicks(pid_t pid)
  {
    char b[64], buf[2048];
    snprintf(b, sizeof b, "/proc/%d/stat", (int) pid);
    int fd = open(b, O_RDONLY);
    if (fd < 0) return -1;
    ssize_t n = read(fd, buf, sizeof buf - 1);
    close(fd);
    if (n <= 0) return -1;
    buf[n] = 0;
    char *q = strrchr(buf, ')');
    long u, s;
    if (!q || sscanf(q + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %ld %ld", &u, &s) != 2) return -1;
    return u + s;
  }

  // Tells when a process has stopped for good.  Only time this process saw
  // pass in small steps counts, so a pause of the whole machine does not.
  struct Watch {
    double last = -1, idle = 0, sampled = 0;
    long ticks = -2, beats = -1, done = -1;
    bool blocked(pid_t pid, Shared const *sh)
    {
      double t = now();
      if (last >= 0) idle += std::min(t - last, 0.05);
      last = t;
      if (t - sampled < 0.5) return false;
      sampled = t;
      long k = cpuTicks(pid);
      if (k != ticks || sh->beats != beats || sh->done != done) {
        ticks = k; beats = sh->beats; done = sh->done;
        idle = 0;
      }
      return idle > BLOCKED_S;
    }
  };

  struct Opt {
    std::string prop, tier = "quick", replay, out, replayDir = ".", known, scratch = "/tmp";
    uint64_t seed = 1;
    long cases = -1;
    double time = -1;
    int jobs = 8;
    bool noshrink = false;
    long only = -1;
    bool list = false;
  };

  static Opt O;
  static std::string g_scratch;

  static std::string jstr(std::string const &s)
  {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
      else if (c == '\n') r += "\\n";
      else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += (char) c;
    }
    return r + "\"";
  }

  static uint64_t caseSeed(long i) { return mix(mix(O.seed) ^ mix((uint64_t) i * 2 + 1)); }

  static void armTimer()
  {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = CASE_CPU_S;
    setitimer(ITIMER_PROF, &it, nullptr); // SIGPROF kills
    signal(SIGPROF, SIG_DFL);
  }

  enum Res { OK, FAIL, CRASH, HANG, DISC, KNOWN };

  struct CaseResult { Res res = OK; std::string msg, signature, sample; std::vector<uint64_t> choices; };

  // Run one case in this process.
  static CaseResult runHere(Prop const &p, Gen &g, Ctx &ctx)
  {
    CaseResult r;
    try {
      p.fn(g, ctx);
    }
    catch (Discard const &) { r.res = DISC; }
    catch (Failure const &f) { r.res = FAIL; r.msg = f.msg; }
    catch (std::exception const &e) { r.res = FAIL; r.msg = std::string("unexpected exception: ") + e.what(); }
    catch (...) { r.res = FAIL; r.msg = "unexpected exception of unknown type"; }
    r.signature = ctx.signature;
    r.sample = ctx.sample;
    r.choices = g.choices();
    return r;
  }

  static std::string readFile(std::string const &f, size_t max = 1 << 20)
  {
    std::ifstream is(f, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
    if (s.size() > max) s.resize(max);
    return s;
  }

  static void quiet(std::string const &errFile)
  {
    int fd = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
  }

  static std::string summariseCrash(std::string const &err, int status)
  {
    std::ostringstream os;
    if (WIFSIGNALED(status)) os << "process killed by signal " << WTERMSIG(status) << " (" << strsignal(WTERMSIG(status)) << ")";
    else os << "process exited abnormally with status " << WEXITSTATUS(status);
    // the interesting lines of a sanitizer report
    std::istringstream is(err);
    std::string line;
    int n = 0;
    while (std::getline(is, line) && n < 14)
      if (line.find("ERROR:") != std::string::npos || line.find("runtime error") != std::string::npos
          || line.find("WARNING: ThreadSanitizer") != std::string::npos
          || line.find("Assert") != std::string::npos || line.find("terminate called") != std::string::npos
          || line.find("what()") != std::string::npos
          || (line.find("    #") == 0 && n > 0)) { os << "\n  " << line; ++n; }
    return os.str();
  }

  // Run one case, given by its choices (or a sequence of cases), in a child.
  struct Job { bool seq = false; std::vector<uint64_t> choices; long start = 0, index = 0; bool racy = false; };

  static CaseResult runForked(Prop const &p, Job const &job)
  {
    static int serial = 0;
    static uint64_t *log = (uint64_t *) mmap(nullptr, sizeof(uint64_t) * (Gen::LOG_MAX + 1), PROT_READ | PROT_WRITE,
                                             MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    log[0] = 0;
    static Shared *sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *) sh, 0, sizeof *sh);
    std::string base = g_scratch + "/one" + std::to_string(getpid()) + "_" + std::to_string(serial++);
    std::string errF = base + ".err", resF = base + ".res";
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
      setpgid(0, 0);
      quiet(errF);
      g_sh = sh;
      if (p.init) p.init();
      CaseResult r;
      if (job.seq) {
        for (long i = job.start; i <= job.index; ++i) {
          armTimer();
          log[0] = 0;
          Gen::s_log = (i == job.index) ? log : nullptr;
          Gen g(caseSeed(i));
          Ctx c;
          c.verbose = (i == job.index);
          r = runHere(p, g, c);
          if (r.res == FAIL && i < job.index) break; // fails even earlier
        }
      }
      else {
        armTimer();
        Gen g(job.choices);
        Ctx c;
        c.verbose = true;
        r = runHere(p, g, c);
      }
      std::ofstream os(resF, std::ios::binary);
      os << (int) r.res << "\n" << r.msg.size() << "\n" << r.msg << r.sample.size() << "\n" << r.sample
         << r.signature.size() << "\n" << r.signature << r.choices.size();
      for (uint64_t c : r.choices) os << ' ' << c;
      os << "\n";
      os.close();
      _exit(0);
    }
    setpgid(pid, pid);
    int status = 0;
    double t0 = now();
    double limit = job.seq && job.start < job.index ? 400 : CASE_WALL_S;
    bool killed = false;
    Watch watch;
    for (;;) {
      pid_t w = waitpid(pid, &status, WNOHANG);
      if (w == pid) break;
      if (now() - t0 > limit || watch.blocked(pid, sh)) { kill(pid, SIGKILL); killed = true; waitpid(pid, &status, 0); break; }
      usleep(now() - t0 < 0.05 ? 300 : 3000);
    }
    kill(-pid, SIGKILL);
    CaseResult r;
    if (killed || (WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF)) {
      r.res = HANG;
      r.msg = killed ? "case did not finish (blocked)" : "case did not finish (over CPU limit)";
    }
    else if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
      r.res = CRASH;
      r.msg = summariseCrash(readFile(errF), status);
    }
    else {
      std::ifstream is(resF, std::ios::binary);
      int k; size_t n;
      auto blob = [&](std::string &s) { is >> n; is.get(); s.resize(n); is.read(&s[0], (std::streamsize) n); };
      is >> k;
      r.res = (Res) k;
      blob(r.msg); blob(r.sample); blob(r.signature);
      is >> n;
      r.choices.resize(n);
      for (size_t i = 0; i < n; ++i) is >> r.choices[i];
    }
    if (job.seq && r.res != FAIL && r.choices.empty())
      r.choices.assign(log + 1, log + 1 + log[0]);
    if (!job.seq && r.choices.empty()) r.choices = job.choices;
    unlink(errF.c_str());
    unlink(resF.c_str());
    return r;
  }

  static bool bad(Res r) { return r == FAIL || r == CRASH || r == HANG; }

  static std::set<std::string> g_known; // signatures

  static bool isBad(CaseResult const &r)
  {
    return bad(r.res) && !(r.signature.size() && g_known.count(r.signature));
  }

  // Shrink by running candidates in parallel children; accept any failing candidate.
  static std::vector<uint64_t> shrink(Prop const &p, std::vector<uint64_t> best, double budget, CaseResult &last, long &tried)
  {
    double tEnd = now() + budget;
    auto test = [&](std::vector<uint64_t> const &c) -> bool {
      ++tried;
      Job j; j.choices = c;
      CaseResult r = runForked(p, j);
      if (!isBad(r)) return false;
      if (r.res == FAIL && r.choices.size() <= c.size()) best = r.choices; // normalised
      else best = c;
      // drop trailing zeros: they are implied
      while (!best.empty() && best.back() == 0) best.pop_back();
      last = r;
      return true;
    };
    // truncate first
    bool progress = true;
    while (progress && now() < tEnd) {
      progress = false;
      // remove chunks
      for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1 && now() < tEnd; len /= 2) {
        for (size_t i = 0; i + len <= best.size() && now() < tEnd;) {
          std::vector<uint64_t> c(best);
          c.erase(c.begin() + (long) i, c.begin() + (long) (i + len));
          size_t before = best.size();
          if (test(c) && best.size() < before) progress = true;
          else i += len;
        }
        if (len == 1) break;
      }
      // zero chunks
      for (size_t len = std::max<size_t>(best.size() / 4, 1); len >= 1 && now() < tEnd; len /= 2) {
        for (size_t i = 0; i + len <= best.size() && now() < tEnd; i += len) {
          std::vector<uint64_t> c(best);
          bool any = false;
          for (size_t k = i; k < i + len; ++k) { if (c[k]) any = true; c[k] = 0; }
          if (any && test(c)) progress = true;
        }
        if (len == 1) break;
      }
      // reduce single values
      for (size_t i = 0; i < best.size() && now() < tEnd; ++i) {
        for (int k = 0; k < 3 && i < best.size() && best[i]; ++k) {
          std::vector<uint64_t> c(best);
          c[i] = k == 0 ? best[i] / 2 : best[i] - 1;
          if (c[i] == best[i]) break;
          if (test(c)) progress = true; else if (k) break;
        }
      }
    }
    return best;
  }

  struct Totals {
    long eval = 0, discarded = 0, nontrivialTotal = 0, known = 0, unreproduced = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, long> labels;
    std::vector<std::string> samples;
  };

  static void writeEvidence(Prop const &p, Totals const &t, double wall, int violations)
  {
    if (O.out.empty()) return;
    std::ostringstream os;
    os << "{\n \"property\": " << jstr(p.id) << ",\n \"tier\": " << jstr(O.tier) << ",\n \"seed\": " << O.seed
       << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << t.eval
       << ",\n  \"distinct_nontrivial\": " << t.distinct.size()
       << ",\n  \"nontrivial_total\": " << t.nontrivialTotal
       << ",\n  \"discarded\": " << t.discarded
       << ",\n  \"excluded_known_findings\": " << t.known
       << ",\n  \"unreproduced_failures\": " << t.unreproduced
       << ",\n  \"rule\": " << jstr(p.rule) << ",\n  \"distribution\": {";
    bool first = true;
    for (auto const &l : t.labels) { os << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; }
    os << "},\n  \"samples\": [";
    first = true;
    for (auto const &s : t.samples) { os << (first ? "\n   " : ",\n   ") << jstr(s); first = false; }
    os << "]\n },\n \"assumptions\": [";
    first = true;
    for (auto const &s : p.assumptions) { os << (first ? "" : ", ") << jstr(s); first = false; }
    os << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    std::string tmp = O.out + ".tmp" + std::to_string(getpid());
    { std::ofstream f(tmp); f << os.str(); }
    rename(tmp.c_str(), O.out.c_str());
  }

  static std::string writeReplay(Prop const &p, Job const &j, CaseResult const &r)
  {
    mkdir(O.replayDir.c_str(), 0777);
    uint64_t h = 1469598103934665603ull;
    for (uint64_t c : j.choices) { h ^= c; h *= 1099511628211ull; }
    if (j.seq) h = mix((uint64_t) j.index ^ O.seed);
    char b[40];
    snprintf(b, sizeof b, "%016llx", (unsigned long long) h);
    std::string f = O.replayDir + "/" + p.id + "-" + b + ".replay";
    std::ofstream os(f);
    os << "property " << p.id << "\n";
    if (j.seq) os << "sequence " << O.seed << ' ' << j.start << ' ' << j.index << "\n";
    else {
      os << "choices " << j.choices.size();
      for (uint64_t c : j.choices) os << ' ' << c;
      os << "\n";
    }
    if (j.racy) os << "racy\n";
    os << "# outcome: " << (r.res == FAIL ? "property violated" : r.res == CRASH ? "crash" : "hang") << "\n";
    std::istringstream ms(r.msg + "\n--- case ---\n" + r.sample);
    std::string line;
    while (std::getline(ms, line)) os << "# " << line << "\n";
    return f;
  }

  static int report(Prop const &p, Job const &j, CaseResult const &r)
  {
    std::string f = writeReplay(p, j, r);
    std::cout << "FAILED " << p.id << ": " << r.msg << "\n";
    if (r.sample.size()) std::cout << "--- case ---\n" << r.sample << "\n";
    std::cout << "VIOLATION property=" << p.id << " replay=" << f << std::endl;
    return 1;
  }

  static bool confirm(Prop const &p, Job const &j, CaseResult &r)
  {
    for (int i = 0; i < 3; ++i) {
      CaseResult x = runForked(p, j);
      if (!isBad(x)) return false;
      r = x;
      if (i == 1 && r.res == HANG) break; // slow
    }
    return true;
  }

  // A failure that depends on how threads interleave: try to see it again, for
  // a better description, but it counts as it is.
  static void again(Prop const &p, Job const &j, CaseResult &r, int runs, double seconds)
  {
    double t0 = now();
    for (int i = 0; i < runs && now() - t0 < seconds; ++i) {
      CaseResult x = runForked(p, j);
      if (isBad(x)) { r = x; return; }
      if (r.sample.empty()) r.sample = x.sample;
    }
  }

  static int doReplay(std::vector<Prop> const &props)
  {
    std::ifstream is(O.replay);
    std::string word, id;
    is >> word >> id >> word;
    Job j;
    if (word == "sequence") { j.seq = true; is >> O.seed >> j.start >> j.index; }
    else {
      size_t n; is >> n;
      j.choices.resize(n);
      for (auto &c : j.choices) is >> c;
    }
    if (is >> word) j.racy = word == "racy";
    for (Prop const &p : props)
      if (id == p.id) {
        CaseResult r = runForked(p, j);
        if (j.racy && !isBad(r)) again(p, j, r, 500, 120);
        std::cout << "replay of " << id << ": ";
        if (isBad(r)) {
          std::cout << r.msg << "\n--- case ---\n" << r.sample << "\n";
          std::cout << "VIOLATION property=" << p.id << " replay=" << O.replay << std::endl;
          return 1;
        }
        std::cout << (r.res == DISC ? "case discarded" : "property holds on this case") << "\n--- case ---\n" << r.sample << "\n" << r.msg << std::endl;
        return 0;
      }
    std::cerr << "no such property: " << id << "\n";
    return 2;
  }

  struct Child { pid_t pid; long start, end; Shared *sh; std::string base; Watch watch; };

  static void childMain(Prop const &p, long start, long end, Shared *sh, std::string const &base)
  {
    quiet(base + ".err");
    g_sh = sh;
    if (p.init) p.init();
    std::map<std::string, long> labels;
    long eval = 0, disc = 0, nt = 0, known = 0;
    std::vector<uint64_t> hashes;
    std::vector<std::string> samples;
    long failIdx = -1;
    CaseResult fail;
    for (long i = start; i < end; ++i) {
      sh->current = i;
      sh->caseStart = now();
      sh->racy = 0;
      armTimer();
      Gen g(caseSeed(i));
      Ctx c;
      c.verbose = (i % 997) == 0 || i == start;
      CaseResult r = runHere(p, g, c);
      sh->done = i + 1 - start;
      if (r.res == DISC) { ++disc; continue; }
      ++eval;
      for (auto const &l : c.labels) labels[l.first] += l.second;
      if (c.nontrivial) {
        ++nt;
        hashes.push_back(c.hash);
        if (c.verbose && samples.size() < 2 && c.sample.size() && c.sample.size() < 6000) samples.push_back(c.sample);
      }
      if (r.res == FAIL) {
        if (r.signature.size() && g_known.count(r.signature)) { ++known; continue; }
        failIdx = i; fail = r; break;
      }
    }
    std::ofstream os(base + ".res", std::ios::binary);
    os << eval << ' ' << disc << ' ' << nt << ' ' << known << ' ' << failIdx << "\n";
    os << labels.size() << "\n";
    for (auto const &l : labels) os << l.second << ' ' << l.first << "\n";
    os << hashes.size();
    for (uint64_t h : hashes) os << ' ' << h;
    os << "\n" << samples.size() << "\n";
    for (auto const &s : samples) os << s.size() << "\n" << s;
    os << fail.msg.size() << "\n" << fail.msg << fail.choices.size();
    for (uint64_t c : fail.choices) os << ' ' << c;
    os << "\n";
    os.close();
    _exit(0);
  }

  int main(int argc, char **argv, std::vector<Prop> const &props)
  {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if (a == "--prop") O.prop = val();
      else if (a == "--tier") O.tier = val();
      else if (a == "--seed") O.seed = strtoull(val().c_str(), nullptr, 10);
      else if (a == "--cases") O.cases = atol(val().c_str());
      else if (a == "--time") O.time = atof(val().c_str());
      else if (a == "--jobs") O.jobs = atoi(val().c_str());
      else if (a == "--out") O.out = val();
      else if (a == "--replay-dir") O.replayDir = val();
      else if (a == "--replay") O.replay = val();
      else if (a == "--known") O.known = val();
      else if (a == "--scratch") O.scratch = val();
      else if (a == "--noshrink") O.noshrink = true;
      else if (a == "--only") O.only = atol(val().c_str());
      else if (a == "--list") O.list = true;
    }
    if (O.list) { for (auto const &p : props) std::cout << p.id << "\n"; return 0; }
    {
      std::string t = O.scratch + "/pbtXXXXXX";
      std::vector<char> b(t.begin(), t.end());
      b.push_back(0);
      if (!mkdtemp(b.data())) { perror("mkdtemp"); return 2; }
      g_scratch = b.data();
    }
    struct Cleanup { ~Cleanup() { std::string c = "rm -rf -- '" + g_scratch + "'"; if (system(c.c_str())) {} } } cleanup;

    if (O.known.size()) { // lines: "<property> <signature>"
      std::ifstream is(O.known);
      std::string id, sig;
      while (is >> id >> sig)
        if (O.prop.empty() || id == O.prop) g_known.insert(sig);
    }
    if (O.replay.size()) return doReplay(props);

    Prop const *pp = nullptr;
    for (Prop const &p : props) if (O.prop == p.id) pp = &p;
    if (!pp) { std::cerr << "no such property: " << O.prop << "\n"; return 2; }
    Prop const &p = *pp;

    if (O.only >= 0) { // run one case number in this process, for debugging
      if (p.init) p.init();
      Gen g(caseSeed(O.only));
      Ctx c; c.verbose = true;
      CaseResult r = runHere(p, g, c);
      std::cout << "result " << r.res << " " << r.msg << "\n" << c.sample << "\n";
      return r.res == FAIL;
    }

    bool thorough = O.tier == "thorough";
    long total = O.cases >= 0 ? O.cases : thorough ? p.thorough : p.quick;
    double limit = O.time >= 0 ? O.time : thorough ? 600 : 240;
    double t0 = now();
    Totals T;
    std::vector<Child> kids;
    long next = 0;
    int serial = 0;
    Job failJob;
    bool failed = false;
    CaseResult failRes;
    Shared *shm = (Shared *) mmap(nullptr, sizeof(Shared) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<int> slots;
    for (int i = 0; i < O.jobs; ++i) slots.push_back(i);

    while ((next < total && !failed && now() - t0 < limit) || !kids.empty()) {
      while (!failed && next < total && (int) kids.size() < O.jobs && now() - t0 < limit) {
        Child c;
        c.start = next;
        c.end = std::min(total, next + p.chunk);
        next = c.end;
        int slot = slots.back(); slots.pop_back();
        c.sh = &shm[slot];
        c.sh->current = -1; c.sh->done = 0; c.sh->caseStart = now(); c.sh->racy = 0;
        c.base = g_scratch + "/c" + std::to_string(serial++);
        fflush(stdout);
        c.pid = fork();
        if (c.pid < 0) { perror("fork"); return 2; }
        if (c.pid == 0) { setpgid(0, 0); childMain(p, c.start, c.end, c.sh, c.base); }
        setpgid(c.pid, c.pid);
        kids.push_back(c);
      }
      bool any = false;
      for (size_t k = 0; k < kids.size();) {
        Child &c = kids[k];
        int status = 0;
        pid_t w = waitpid(c.pid, &status, WNOHANG);
        bool hung = false;
        if (w != c.pid) {
          if (now() - c.sh->caseStart > CASE_WALL_S || c.watch.blocked(c.pid, c.sh)) { kill(c.pid, SIGKILL); waitpid(c.pid, &status, 0); hung = true; }
          else { ++k; continue; }
        }
        kill(-c.pid, SIGKILL);
        any = true;
        long failIdx = -1;
        std::vector<uint64_t> choices;
        if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
          std::ifstream is(c.base + ".res", std::ios::binary);
          long eval, disc, nt, known; size_t n;
          is >> eval >> disc >> nt >> known >> failIdx;
          T.eval += eval; T.discarded += disc; T.nontrivialTotal += nt; T.known += known;
          is >> n;
          for (size_t i = 0; i < n; ++i) { long v; std::string l; is >> v; is.get(); std::getline(is, l); T.labels[l] += v; }
          is >> n;
          for (size_t i = 0; i < n; ++i) { uint64_t h; is >> h; T.distinct.insert(h); }
          is >> n;
          for (size_t i = 0; i < n; ++i) {
            size_t len; is >> len; is.get();
            std::string s(len, 0); is.read(&s[0], (std::streamsize) len);
            if (T.samples.size() < 3) T.samples.push_back(s);
          }
          size_t len; is >> len; is.get();
          failRes.res = FAIL;
          failRes.msg.resize(len); if (len) is.read(&failRes.msg[0], (std::streamsize) len);
          is >> n;
          choices.resize(n);
          for (size_t i = 0; i < n; ++i) is >> choices[i];
        }
        else {
          failIdx = c.sh->current;
          failRes = CaseResult();
          failRes.res = hung ? HANG : CRASH;
          T.eval += c.sh->done;
          failRes.msg = summariseCrash(readFile(c.base + ".err"), status);
          if (failIdx < 0) { std::cerr << "worker died before its first case: " << failRes.msg << "\n" << readFile(c.base + ".err", 4000); return 2; }
          // regenerate the choices of the crashing case: the child cannot tell us,
          // so it is identified by its number and run as a one-case sequence
        }
        unlink((c.base + ".err").c_str()); unlink((c.base + ".res").c_str());
        if (failIdx >= 0 && !failed) {
          Job j;
          CaseResult r;
          bool ok = false;
          bool ended = !hung && WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL; // by the sandbox: short of memory
          if (c.sh->racy && !ended) {
            j.racy = ok = true;
            if (choices.empty()) { j.seq = true; j.start = j.index = failIdx; }
            else j.choices = choices;
            if (hung) failRes.msg = "case did not finish (blocked)";
            r = failRes;
            again(p, j, r, 20, 60);
          }
          else if (!choices.empty() || failRes.msg.size()) {
            if (!choices.empty()) { j.choices = choices; ok = confirm(p, j, r); }
            if (!ok) { // alone, from its seed
              Job s; s.seq = true; s.start = failIdx; s.index = failIdx;
              if (confirm(p, s, r)) {
                ok = true; j = s;
                Job d; d.choices = r.choices;
                CaseResult r2;
                if (!r.choices.empty() && confirm(p, d, r2)) { j = d; r = r2; }
              }
            }
            if (!ok) { // with the cases that preceded it in its process
              Job s; s.seq = true; s.start = c.start; s.index = failIdx;
              if (confirm(p, s, r)) { ok = true; j = s; }
            }
          }
          if (ok) { failed = true; failJob = j; failRes = r; }
          else { ++T.unreproduced; std::cout << "note: a failure of case " << failIdx << " was not reproduced: " << failRes.msg << std::endl; }
        }
        slots.push_back((int) (c.sh - shm));
        kids.erase(kids.begin() + (long) k);
        if (failed) {
          for (Child &o : kids) { kill(o.pid, SIGKILL); int st; waitpid(o.pid, &st, 0); kill(-o.pid, SIGKILL); }
          kids.clear();
          break;
        }
      }
      if (!any) usleep(2000);
    }

    int rc = 0;
    if (failed) {
      if (!failJob.seq && !failJob.racy && !O.noshrink) {
        long tried = 0;
        CaseResult r = failRes;
        std::vector<uint64_t> best = shrink(p, failJob.choices, thorough ? 90 : 45, r, tried);
        Job j; j.choices = best;
        CaseResult r2;
        if (confirm(p, j, r2)) { failJob = j; failRes = r2; }
        std::cout << "shrunk to " << failJob.choices.size() << " choices in " << tried << " runs\n";
      }
      rc = report(p, failJob, failRes);
    }
    double wall = now() - t0;
    writeEvidence(p, T, wall, failed ? 1 : 0);
    std::cout << p.id << ": " << T.eval << " cases, " << T.distinct.size() << " distinct non-trivial, "
              << T.discarded << " discarded, " << T.known << " known, " << wall << " s"
              << (next < total && !failed ? " (time limit reached)" : "") << std::endl;
    for (auto const &l : T.labels) std::cout << "  " << l.first << ": " << l.second << "\n";
    return rc;
  }
}
