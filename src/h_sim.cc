// C26: the stand-alone simulator, run on generated scripts with simulated time.
#include "Agenda.hh"
#include "CommandResponseManager.hh"
#include "CommRelayBase.hh"
#include "Debug.hh"
#include "Error.hh"
#include "GenericResponse.hh"
#include "PlexilSimResponseFactory.hh"
#include "ResponseFactory.hh"
#include "ResponseMessage.hh"
#include "Simulator.hh"
#include "SimulatorScriptReader.hh"
#include "genval.hh"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fstream>
#include <functional>
#include <memory>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
using namespace PLEXIL;
typedef int64_t Us; // microseconds

namespace sim {
  static bool on = false, armed = false, pending = false;
  static Us now = 0, expiry = 0, jitter = 0, late = 0;
  static pbt::Gen *g = nullptr;
  static std::function<bool()> step;     // advance the clock to the next event and deal with it; false when all is over
  static void tick() { if (jitter) now += g->range(0, jitter); if (armed && expiry <= now) { armed = false; pending = true; } }
  static void to(Us t) { if (t > now) now = t; if (armed && expiry <= now) { armed = false; pending = true; } }
}
extern "C" {
  int __real_gettimeofday(struct timeval *, void *);
  int __real_setitimer(int, const struct itimerval *, struct itimerval *);
  int __real_getitimer(int, struct itimerval *);
  int __real_sigwait(const sigset_t *, int *);
  int __wrap_gettimeofday(struct timeval *t, void *z)
  {
    if (!sim::on) return __real_gettimeofday(t, z);
    sim::tick(); t->tv_sec = sim::now / 1000000; t->tv_usec = sim::now % 1000000; return 0;
  }
  int __wrap_setitimer(int w, const struct itimerval *n, struct itimerval *o)
  {
    if (!sim::on) return __real_setitimer(w, n, o);
    if (w != ITIMER_REAL || n->it_value.tv_usec < 0 || n->it_value.tv_usec >= 1000000 || n->it_value.tv_sec < 0) { errno = EINVAL; return -1; }
    sim::tick();
    sim::armed = n->it_value.tv_sec || n->it_value.tv_usec;
    sim::expiry = sim::now + (Us) n->it_value.tv_sec * 1000000 + n->it_value.tv_usec;
    return 0;
  }
  int __wrap_getitimer(int w, struct itimerval *o)
  {
    if (!sim::on) return __real_getitimer(w, o);
    sim::tick();
    Us left = sim::armed ? sim::expiry - sim::now : 0;
    o->it_interval.tv_sec = o->it_interval.tv_usec = 0; o->it_value.tv_sec = left / 1000000; o->it_value.tv_usec = left % 1000000;
    return 0;
  }
  int __wrap_sigwait(const sigset_t *s, int *sig)
  {
    if (!sim::on) return __real_sigwait(s, sig);
    if (!sigismember(s, SIGALRM) || !sigismember(s, SIGTERM)) { *sig = SIGKILL; return EINVAL; }
    while (!sim::pending) if (!sim::step()) { *sig = SIGTERM; return 0; }
    sim::pending = false; *sig = SIGALRM;
    return 0;
  }
}

// ---------------------------------------------------------------- scripts
static const char *HANDLES[] = {"COMMAND_SENT_TO_SYSTEM", "COMMAND_ACCEPTED", "COMMAND_RCVD_BY_SYSTEM", "COMMAND_FAILED", "COMMAND_DENIED", "COMMAND_SUCCESS"};
static const CommandHandleValue HV[] = {COMMAND_SENT_TO_SYSTEM, COMMAND_ACCEPTED, COMMAND_RCVD_BY_SYSTEM, COMMAND_FAILED, COMMAND_DENIED, COMMAND_SUCCESS};

struct Resp { int n; Us delay; MVal v; };
struct Telem { std::string name; Us delay; MVal v; };
struct Cmd { std::map<long, Resp> by; int seen = 0; };
struct Sym { std::string name; bool cmd; ValueType t; };
struct Script {
  std::map<std::string, Cmd> cmds;
  std::vector<Telem> tel;
  std::vector<Sym> syms;
  bool repeated = false;
};

struct Writer { // one script file
  pbt::Gen &g; std::string out;
  explicit Writer(pbt::Gen &gg) : g(gg) {}
  void noise()
  {
    static const char *C[] = {"", "#", "# a comment", "   ", "\t", "  # indented x 1 1 1.0", "; x 1.0", "// Real Lookup y", "*** x 2.0", "#5", "(note) 7"};
    while (g.chance(1, 4)) out += std::string(g.pick(C)) + "\n";
  }
  void valueNoise() { static const char *C[] = {"", "# a comment", "  # 17", "   ", "; true"}; while (g.chance(1, 6)) out += std::string(g.pick(C)) + "\n"; }
  std::string sp() { static const char *S[] = {" ", " ", "  ", "\t", "   \t "}; return g.pick(S); }
  void line(std::vector<std::string> const &w)
  {
    if (g.chance(1, 6)) out += g.chance(1, 2) ? "  " : "\t";
    for (size_t k = 0; k < w.size(); ++k) out += (k ? sp() : std::string()) + w[k];
    out += "\n";
  }
};

static std::string delayText(pbt::Gen &g, Us &d)
{
  static const Us edge[] = {0, 1000000, 500000, 2000000, 10, 999990, 1000010, 250000, 1999990, 3000000, 100, 10000000, 60000000, 3600000000ll, 86400000000ll * 400};
  d = g.chance(1, 3) ? 10 * g.range(0, 500000) : g.pick(edge); // different ones stay different at the resolution of the simulator's clock, a microsecond
  char b[64]; std::string s;
  switch (g.draw(4)) {
  case 0: snprintf(b, sizeof b, "%lld.%06lld", (long long) (d / 1000000), (long long) (d % 1000000)); s = b; break;
  case 1: // shortest
    snprintf(b, sizeof b, "%lld.%06lld", (long long) (d / 1000000), (long long) (d % 1000000)); s = b;
    while (s.back() == '0') s.pop_back();
    if (s.back() == '.') s.pop_back();
    break;
  case 2: snprintf(b, sizeof b, "%llde-6", (long long) d); s = b; break;
  default: snprintf(b, sizeof b, "%lld.%06lld0000", (long long) (d / 1000000), (long long) (d % 1000000)); s = b; break;
  }
  return s;
}

static std::string valueText(pbt::Gen &g, ValueType t, bool cmd, MVal &v)
{
  char b[64];
  if (cmd && (t == UNKNOWN_TYPE || g.chance(1, 6))) { size_t k = g.draw(6); v = MVal(); v.known = true; v.t = COMMAND_HANDLE_TYPE; v.code = HV[k]; return HANDLES[k]; }
  if (t != STRING_TYPE && g.chance(1, 12)) { v = MVal(); v.t = UNKNOWN_TYPE; v.known = false; return "UNKNOWN"; }
  switch (t) {
  case BOOLEAN_TYPE: { static const char *T[] = {"true", "1", "TRUE", "True"}, *F[] = {"false", "0", "FALSE", "False"}; bool x = g.chance(1, 2); v = MVal::boolean(x); return x ? g.pick(T) : g.pick(F); }
  case INTEGER_TYPE: { int32_t x = genInt(g); v = MVal::integer(x); std::string s = std::to_string(x); if (x > 0 && g.chance(1, 8)) s = "+" + s; else if (x > 0 && g.chance(1, 8)) { snprintf(b, sizeof b, "0x%x", x); s = b; } return (g.chance(1, 8) ? "  " : "") + s; }
  case REAL_TYPE: {
    double x = genReal(g); if (!std::isfinite(x)) x = 0.25;
    static const char *F[] = {"%.17g", "%.17e", "%.17g", "%a"};
    snprintf(b, sizeof b, g.pick(F), x); std::string s = b;
    if (g.chance(1, 8)) { static const char *E[] = {".5", "-.5", "+1", "5.", "1E3", "-0"}; s = g.pick(E); x = strtod(s.c_str(), nullptr); }
    v = MVal::real(x); return (g.chance(1, 8) ? " " : "") + s; }
  case STRING_TYPE: {
    static const char first[] = "aZ09_-+.\"'x"; static const char rest[] = "abc XYZ 019 #;,.()[]<>&\"'\\/_-+=:\t~%\xc3\xa9";
    std::string s(1, first[g.draw(sizeof first - 1)]); size_t n = g.weighted({1, 2, 1}) * g.draw(20);
    for (size_t k = 0; k < n; ++k) s += rest[g.draw(sizeof rest - 1)];
    if (s.size() > 1 && (s.back() == ' ' || s.back() == '\t')) s.back() = '.';
    if (g.chance(1, 60)) s += std::string(g.range(200, 5000), 'y') + "z";
    v = MVal::string(s); return s; }
  default: PBT_FAIL("no values of this type"); }
}

static void entry(Writer &w, Script &sc, Sym const &s)
{
  pbt::Gen &g = w.g;
  Us d; std::string dt = delayText(g, d);
  if (s.cmd) {
    static const long N[] = {1, 0, 2, 1, 3, 4, 5, 7, 2147483647};
    long idx = g.pick(N); int n = g.weighted({2, 12, 1, 1}); if (n == 3) n = 1000;
    Cmd &c = sc.cmds[s.name];
    if (c.by.count(idx)) { if (idx == 0) return; sc.repeated = true; }
    w.line({s.name, std::to_string(idx), std::to_string(n), dt});
    MVal v;
    if (n) { w.valueNoise(); w.out += valueText(g, s.t, true, v) + "\n"; }
    c.by.emplace(idx, Resp{n, d, v}); // a repeated index is ignored
  }
  else {
    w.line({s.name, dt});
    MVal v; w.valueNoise(); w.out += valueText(g, s.t, false, v) + "\n";
    sc.tel.push_back(Telem{s.name, d, v});
  }
}

static std::string bad(Writer &w, Script &sc, bool &last) // an element which is wrong wherever it stands
{
  pbt::Gen &g = w.g; last = false;
  std::vector<Sym> L, C;
  for (Sym &s : sc.syms) (s.cmd ? C : L).push_back(s);
  switch (g.draw(8)) {
  case 0: w.line({"undeclared", "1.0"}); w.out += "5\n"; return "undeclared name";
  case 1: w.line({"Real", "Function", "x9"}); return "not a declaration";
  case 2: { Sym s = g.pick(sc.syms); w.line({"Real", g.chance(1, 2) ? "Lookup" : "Command", s.name}); return "declared twice"; }
  case 3: if (g.chance(1, 2)) w.line({"Real", g.chance(1, 2) ? "Lookup" : "Command"}); else w.line({"Command"}); return "declaration without a name";
  case 4: {
    static const char *D[] = {"", "soon", "-1", "-0.5", "1e300", "nan", "inf", "."};
    std::string d = g.pick(D);
    if (L.empty() || (!C.empty() && g.chance(1, 2))) { Sym s = g.pick(C); MVal v; w.line({s.name, "1", "1", d}); w.out += valueText(g, s.t, true, v) + "\n"; }
    else { Sym s = g.pick(L); MVal v; w.line({s.name, d}); w.out += valueText(g, s.t, false, v) + "\n"; }
    return "delay '" + d + "'"; }
  case 5: if (!C.empty()) {
    static const char *I[][2] = {{"first", "1"}, {"-1", "1"}, {"1", "-1"}, {"4294967297", "1"}, {"1", "4294967297"}, {"1", "one"}, {"2147483648", "1"}, {"99999999999999999999999", "1"}};
    auto &i = g.pick(I); Sym s = g.pick(C); MVal v; w.line({s.name, i[0], i[1], "1.0"}); w.out += valueText(g, s.t, true, v) + "\n"; return std::string("index and responses ") + i[0] + " " + i[1]; }
    // fall through
  case 6: {
    for (int k = 0; k < 8; ++k) {
      Sym s = g.pick(sc.syms);
      if (s.t == STRING_TYPE) continue;
      static const char *B[] = {"maybe", "2", "truer", "10"}, *N[] = {"12x", "99999999999", "2147483648", "1.5", "five", "-2147483649", "--1"}, *R[] = {"abc", "1.5.2", "1e400", "1,5", "0x", "- 1"}, *U[] = {"5", "true", "COMMAND_OOPS", "hello"};
      std::string t = s.t == BOOLEAN_TYPE ? g.pick(B) : s.t == INTEGER_TYPE ? g.pick(N) : s.t == REAL_TYPE ? g.pick(R) : g.pick(U);
      if (!s.cmd && g.chance(1, 5)) t = g.pick(HANDLES);
      if (s.cmd) w.line({s.name, "1", "1", "1.0"}); else w.line({s.name, "1.0"});
      w.out += t + "\n";
      return "value '" + t + "' of " + valueTypeName(s.t);
    }
    w.line({"undeclared", "1.0"}); w.out += "5\n"; return "undeclared name"; }
  default: {
    Sym s = g.pick(sc.syms); last = true;
    if (s.cmd) w.line({s.name, "1", "1", "1.0"}); else w.line({s.name, "1.0"});
    if (g.chance(1, 2)) w.out += "# nothing\n\n";
    return "value missing"; }
  }
}

struct File { // what is written to it can be read by name
  int fd; std::string name;
  explicit File(std::string const &s) : fd(memfd_create("script", 0))
  {
    PBT_CHECK(fd >= 0, "memfd_create");
    name = "/proc/self/fd/" + std::to_string(fd);
    size_t k = 0; while (k < s.size()) { ssize_t n = write(fd, s.data() + k, s.size() - k); PBT_CHECK(n > 0, "write"); k += n; }
  }
  ~File() { close(fd); }
};

struct Sent { std::string name; Value v; void *id; int type; Us at; };
struct Relay : CommRelayBase {
  std::vector<Sent> got;
  std::map<std::string, Value> cur;
  Relay() : CommRelayBase("verif") {}
  void sendResponse(const ResponseMessage *m) override
  {
    got.push_back(Sent{m->getName(), m->getValue(), m->getId(), m->getMessageType(), sim::now});
    if (m->getMessageType() == MSG_TELEMETRY) cur[m->getName()] = m->getValue();
    delete m;
    PBT_CHECK(got.size() < 5000, "messages without end");
  }
  Simulator *simulator() { return m_Simulator; }
};
static bool sameValue(Value const &a, Value const &b) { return a.isKnown() == b.isKnown() && (!a.isKnown() || (a.valueType() == b.valueType() && a.equals(b))); }

struct Expected { std::string name; MVal v; void *id; int type; Us due; Us base; Us delay; };

static void c26(pbt::Gen &g, pbt::Ctx &ctx)
{
  sim::on = false; sim::armed = sim::pending = false; sim::jitter = sim::late = 0; sim::g = &g;
  static const ValueType T[] = {INTEGER_TYPE, REAL_TYPE, BOOLEAN_TYPE, STRING_TYPE};
  static const char *NAMES[] = {"a", "Move", "x", "b2", "LongerName_With_Parts", "y", "9lives", "c.d", "Commander", "lookup", "RealTime", "t3"};
  enum { NEW, OLD, UNIFIED, TWO } form = (decltype(NEW)) g.weighted({8, 1, 1, 1});
  size_t mode = g.weighted({8, form == NEW ? 3u : 0u, 2}); // well formed, malformed, anything
  Script sc; std::vector<std::string> files; std::string wrong; bool last = false;
  std::vector<std::string> names(NAMES, NAMES + sizeof NAMES / sizeof *NAMES);
  auto newSym = [&](bool cmd, ValueType t) { size_t k = g.draw(names.size()); Sym s{names[k], cmd, t}; names.erase(names.begin() + k); sc.syms.push_back(s); return s; };
  { // scripts
    Writer w(g);
    if (form == NEW) {
      size_t n = 1 + g.draw(10), left = 1 + g.draw(6), badAt = mode == 1 ? g.draw(n + 1) : n + 1;
      auto declare = [&] {
        bool cmd = g.chance(1, 2); ValueType t = cmd && g.chance(1, 5) ? UNKNOWN_TYPE : T[g.draw(4)];
        w.noise();
        Sym s = newSym(cmd, t);
        if (t == UNKNOWN_TYPE) w.line({"Command", s.name}); else w.line({valueTypeName(t), cmd ? "Command" : "Lookup", s.name});
        --left;
      };
      declare();
      while (left && g.chance(4, 5)) declare();
      for (size_t k = 0; k <= n; ++k) {
        w.noise();
        if (k == badAt) { wrong = bad(w, sc, last); if (last) break; continue; }
        if (k == n) break;
        if (left && g.chance(1, 8)) declare();
        entry(w, sc, g.pick(sc.syms));
      }
      w.noise();
    }
    else {
      size_t n = 1 + g.draw(4);
      std::vector<Sym> cs, ls;
      for (size_t k = 0; k < n; ++k) cs.push_back(newSym(true, REAL_TYPE));
      if (form != OLD) for (size_t k = 0; k < n; ++k) ls.push_back(newSym(false, REAL_TYPE));
      auto commands = [&] { for (size_t k = 0; k < 1 + n; ++k) { w.noise(); entry(w, sc, g.pick(cs)); } };
      auto telemetry = [&] { for (size_t k = 0; k < 1 + n; ++k) { w.noise(); entry(w, sc, g.pick(ls)); } };
      if (form == UNIFIED) {
        bool tel = g.chance(1, 2);
        for (size_t parts = 2 + g.draw(2); parts--; tel = !tel) { w.noise(); w.line({tel ? "BEGIN_TELEMETRY" : "BEGIN_COMMANDS"}); if (tel) telemetry(); else commands(); }
      }
      else {
        if (g.chance(1, 2)) { w.noise(); w.line({"BEGIN_COMMANDS"}); }
        commands();
        if (form == TWO) { w.noise(); files.push_back(w.out); w.out.clear(); telemetry(); }
        w.noise();
      }
    }
    if (g.chance(1, 4) && !w.out.empty() && w.out.back() == '\n') w.out.pop_back();
    files.push_back(w.out);
  }
  if (mode == 2) { // any text at all
    std::string &s = files[g.draw(files.size())];
    static const char *X[] = {"UNKNOWN", "\n", "Real", "Lookup", "Command", "BEGIN_TELEMETRY", "BEGIN_COMMANDS", "RealArray", "-1", "99999999999999999999", "nan", "Date", "COMMAND_SUCCESS", " ", "StringArray Lookup a\na 1\n1 2\n", "Array", "\"", "inf"};
    for (size_t k = 1 + g.draw(6); k--; ) {
      size_t at = g.draw(s.size() + 1);
      switch (g.draw(5)) {
      case 0: if (at < s.size()) s.erase(at, 1 + g.draw(8)); break;
      case 1: s.insert(at, g.pick(X)); break;
      case 2: if (at < s.size()) s[at] = (char) g.draw(256); break;
      case 3: if (g.chance(1, 4)) s.resize(at); break;
      default: { size_t e = s.find('\n', at); if (e != std::string::npos && e + 1 < s.size()) { size_t f = s.find('\n', e + 1); s.insert(g.draw(s.size()), s.substr(e + 1, f == std::string::npos ? f : f - e)); } break; }
      }
    }
  }
  std::string txt;
  for (std::string const &f : files) txt += (txt.empty() ? "" : "\n--- telemetry script\n") + f;
  if (!wrong.empty()) txt += "\n--- wrong: " + wrong;
  ctx.sample = txt; ctx.addHash(txt);

  // declared first so that they outlive the simulator
  Relay relay;
  ResponseManagerMap *map = new ResponseManagerMap; Agenda *agenda = makeAgenda();
  std::unique_ptr<Simulator> s(makeSimulator(&relay, map, agenda)); // owns both
  bool ok = true;
  {
    std::unique_ptr<SimulatorScriptReader> r(makeScriptReader(map, agenda, makePlexilSimResponseFactory()));
    for (size_t k = 0; k < files.size() && ok; ++k) {
      File f(files[k]);
      try { ok = r->readScript(f.name, k > 0); }
      catch (std::exception const &e) { PBT_FAIL("reading the script ended with an exception: " << e.what() << "\n" << txt); }
    }
  }
  if (mode == 1) { PBT_CHECK(!ok, "a malformed script was accepted\n" << txt); ctx.nontrivial = true; ctx.label("malformed"); return; }
  if (mode == 0) PBT_CHECK(ok, "a script was refused\n" << txt);
  if (!ok) { ctx.label("mutant refused"); ctx.nontrivial = true; return; }
  bool judge = mode == 0;
  ctx.label(judge ? "replayed" : "mutant replayed");

  // events
  Us start = 1500000000000000ll + 10 * g.range(0, 200000);
  std::vector<Expected> want;
  for (Telem const &t : sc.tel) want.push_back(Expected{t.name, t.v, nullptr, MSG_TELEMETRY, start + t.delay, 0, t.delay});
  struct Event { Us at; int kind; std::string name; };
  std::vector<Event> evs; std::vector<Us> hot{0};
  for (Telem const &t : sc.tel) hot.push_back(t.delay);
  for (auto &c : sc.cmds) for (auto &r : c.second.by) hot.push_back(r.second.delay);
  size_t nev = g.draw(14); Us at = 0;
  for (size_t k = 0; k < nev; ++k) {
    switch (g.draw(4)) { case 0: break; case 1: at += 10 * g.range(0, 300000); break; case 2: { Us h = g.pick(hot); if (h > at) at = h; break; } default: at += g.pick(hot) < 20000000 ? g.pick(hot) : 1000000; }
    std::string n;
    bool q = g.chance(1, 4);
    if (g.chance(1, 10) || sc.syms.empty()) n = "nosuch"; else n = g.pick(sc.syms).name;
    evs.push_back(Event{start + at, q, n});
  }
  if (g.chance(1, 3)) { static const Us J[] = {1, 3, 50}; sim::jitter = g.pick(J); if (g.chance(1, 2)) { static const Us LATE[] = {10, 1000, 300000, 5000000}; sim::late = g.pick(LATE); } }
  size_t next = 0; uintptr_t ids = 0; bool started = false; long commands = 0, queries = 0;
  std::string h;
  sim::step = [&]() -> bool {
    started = true;
    bool ev = next < evs.size();
    if (!ev && !sim::armed) return false;
    if (sim::armed && (!ev || sim::expiry < evs[next].at || (sim::expiry == evs[next].at && g.chance(1, 2)))) { sim::to(sim::expiry + (sim::late ? g.range(0, sim::late) : 0)); return true; }
    Event const &e = evs[next++];
    sim::to(e.at); // possibly late already
    if (e.kind) {
      ++queries;
      std::unique_ptr<ResponseMessage> m(s->getLookupNowResponse(e.name, (void *) 0x77));
      auto it = relay.cur.find(e.name);
      PBT_CHECK(!m == (it == relay.cur.end()), "lookup of " << e.name << (m ? " answered without a value sent" : " not answered") << "\n" << txt);
      if (m) PBT_CHECK(m->getName() == e.name && m->getId() == (void *) 0x77 && m->getMessageType() == MSG_LOOKUP && sameValue(m->getValue(), it->second), "lookup of " << e.name << " answered by " << m->getName() << " " << m->getValue() << ", expected " << it->second << "\n" << txt);
      h += "\n@" + std::to_string(e.at - start) + " lookup " + e.name;
      return true;
    }
    ++commands; ++ids;
    auto c = sc.cmds.find(e.name);
    if (c != sc.cmds.end()) {
      ++c->second.seen;
      auto r = c->second.by.find(c->second.seen);
      if (r == c->second.by.end()) r = c->second.by.find(0);
      if (r != c->second.by.end() && r->second.n) want.push_back(Expected{e.name, r->second.v, (void *) ids, MSG_COMMAND, sim::now + r->second.delay, sim::now, r->second.delay});
    }
    h += "\n@" + std::to_string(e.at - start) + " command " + e.name;
    s->scheduleResponseForCommand(e.name, (void *) ids);
    return true;
  };
  sim::now = start; sim::on = true;
  try { s->simulatorTopLevel(); }
  catch (pbt::Failure &) { sim::on = false; (void) s.release(); throw; } // still running, as far as its destructor knows
  catch (std::exception const &e) { sim::on = false; (void) s.release(); PBT_FAIL("the simulator ended with an exception: " << e.what() << "\n" << txt << h); }
  s.reset();
  sim::on = false; sim::step = nullptr;
  ctx.sample = txt + h; ctx.addHash(h); ctx.addHash(start);
  if (!judge) return;
  PBT_CHECK(started || (want.empty() && evs.empty()), "the simulator did not wait for anything");
  for (auto &x : relay.got) { std::ostringstream o; o << "\n@" << x.at - start << " sent " << x.name << " " << x.v << " id " << x.id; h += o.str(); }

  // oracle
  Us slack = 1 + sim::late + sim::jitter * (60 + 8 * (Us) (want.size() + evs.size()));
  PBT_CHECK(relay.got.size() == want.size(), relay.got.size() << " messages sent, " << want.size() << " expected\n" << txt << h);
  std::stable_sort(want.begin(), want.end(), [](Expected const &a, Expected const &b) { return a.due < b.due; });
  std::vector<bool> used(want.size());
  Us blur = sim::jitter ? sim::jitter * 20 : 1; // how far the times due are known
  for (size_t k = 0; k < relay.got.size(); ++k) {
    Sent const &m = relay.got[k];
    // the first not yet sent with its identity
    size_t j = want.size();
    for (size_t i = 0; i < want.size(); ++i)
      if (!used[i] && want[i].name == m.name && want[i].id == m.id && want[i].type == m.type) {
        j = i; break;
      }
    PBT_CHECK(j < want.size(), "unexpected message " << m.name << " " << m.v << "\n" << txt << h);
    // nothing due clearly earlier, or given earlier for the same time, may be left out
    for (size_t i = 0; i < want.size(); ++i)
      if (!used[i] && i != j) {
        PBT_CHECK(want[i].due + blur >= want[j].due, m.name << " " << m.v << " sent before " << want[i].name << " " << mstr(want[i].v) << " which is due earlier\n" << txt << h);
        PBT_CHECK(!(i < j && want[i].due == want[j].due && want[i].type == want[j].type && want[i].base == want[j].base && want[i].delay == want[j].delay && !sim::jitter), m.name << " " << m.v << " sent before " << want[i].name << " " << mstr(want[i].v) << " given earlier for the same time\n" << txt << h);
      }
    used[j] = true;
    PBT_CHECK(same(m.v, want[j].v, true), m.name << " sent with value " << m.v << ", the script says " << mstr(want[j].v) << "\n" << txt << h);
    PBT_CHECK(m.at >= want[j].due - 1 && m.at <= want[j].due + slack, m.name << " " << m.v << " sent at " << m.at - start << ", due at " << want[j].due - start << "\n" << txt << h);
  }
  ctx.sample = txt + h;
  ctx.nontrivial = want.size() >= 2 && (commands || sc.tel.size() >= 2);
  if (sc.repeated) ctx.label("repeated index");
  if (sim::jitter) ctx.label("moving clock");
  ctx.label("messages", want.size()); ctx.label("commands", commands); ctx.label("lookups", queries);
}

static std::ofstream s_null;
static void init() { Error::doThrowExceptions(); s_null.open("/dev/null"); std::cerr.rdbuf(s_null.rdbuf()); }

int main(int argc, char **argv)
{
  return pbt::main(argc, argv, {
    {"C26", c26, 60000, 2000000, "Scripts in all forms (declared, old-style, sections, separate telemetry script) with comments, blank lines, indentation, all value types, UNKNOWN, handle names, indices, numbers of responses and delays from 0 to 400 days, replayed by the simulator with a simulated clock and timer against histories of commands (declared, undeclared, repeated, coinciding with telemetry) and lookups; malformed scripts (wrong names, declarations, delays, indices, values, missing values); randomly edited scripts. Non-trivial: at least two messages expected, or a script refused.", {"a default response is given at most once per command", "values have no trailing white space, strings begin with a letter, digit or one of + - . _ \" '", "commands arrive while the simulator is waiting"}, 1000, init},
  });
}
