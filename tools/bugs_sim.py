from mkbug import bug
KIT = r'''// Runs a script in the simulator; commands are given at the times asked for.
#include "Agenda.cc"
#include "CommandResponseManager.cc"
#include "LineInStream.cc"
#include "PlexilSimResponseFactory.cc"
#include "ResponseFactory.cc"
#include "Simulator.cc"
#include "SimulatorScriptReader.cc"
#include "TimingService.cc"
#include "CommRelayBase.hh"
#include <atomic>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <mutex>
#include <sstream>
#include <unistd.h>
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
struct Sent { double at; std::string name, value; };
struct Relay : CommRelayBase {
  std::mutex m; std::vector<Sent> got; double t0 = wall();
  Relay() : CommRelayBase("demo") {}
  void sendResponse(const ResponseMessage *r) override { std::lock_guard<std::mutex> g(m); std::ostringstream o; o << r->getValue(); got.push_back({wall() - t0, r->getName(), o.str()}); delete r; }
};
static std::vector<Sent> play(std::string const &script, std::vector<std::pair<double, std::string>> const &cmds, double until, Simulator **keep = nullptr)
{
  char f[] = "/tmp/simdemoXXXXXX"; int fd = mkstemp(f); if (fd < 0 || write(fd, script.data(), script.size()) < 0) _exit(3); close(fd);
  ResponseManagerMap *map = new ResponseManagerMap; Agenda *ag = makeAgenda();
  bool ok = makeScriptReader(map, ag, makePlexilSimResponseFactory())->readScript(f);
  unlink(f); if (!ok) { printf("script refused\n"); _exit(1); }
  sigset_t s; sigfillset(&s); sigdelset(&s, SIGSEGV); sigdelset(&s, SIGABRT); pthread_sigmask(SIG_BLOCK, &s, nullptr);
  Relay *r = new Relay; Simulator *sim = makeSimulator(r, map, ag);
  sim->start(); r->t0 = wall(); usleep(100000);
  for (auto &c : cmds) { while (wall() - r->t0 < c.first) usleep(5000); sim->scheduleResponseForCommand(c.second, nullptr); }
  while (wall() - r->t0 < until) usleep(5000);
  if (keep) *keep = sim;
  std::lock_guard<std::mutex> g(r->m);
  for (Sent &x : r->got) printf("%.2f %s %s\n", x.at, x.name.c_str(), x.value.c_str());
  fflush(stdout);
  return r->got;
}
'''
D = "src/apps/StandAloneSimulator/"
bug("default-uncounted", "C26",
 "a response given for a later occurrence only, with a default (or nothing) for those before it",
 "occurrences answered by the default aren't counted, so that the ones with a response of their own come too late or never",
 [(D + "CommandResponseManager.cc", """      respBase = iter->second.get();
    }
""", """      respBase = iter->second.get();
      ++m_Counter;
    }
"""), (D + "CommandResponseManager.cc", """             " " << m_Identifier << ", count: " << m_Counter);
    ++m_Counter;
""", """             " " << m_Identifier << ", count: " << m_Counter);
""")],
 '#include "sim.hh"\n' r'''int main()
{
  auto g = play("Integer Command go\ngo 0 1 0.0\n7\ngo 2 1 0.0\n8\n", {{0.2, "go"}, {0.3, "go"}, {0.4, "go"}}, 1);
  _exit(g.size() == 3 && g[0].value == "7" && g[1].value == "8" && g[2].value == "7" ? 0 : 1);
}
''', extra={"sim.hh": KIT})
bug("first-value-kept", "C26",
 "a lookup after the second telemetry value of a state",
 "the simulator answers lookups with the first value it sent for the state",
 [(D + "Simulator.cc", "        m_LookupNowValueMap[resp->getName()] = resp->getValue();", "        m_LookupNowValueMap.emplace(resp->getName(), resp->getValue());")],
 '#include "sim.hh"\n' r'''int main()
{
  Simulator *s = nullptr;
  play("Integer Lookup x\nx 0.1\n7\nx 0.5\n8\n", {}, 1.5, &s);
  ResponseMessage *m = s->getLookupNowResponse("x", nullptr);
  Integer v = 0;
  _exit(m && m->getValue().getValue(v) && v == 8 ? 0 : 1);
}
''', extra={"sim.hh": KIT})
bug("later-alarm-stays", "C26",
 "a command whose response is due before the telemetry the alarm is already set for",
 "the response waits for the telemetry",
 [(D + "Simulator.cc", """    bool valid = constructNextResponse(command, uniqueId, time, MSG_COMMAND);
    if (valid)
      scheduleNextResponse(time);""", """    bool wasIdle = m_Agenda->empty();
    bool valid = constructNextResponse(command, uniqueId, time, MSG_COMMAND);
    if (valid && wasIdle)
      scheduleNextResponse(time);""")],
 '#include "sim.hh"\n' r'''int main()
{
  auto g = play("Integer Command go\nInteger Lookup x\ngo 1 1 0.2\n7\nx 6.0\n8\n", {{0.3, "go"}}, 4);
  _exit(g.size() == 1 && g[0].value == "7" ? 0 : 1);
}
''', extra={"sim.hh": KIT})
bug("telemetry-for-good", "C26",
 "a script with its telemetry section before its command section",
 "the commands are read as telemetry",
 [(D + "SimulatorScriptReader.cc", """      else if (firstWord == "BEGIN_COMMANDS") {
        telemetry = false;
""", """      else if (firstWord == "BEGIN_COMMANDS") {
""")],
 '#include "sim.hh"\n' r'''int main()
{
  auto g = play("BEGIN_TELEMETRY\nx 0.1\n7\nBEGIN_COMMANDS\ngo 1 1 0.2\n8\n", {}, 2.5);
  _exit(g.size() == 1 && g[0].name == "x" ? 0 : 1);
}
''', extra={"sim.hh": KIT})
