// C21: what execution listeners are told, filtered and formatted for viewers.
#include "runexec.hh"
#include "ArrayImpl.hh"
#include "ExecListener.hh"
#include "ExecListenerFactory.hh"
#include "ExecListenerFilter.hh"
#include "ExecListenerFilterFactory.hh"
#include "ExecListenerHub.hh"
#include "ListenerFilters.hh"
#include "LuvFormat.hh"
#include "LuvListener.hh"
#include "NodeTransition.hh"
#include <arpa/inet.h>
#include <atomic>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
using namespace PLEXIL;

static const char *CONDS[] = {"AncestorExitCondition", "AncestorInvariantCondition", "AncestorEndCondition", "SkipCondition", "StartCondition", "PreCondition", "ExitCondition", "InvariantCondition", "EndCondition", "PostCondition", "RepeatCondition", "ActionCompleteCondition", "AbortCompleteCondition"};
static const char *STATES[] = {"INACTIVE", "WAITING", "EXECUTING", "ITERATION_ENDED", "FINISHED", "FAILING", "FINISHING"};

static void load(pugi::xml_document &d, std::string const &x)
{
  pugi::xml_parse_result r = d.load_buffer(x.data(), x.size(), XML_OPTIONS);
  PBT_CHECK(r.status == pugi::status_ok, "not well-formed (" << r.description() << "): " << x);
}
// structural equality
static bool sameXml(pugi::xml_node a, pugi::xml_node b)
{
  if (a.type() != b.type() || strcmp(a.name(), b.name()) || strcmp(a.value(), b.value())) return false;
  pugi::xml_attribute p = a.first_attribute(), q = b.first_attribute();
  for (; p && q; p = p.next_attribute(), q = q.next_attribute()) if (strcmp(p.name(), q.name()) || strcmp(p.value(), q.value())) return false;
  if (p || q) return false;
  pugi::xml_node x = a.first_child(), y = b.first_child();
  for (; x && y; x = x.next_sibling(), y = y.next_sibling()) if (!sameXml(x, y)) return false;
  return !x && !y;
}
static void only(pugi::xml_node n, std::vector<std::string> const &allowed) // children in this order, each at most once
{
  size_t k = 0;
  for (pugi::xml_node c : n.children()) {
    while (k < allowed.size() && allowed[k] != c.name()) ++k;
    PBT_CHECK(k < allowed.size(), "unexpected element <" << c.name() << "> in <" << n.name() << ">");
    ++k;
  }
}

static void checkTransition(std::string const &x, Node const *n, NodeState s, bool last)
{
  pugi::xml_document d; load(d, x);
  pugi::xml_node r = d.document_element();
  PBT_CHECK(!strcmp(r.name(), "NodeStateUpdate"), "transition formatted as " << x);
  only(r, {"NodeState", "NodeOutcome", "NodeFailureType", "Conditions", "NodePath"});
  PBT_CHECK(nodeStateName(s) == r.child_value("NodeState"), "new state " << nodeStateName(s) << " formatted as " << x);
  if (last) {
    PBT_CHECK(std::string(r.child_value("NodeOutcome")) == (n->getOutcome() == NO_OUTCOME ? "" : outcomeName(n->getOutcome())), "outcome " << outcomeName(n->getOutcome()) << " formatted as " << x);
    PBT_CHECK(std::string(r.child_value("NodeFailureType")) == (n->getFailureType() == NO_FAILURE ? "" : failureTypeName(n->getFailureType())), "failure type " << failureTypeName(n->getFailureType()) << " formatted as " << x);
  }
  NodeImpl const *ni = dynamic_cast<NodeImpl const *>(n);
  pugi::xml_node c = r.child("Conditions").first_child();
  for (size_t k = 0; k < sizeof CONDS / sizeof *CONDS; ++k) {
    Expression const *e = ni->getCondition(k);
    if (!e) continue;
    PBT_CHECK(c && !strcmp(c.name(), CONDS[k]), CONDS[k] << " missing or out of place in " << x);
    PBT_CHECK(e->valueString() == c.child_value(), CONDS[k] << " is " << e->valueString() << ", formatted as '" << c.child_value() << "'");
    c = c.next_sibling();
  }
  PBT_CHECK(!c, "superfluous condition <" << c.name() << "> in " << x);
  std::vector<std::string> path, got;
  for (Node const *p = n; p; p = p->getParent()) path.insert(path.begin(), p->getNodeId());
  for (pugi::xml_node q : r.child("NodePath").children("NodeId")) got.push_back(q.child_value());
  PBT_CHECK(path == got, "path of " << n->getNodeId() << " formatted as " << x);
}
static void checkAssignment(std::string const &x, std::string const &name, Value const &v)
{
  pugi::xml_document d; load(d, x);
  pugi::xml_node r = d.document_element();
  PBT_CHECK(!strcmp(r.name(), "Assignment"), "assignment formatted as " << x);
  only(r, {"Variable", "Value"}); only(r.child("Variable"), {"VariableName"});
  PBT_CHECK(name == r.child("Variable").child_value("VariableName"), "name '" << name << "' formatted as " << x);
  PBT_CHECK(v.valueToString() == r.child_value("Value"), "value " << v << " formatted as " << x);
}

// A listener's events, as text
static std::string trText(int node, NodeState o, NodeState n) { return std::to_string(node) + ":" + nodeStateName(o) + ">" + nodeStateName(n); }
static std::string asText(std::string const &name, MVal const &v) { return name + " = " + mstr(v) + ":" + valueTypeName(v.t); }

struct Book { std::map<Node const *, int> const *index = nullptr; }; // numbers of the nodes
static Book s_book;

struct Rec : ExecListener {
  mutable std::vector<std::string> ev;
  mutable std::string bad;
  bool luv = false, own = false;                     // formats for viewers; takes whole vectors
  Rec() = default;
  explicit Rec(pugi::xml_node const x) : ExecListener(x) {}
  ExecListenerFilter *filter() const { return m_filter.get(); }
  template <class F> void guard(F f) const { if (bad.empty()) try { f(); } catch (pbt::Failure const &e) { bad = e.msg; } }
  void one(NodeTransition const &t) const
  {
    auto i = s_book.index->find(t.node);
    ev.push_back(i == s_book.index->end() ? "unknown node" : trText(i->second, t.oldState, t.newState));
    if (luv) { std::ostringstream o; LuvFormat::formatTransition(o, t); guard([&] { checkTransition(o.str(), t.node, t.newState, t.newState == t.node->getState()); }); }
  }
  void implementNotifyNodeTransition(NodeTransition const &t) const override { one(t); }
  void implementNotifyAssignment(Expression const *e, std::string const &n, Value const &v) const override
  {
    ev.push_back(asText(n, fromValue(v)));
    if (luv) { std::ostringstream o; LuvFormat::formatAssignment(o, e, n, v); guard([&] { checkAssignment(o.str(), n, v); }); }
  }
  void implementNotifyAddPlan(pugi::xml_node const p) const override { ev.push_back(std::string("plan ") + p.child("Node").child_value("NodeId")); }
  void implementNotifyAddLibrary(pugi::xml_node const p) const override { ev.push_back(std::string("library ") + p.child_value("NodeId")); }
};
static Rec *s_made = nullptr;                         // by the factory
struct Made : Rec { explicit Made(pugi::xml_node const x) : Rec(x) { s_made = this; } };

struct Own : ExecListenerFilter {                     // an application's own
  unsigned seed; explicit Own(unsigned s) : seed(s) {}
  static bool hit(unsigned seed, std::string const &s) { uint64_t h = seed; for (char c : s) h = pbt::mix(h ^ (unsigned char) c); return h % 3 != 0; }
  bool reportNodeTransition(NodeTransition const &t) override { auto i = s_book.index->find(t.node); return i == s_book.index->end() || hit(seed, trText(i->second, t.oldState, t.newState)); }
  bool reportAssignment(Expression const *, std::string const &n, Value const &) override { return hit(seed, n); }
  bool reportAddPlan(pugi::xml_node const p) override { return hit(seed, std::string("plan ") + p.child("Node").child_value("NodeId")); }
  bool reportAddLibrary(pugi::xml_node const p) override { return hit(seed, std::string("library ") + p.child_value("NodeId")); }
};

struct Spec {                                         // of one listener
  int kind = 0;                                       // 0 no filter, 1 states, 2 ignored states, 3 both, 4 neither, 5 unknown type, 6 no type, 7 an own filter, 8 empty type
  std::set<int> named; std::string list, list2; bool factory = false; unsigned seed = 0;
  pugi::xml_document doc; Rec *l = nullptr;
  bool refused() const { return kind == 3 || kind == 5 || kind == 6 || kind == 8; }
  bool passes(int node, NodeState o, NodeState n) const
  {
    if (kind == 1) return named.count(o) || named.count(n);
    if (kind == 2) return !(named.count(o) && named.count(n));
    if (kind == 7) return Own::hit(seed, trText(node, o, n));
    return true;
  }
  bool passes(std::string const &what) const { return kind != 7 || Own::hit(seed, what); }
  std::string text() const
  {
    static const char *k[] = {"all", "states", "but states", "both", "neither", "unknown filter", "no filter type", "own filter", "empty filter type"};
    return std::string(k[kind]) + (kind == 1 || kind == 2 ? " '" + list + "'" : "") + (factory ? " (made from XML)" : "");
  }
};

static std::string stateList(pbt::Gen &g, std::set<int> &named, bool nonEmpty)
{
  std::string r; int n = (int) g.range(nonEmpty ? 1 : 0, 4);
  static const char *sp[] = {"", "", "", " ", "\n  ", "\t"};
  for (int k = 0; k < n; ++k) {
    if (k) r += ",";
    r += g.pick(sp);
    int s = (int) g.draw(7);
    r += STATES[s]; named.insert(INACTIVE_STATE + s);
    r += g.pick(sp);
  }
  return r;
}
static void genSpec(pbt::Gen &g, Spec &s, bool refusable)
{
  s.kind = (int) (refusable ? g.weighted({2, 4, 4, 2, 1, 1, 1, 1, 1}) : g.weighted({3, 5, 5, 0, 1, 0, 0, 3, 0}));
  std::set<int> other;
  if (s.kind <= 2) s.list = stateList(g, s.named, s.kind != 0);
  if (s.kind == 3) { s.list = stateList(g, s.named, true); s.list2 = stateList(g, other, true); }
  s.seed = (unsigned) g.draw(1000);
  s.factory = s.kind != 7 && g.chance(1, 3);
  pugi::xml_node x = s.doc.append_child("Listener");
  x.append_attribute("ListenerType") = "Recorder";
  if (s.kind != 0 && s.kind != 7) {
    pugi::xml_node f = x.append_child("Filter");
    if (s.kind != 6) f.append_attribute("FilterType") = s.kind == 5 ? "Nonsense" : s.kind == 8 ? "" : "NodeState";
    if (s.kind == 1 || s.kind == 3) f.append_child("States").text().set(s.list.c_str());
    if (s.kind == 2 || s.kind == 3) f.append_child("IgnoredStates").text().set((s.kind == 3 ? s.list2 : s.list).c_str());
  }
}
static void addTo(ExecListenerHub &hub, Spec &s)
{
  if (s.factory) { s_made = nullptr; PBT_CHECK(hub.constructListener(s.doc.document_element()) && s_made, "a listener of a registered type isn't made"); s.l = s_made; }
  else { s.l = s.kind == 0 ? new Rec : new Rec(s.doc.document_element()); hub.addListener(s.l); if (s.kind == 7) s.l->setFilter(new Own(s.seed)); }
}

// ---- a viewer
struct Viewer {
  int ls = -1; int port = 0; bool block; std::thread th; std::vector<std::string> msgs; std::string rest;
  explicit Viewer(bool b) : block(b)
  {
    ls = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t l = sizeof a;
    if (ls < 0 || bind(ls, (sockaddr *) &a, sizeof a) || ::listen(ls, 1) || getsockname(ls, (sockaddr *) &a, &l)) { if (ls >= 0) close(ls); throw pbt::Discard(); }
    port = ntohs(a.sin_port);
    th = std::thread([this] {
      int c = accept(ls, nullptr, nullptr); if (c < 0) return;
      char buf[700]; ssize_t k;
      int on = 1; setsockopt(c, IPPROTO_TCP, TCP_QUICKACK, &on, sizeof on);
      for (; (k = recv(c, buf, sizeof buf, 0)) > 0; setsockopt(c, IPPROTO_TCP, TCP_QUICKACK, &on, sizeof on))
        for (ssize_t i = 0; i < k; ++i) {
          if (buf[i] != 4) { rest += buf[i]; continue; }
          msgs.push_back(rest); rest.clear();
          if (block) { char e = 4; if (send(c, &e, 1, MSG_NOSIGNAL) < 0) break; }
        }
      close(c);
    });
  }
  void finish() { if (th.joinable()) th.join(); }
  ~Viewer() { shutdown(ls, SHUT_RDWR); close(ls); finish(); }
};

static int s_serial = 0;
static void withPlan(pbt::Gen &g, pbt::Ctx &ctx, bool viewer)
{
  Feat f;
  f.nodes = (int) g.range(3, 10); f.plans = g.chance(1, 4) ? 2 : 1; f.wAssign = 7; f.steps = 10; f.libs = g.chance(1, 5) ? 1 : 0; f.wLib = f.libs ? 3 : 0;
  if (g.chance(1, 2)) { f.trigPct = 95; f.trigCond = 80; f.condPct[C_END] = 60; f.condPct[C_EXIT] = 25; f.condPct[C_INV] = 30; f.condPct[C_REPEAT] = 40; }
  std::string uniq = std::to_string(++s_serial);
  PCase c;
  PlanGen(g, f, c, uniq).run();
  for (auto const &l : c.libs) Sut::loadLib(planXml(*l, c));
  size_t n = (size_t) g.range(1, 4);
  std::vector<std::unique_ptr<Spec>> specs; std::string what = "listeners:";
  ExecListenerHub hub;
  for (size_t k = 0; k < n; ++k) { specs.emplace_back(new Spec); genSpec(g, *specs.back(), false); addTo(hub, *specs.back()); what += " " + specs.back()->text() + ","; }
  specs[g.draw(n)]->l->luv = true;
  std::unique_ptr<Viewer> vw; LuvListener *luv = nullptr; bool block = false;
  // a viewer waits for the end of the connection: close it however the case ends
  struct Stop { ExecListenerHub &h; bool on; ~Stop() { if (on) h.stop(); } } stop{hub, viewer};
  if (viewer) { block = g.chance(1, 2); vw.reset(new Viewer(block)); luv = makeLuvListener("127.0.0.1", (unsigned) vw->port, block); hub.addListener(luv); what += block ? " viewer (blocking)" : " viewer"; }
  PBT_CHECK(hub.initialize(), what << " aren't initialized");
  PBT_CHECK(hub.start(), what << " don't start");
  if (viewer) PBT_CHECK(luv->isConnected(), "the viewer isn't connected to");
  Run r(g, ctx, c, uniq);
  s_book.index = &r.sut.index;
  r.sut.also = &hub;
  std::vector<std::string> sent; long reported = 0, removed = 0;
  auto compare = [&] (std::vector<std::pair<std::string, std::function<bool(Spec const &)>>> const &evs, char const *when) {
    for (auto const &s : specs) {
      std::vector<std::string> want;
      for (auto const &e : evs) if (e.second(*s)) want.push_back(e.first);
      reported += (long) want.size(); removed += (long) (evs.size() - want.size());
      for (size_t k = 0; k < want.size() || k < s->l->ev.size(); ++k) {
        std::string a = k < s->l->ev.size() ? s->l->ev[k] : "nothing", b = k < want.size() ? want[k] : "nothing";
        PBT_CHECK(a == b, "listener (" << s->text() << ") is told '" << a << "' instead of '" << b << "' (event " << k << " of the " << when << ")");
      }
      PBT_CHECK(s->l->bad.empty(), s->l->bad);
      s->l->ev.clear();
    }
  };
  r.afterStep = [&] {
    std::vector<std::pair<std::string, std::function<bool(Spec const &)>>> evs;
    for (SBatch const &b : r.sut.batches) for (Tr const &t : b.tr) { evs.push_back({trText(t.node, t.o, t.n), [t] (Spec const &s) { return s.passes(t.node, t.o, t.n); }}); if (viewer) sent.push_back("NodeStateUpdate|" + nodeStateName(t.n) + "|" + r.sut.nodes[(size_t) t.node]->getNodeId()); }
    for (SAssign const &a : r.sut.assigns) { evs.push_back({asText(a.raw, a.v), [a] (Spec const &s) { return s.passes(a.raw); }}); if (viewer) sent.push_back("Assignment|" + a.raw + "|" + mkValue(a.v).valueToString()); }
    compare(evs, "step");
  };
  try {
    // documents
    pugi::xml_document pd; load(pd, planXml(*c.plans[0], c));
    pugi::xml_node lib = pd.document_element().child("Node");
    hub.notifyOfAddPlan(pd.document_element());
    hub.notifyOfAddLibrary(lib);
    std::string pe = "plan " + c.plans[0]->id, le = "library " + c.plans[0]->id;
    compare({{pe, [&] (Spec const &s) { return s.passes(pe); }}, {le, [&] (Spec const &s) { return s.passes(le); }}}, "documents");
    r.drive(f.steps, f.plans > 1);
  }
  catch (pbt::Failure &) { ctx.sample = what + "\n" + r.describe(); throw; }
  ctx.sample = what + "\n" + r.describe();
  r.sut.also = nullptr;
  if (viewer) {
    hub.stop(); vw->finish();
    PBT_CHECK(vw->rest.empty(), "the viewer receives an unfinished message: " << vw->rest);
    if (!r.stop) {
      PBT_CHECK(vw->msgs.size() == sent.size() + 4, "the viewer receives " << vw->msgs.size() << " messages instead of " << sent.size() + 4);
      pugi::xml_document pd; load(pd, planXml(*c.plans[0], c));
      for (size_t k = 0; k < vw->msgs.size(); ++k) {
        pugi::xml_document d; load(d, vw->msgs[k]);
        pugi::xml_node e = d.document_element();
        if (k == 0 || k == 2) { PBT_CHECK(!strcmp(e.name(), "PlanInfo") && !strcmp(e.child_value("ViewerBlocks"), block ? "true" : "false"), "plan information is " << vw->msgs[k]); continue; }
        if (k == 1) { PBT_CHECK(sameXml(e, pd.document_element()), "the plan is sent as " << vw->msgs[k]); continue; }
        if (k == 3) { PBT_CHECK(!strcmp(e.name(), "PlexilLibrary") && sameXml(e.first_child(), pd.document_element().child("Node")) && !e.first_child().next_sibling(), "the library is sent as " << vw->msgs[k]); continue; }
        std::string got = std::string(e.name()) + "|" + (!strcmp(e.name(), "Assignment") ? std::string(e.child("Variable").child_value("VariableName")) + "|" + e.child_value("Value") : std::string(e.child_value("NodeState")) + "|" + e.child("NodePath").last_child().child_value());
        PBT_CHECK(got == sent[k - 4], "the viewer receives " << got << " instead of " << sent[k - 4]);
      }
    }
    ctx.label("messages to viewers", (long) vw->msgs.size());
  }
  ctx.nontrivial = r.m.stats.trans >= 6 && reported >= 6;
  ctx.label("events reported", reported); ctx.label("events removed by filters", removed); ctx.label("retractions", r.m.stats.retracts);
  for (Ev const &e : r.script) ctx.addHash(evStr(e));
}

// configurations good and bad
static void configs(pbt::Gen &g, pbt::Ctx &ctx)
{
  ExecListenerHub hub; Spec s; genSpec(g, s, true);
  ctx.sample = "listener: " + s.text() + (s.kind == 3 ? " '" + s.list + "' '" + s.list2 + "'" : "");
  addTo(hub, s);
  bool ok = hub.initialize();
  PBT_CHECK(ok == !s.refused(), ctx.sample << ": initialization " << (ok ? "succeeds" : "fails"));
  if (!ok) { ctx.label("refused"); ctx.nontrivial = true; return; }
  PBT_CHECK(hub.start(), "doesn't start");
  // every pair of states
  std::unique_ptr<NodeImpl> node(Sut::parse("<PlexilPlan><Node NodeType=\"Empty\"><NodeId>n</NodeId></Node></PlexilPlan>"));
  std::map<Node const *, int> ix{{node.get(), 0}}; s_book.index = &ix;
  std::vector<NodeTransition> ts; std::vector<std::string> want;
  for (int a = INACTIVE_STATE; a < NODE_STATE_MAX; ++a) for (int b = INACTIVE_STATE; b < NODE_STATE_MAX; ++b) {
    ts.emplace_back(node.get(), (NodeState) a, (NodeState) b);
    if (s.passes(0, (NodeState) a, (NodeState) b)) want.push_back(trText(0, (NodeState) a, (NodeState) b));
  }
  hub.notifyOfTransitions(ts); hub.stepComplete(1);
  for (size_t k = 0; k < want.size() || k < s.l->ev.size(); ++k) {
    std::string a = k < s.l->ev.size() ? s.l->ev[k] : "nothing", b = k < want.size() ? want[k] : "nothing";
    PBT_CHECK(a == b, ctx.sample << ": told '" << a << "' instead of '" << b << "'");
  }
  ctx.nontrivial = want.size() < ts.size(); ctx.label("configurations");
}

// any value, name and document
static std::string xmlChars(std::string const &s) // those which may occur in a document
{
  std::string r;
  for (unsigned char c : s) if (c >= 0x20 || c == '\t' || c == '\n' || c == '\r') r += (char) c;
  return r;
}
static MVal xmlVal(MVal v) { v.s = xmlChars(v.s); for (MVal &e : v.el) e.s = xmlChars(e.s); return v; }
static void formats(pbt::Gen &g, pbt::Ctx &ctx)
{
  std::string h = "formats:"; int n = (int) g.range(1, 6);
  for (int k = 0; k < n; ++k) {
    std::ostringstream o;
    if (g.chance(1, 8)) {
      bool b = g.chance(1, 2); LuvFormat::formatPlanInfo(o, b);
      pugi::xml_document d; load(d, o.str());
      PBT_CHECK(!strcmp(d.document_element().child_value("ViewerBlocks"), b ? "true" : "false"), "plan information is " << o.str());
      continue;
    }
    std::string name = g.chance(1, 2) ? xmlChars(genString(g)) : "v" + std::to_string(g.draw(3)) + "[" + std::to_string(g.draw(9)) + "]";
    MVal m = xmlVal(genValue(g, true)); Value v = mkValue(m);
    h += " " + name + " = " + mstr(m);
    LuvFormat::formatAssignment(o, nullptr, name, v);
    ctx.sample = h;
    checkAssignment(o.str(), name, v);
    pugi::xml_document d; load(d, o.str());
    std::string t = d.document_element().child_value("Value");
    if (m.known && m.t == INTEGER_TYPE) PBT_CHECK(t == std::to_string(m.i), "value " << mstr(m) << " is sent as " << t);
    if (m.known && m.t == STRING_TYPE) PBT_CHECK(t == m.s, "value " << mstr(m) << " is sent as " << t);
    if (m.known && m.t == REAL_TYPE && m.r == m.r) PBT_CHECK(std::abs(strtod(t.c_str(), nullptr) - m.r) <= std::abs(m.r) * 1e-14 || strtod(t.c_str(), nullptr) == m.r || std::abs(m.r) > 1.797693134862e308, "value " << mstr(m) << " is sent as " << t);
  }
  ctx.sample = h; ctx.nontrivial = true; ctx.label("formatted");
}

static void c21(pbt::Gen &g, pbt::Ctx &ctx)
{
  switch (g.weighted({40, 12, 12, 1})) {
  case 0: withPlan(g, ctx, false); break;
  case 1: configs(g, ctx); break;
  case 2: formats(g, ctx); break;
  default: withPlan(g, ctx, true); break;
  }
  ctx.addHash(ctx.sample);
}

static void init()
{
  Error::doThrowExceptions(); PlanError::doThrowExceptions(); InterfaceError::doThrowExceptions();
  registerExecListenerFilters();
  REGISTER_EXEC_LISTENER(Made, "Recorder");
}

int main(int argc, char **argv)
{
  return pbt::main(argc, argv, {
    {"C21", c21, 60000, 1500000, "Random plans and histories, checked step by step against the reference model of the language, with one to four listeners registered directly or made from XML, each with its own filter (states, ignored states with assorted white space, an application's own), whose events are compared one by one with the executive's, filtered; the viewer's format of every event parsed and compared with the node or value; now and then the viewer's listener with a viewer at the other end of a socket. Configurations good and bad, over every pair of states; any name and value. Non-trivial: six transitions and events reported, a filter which removes something, a value formatted.", {"text contains only characters XML can represent", "outcome and conditions are those at the end of the step"}, 150, init},
  });
}
