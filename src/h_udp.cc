// C23: UDP messages (encoding, message queues, the adapter over loopback sockets)
#include "pbt.hh"
#include "genval.hh"
#include "plexil-config.h"
#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "Command.hh"
#include "CommandHandler.hh"
#include "Error.hh"
#include "InterfaceAdapter.hh"
#include "InterfaceError.hh"
#include "MessageQueueMap.hh"
#include "PlanError.hh"
#include "State.hh"
#include "udp-utils.hh"
#include <arpa/inet.h>
#include <cfloat>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <netinet/in.h>
#include <poll.h>
#include <set>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
using namespace PLEXIL;
using pbt::Gen; using pbt::Ctx;

struct Cmd : Command {
  State s; int id;
  Cmd(std::string const &n, std::vector<Value> const &a, int i) : s(n, a), id(i) {}
  State const &getCommand() const override { return s; }
  std::string const &getName() const override { return s.name(); }
  std::vector<Value> const &getArgValues() const override { return s.parameters(); }
  bool isReturnExpected() const override { return true; }
};

struct Stub : AdapterExecInterface {
  std::mutex mx; std::condition_variable cv;
  struct Ev { int id; Value v; };
  std::vector<Ev> returns;                        // in the order delivered
  std::map<int, std::vector<CommandHandleValue>> acks;
  std::map<int, std::vector<bool>> aborts;
  long notified = 0, stale = 0;                   // stale: answers not followed by a notification yet
  void handleValueChange(State const &, const Value &) override {} void handleValueChange(State const &, Value &&) override {}
  void handleValueChange(State &&, const Value &) override {} void handleValueChange(State &&, Value &&) override {}
  void handleCommandAck(Command *c, CommandHandleValue h) override { std::lock_guard<std::mutex> l(mx); acks[static_cast<Cmd *>(c)->id].push_back(h); ++stale; }
  void handleCommandReturn(Command *c, Value const &v) override { std::lock_guard<std::mutex> l(mx); returns.push_back({static_cast<Cmd *>(c)->id, v}); ++stale; cv.notify_all(); }
  void handleCommandReturn(Command *c, Value &&v) override { handleCommandReturn(c, (Value const &) v); }
  void handleCommandAbortAck(Command *c, bool b) override { std::lock_guard<std::mutex> l(mx); aborts[static_cast<Cmd *>(c)->id].push_back(b); ++stale; }
  void handleUpdateAck(Update *, bool) override {}
  void notifyMessageReceived(Message *) override {} void notifyMessageQueueEmpty() override {} void notifyMessageAccepted(Message *, std::string const &) override {} void notifyMessageHandleReleased(std::string const &) override {}
  void handleAddPlan(pugi::xml_node const) override {} bool handleAddLibrary(pugi::xml_document *) override { return false; }
  void notifyOfExternalEvent() override { std::lock_guard<std::mutex> l(mx); ++notified; stale = 0; cv.notify_all(); }
  void notifyAndWaitForCompletion() override { notifyOfExternalEvent(); }
  std::vector<Value> got(int id) { std::lock_guard<std::mutex> l(mx); std::vector<Value> r; for (auto const &e : returns) if (e.id == id) r.push_back(e.v); return r; }
};

// ---------------------------------------------------------------- a message's layout, values and wire form
struct Par { char const *type; unsigned bytes, elements; bool array; };
struct Msg { std::string name; unsigned local, peer; std::vector<Par> pars; unsigned len = 0; };

static Par genPar(Gen &g)
{
  static char const *ty[] = {"int", "float", "bool", "string", "int-array", "float-array", "bool-array", "string-array"};
  size_t k = g.draw(8);
  Par p{ty[k], 4, 1, k >= 4};
  switch (k % 4) { case 0: p.bytes = g.chance(1, 2) ? 2 : 4; break; case 1: break; case 2: p.bytes = (unsigned) (1 << g.draw(3)); break; default: p.bytes = (unsigned) g.range(1, 9); break; }
  if (p.array) p.elements = (unsigned) g.range(1, 5);
  return p;
}
static ValueType elType(Par const &p) { switch (p.type[0]) { case 'i': return INTEGER_TYPE; case 'f': return REAL_TYPE; case 'b': return BOOLEAN_TYPE; default: return STRING_TYPE; } }
static std::string genStrU(Gen &g, unsigned max) { std::string s; size_t n = (size_t) g.range(0, max); for (size_t i = 0; i < n; ++i) s += (char) (g.chance(1, 4) ? g.range(128, 255) : g.range(1, 127)); return s; }
static int32_t genIntU(Gen &g, unsigned bytes)
{
  static const int32_t e[] = {0, 1, -1, 32767, -32768, 127, 128, 255, 256, -129, 65535, 2147483647, (int32_t) 0x80000000, 32768, -32769, 0x01020304};
  int32_t x = g.chance(2, 3) ? g.pick(e) : (int32_t) g.draw(0xffffffffull);
  return bytes == 2 ? (int32_t) (int16_t) x : x;
}
static double genReal4(Gen &g) { static const double e[] = {0, -0.0, 1, -1.5, 3.14159, 1e-40, FLT_MAX, -FLT_MAX, FLT_MIN, 1e30, 36.0, -104.7}; return g.chance(3, 4) ? g.pick(e) : ((double) g.draw(2000001) - 1000000) / 1024.0; }
static MVal genEl(Gen &g, Par const &p)
{
  switch (elType(p)) {
  case INTEGER_TYPE: return MVal::integer(genIntU(g, p.bytes));
  case REAL_TYPE: return MVal::real(genReal4(g));
  case BOOLEAN_TYPE: return MVal::boolean(g.chance(1, 2));
  default: return MVal::string(genStrU(g, p.bytes));
  }
}
static ValueType arrType(ValueType t) { return t == INTEGER_TYPE ? INTEGER_ARRAY_TYPE : t == REAL_TYPE ? REAL_ARRAY_TYPE : t == BOOLEAN_TYPE ? BOOLEAN_ARRAY_TYPE : STRING_ARRAY_TYPE; }
static MVal genArg(Gen &g, Par const &p)
{
  if (!p.array) return genEl(g, p);
  std::vector<MVal> e; for (unsigned i = 0; i < p.elements; ++i) e.push_back(genEl(g, p));
  return MVal::array(arrType(elType(p)), e);
}
static void wireEl(std::string &o, MVal const &v, Par const &p)
{
  uint32_t x = 0;
  switch (elType(p)) {
  case STRING_TYPE: o += v.s; o.append(p.bytes - v.s.size(), '\0'); return;
  case REAL_TYPE: { float f = (float) v.r; memcpy(&x, &f, 4); break; }
  case BOOLEAN_TYPE: x = v.b; break;
  default: x = (uint32_t) v.i; break;
  }
  for (unsigned i = p.bytes; i-- > 0;) o += (char) (x >> (8 * i) & 255);
}
static std::string wire(std::vector<MVal> const &a, Msg const &m)
{
  std::string o;
  for (size_t i = 0; i < m.pars.size(); ++i) if (m.pars[i].array) for (MVal const &e : a[i].el) wireEl(o, e, m.pars[i]); else wireEl(o, a[i], m.pars[i]);
  return o;
}
static MVal asReceived(MVal v, Par const &p) // a Real is sent as a 32 bit float
{
  if (v.t == REAL_TYPE) v.r = (double) (float) v.r;
  for (MVal &e : v.el) e = asReceived(e, p);
  return v;
}
static bool sameVal(Value const &v, MVal const &m) { return v == mkValue(m) && v.valueType() == m.t; }
static std::string hex(std::string const &s) { std::string r; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; } return r; }

// ---------------------------------------------------------------- encoding
static void codec(Gen &g, Ctx &ctx)
{
  size_t n = (size_t) g.range(8, 40), at = (size_t) g.range(0, (int64_t) n - 8);
  std::unique_ptr<unsigned char[]> buf(new unsigned char[n]);
  unsigned char fill = (unsigned char) g.draw(256);
  memset(buf.get(), fill, n);
  std::string want, h;
  switch (g.draw(4)) {
  case 0: { at = n - 4 - (g.chance(1, 2) ? 0 : g.draw(n - 3)); int32_t x = genIntU(g, 4); encode_int32_t(x, buf.get(), at); for (int i = 3; i >= 0; --i) want += (char) ((uint32_t) x >> (8 * i)); h = "int32 " + std::to_string(x); PBT_CHECK(decode_int32_t(buf.get(), at) == x, h << " decoded as " << decode_int32_t(buf.get(), at)); break; }
  case 1: { at = n - 2 - (g.chance(1, 2) ? 0 : g.draw(n - 1)); short x = (short) genIntU(g, 2); encode_short_int(x, buf.get(), at); want += (char) (x >> 8); want += (char) x; h = "int16 " + std::to_string(x); PBT_CHECK(decode_short_int(buf.get(), at) == x, h << " decoded as " << decode_short_int(buf.get(), at)); break; }
  case 2: { at = n - 4 - (g.chance(1, 2) ? 0 : g.draw(n - 3)); float f = g.chance(1, 10) ? INFINITY : (float) genReal4(g); uint32_t x; memcpy(&x, &f, 4); encode_float(f, buf.get(), at); for (int i = 3; i >= 0; --i) want += (char) (x >> (8 * i)); float d = decode_float(buf.get(), at); h = "float " + std::to_string(f); PBT_CHECK(!memcmp(&d, &f, 4), h << " decoded as " << d); break; }
  default: {
    unsigned field = (unsigned) g.range(1, (int64_t) (n - at)); std::string s = genStrU(g, field); if (g.chance(1, 2)) at = n - field;
    memset(&buf[at], 0, field);
    encode_string(s, buf.get(), at); want = s; want.append(field - s.size(), '\0'); h = "string " + hex(s) + " in " + std::to_string(field) + " bytes";
    std::string d = decode_string(buf.get(), at, (int) field);
    PBT_CHECK(d == s, h << " decoded as " << hex(d)); break;
  }
  }
  for (size_t i = 0; i < n; ++i) {
    unsigned char w = i < at || i >= at + want.size() ? fill : (unsigned char) want[i - at];
    PBT_CHECK(buf[i] == w, h << " encoded at " << at << ": byte " << i << " is " << (int) buf[i] << ", not " << (int) w);
  }
  ctx.sample = h + " at " + std::to_string(at) + " of " + std::to_string(n);
  ctx.nontrivial = true; ctx.label("encoding");
}

// ---------------------------------------------------------------- message queues
static void queues(Gen &g, Ctx &ctx)
{
  Stub st;
  bool dup = g.chance(2, 3);
  MessageQueueMap q(st, dup);
  static char const *names[] = {"a", "b", "a_0", ""};
  std::map<std::string, std::deque<Value>> msgs; std::map<std::string, std::deque<int>> rcv;
  std::vector<std::pair<int, Value>> want;
  std::vector<std::unique_ptr<Cmd>> cmds;
  std::string h = dup ? "" : "no duplicates";
  int serial = 0; long pairs = 0;
  size_t ops = (size_t) g.range(1, 25);
  for (size_t k = 0; k < ops; ++k) {
    std::string n = g.pick(names);
    switch (g.weighted({4, 3, 1, 1})) {
    case 0: h += " receive " + n; cmds.emplace_back(new Cmd("ReceiveMessage", {}, (int) k)); rcv[n].push_back((int) k); q.addRecipient(n, cmds.back().get()); break;
    case 1: { Value v((Integer) ++serial); h += " message " + n + "=" + std::to_string(serial); if (!dup) msgs[n].clear(); msgs[n].push_back(v); q.addMessage(n, v); break; }
    case 2: h += " message " + n; if (!dup) msgs[n].clear(); msgs[n].push_back(Value(n)); q.addMessage(n); break;
    default: dup = !dup; h += dup ? " allow duplicates" : " forbid duplicates"; q.setAllowDuplicateMessages(dup); if (!dup) for (auto &p : msgs) while (p.second.size() > 1) p.second.pop_front(); break;
    }
    for (char const *x : names)
      while (msgs[x].size() && rcv[x].size()) { want.emplace_back(rcv[x].front(), msgs[x].front()); msgs[x].pop_front(); rcv[x].pop_front(); ++pairs; }
    PBT_CHECK(st.returns.size() == want.size(), h << ": " << st.returns.size() << " messages delivered, not " << want.size());
    for (size_t i = 0; i < want.size(); ++i) PBT_CHECK(st.returns[i].id == want[i].first && st.returns[i].v == want[i].second, h << ": delivery " << i << " is " << st.returns[i].v << " to " << st.returns[i].id << ", not " << want[i].second << " to " << want[i].first);
    PBT_CHECK(!st.stale, h << ": the executive wasn't notified of a delivery");
  }
  ctx.sample = "queues:" + h; ctx.nontrivial = pairs >= 2; ctx.label("message queues");
}

static void racing(Gen &g, Ctx &ctx)
{
  pbt::racy();
  Stub st;
  MessageQueueMap q(st, true);
  int n = (int) g.range(20, 200), names = (int) g.range(1, 3);
  std::vector<std::unique_ptr<Cmd>> cmds;
  for (int i = 0; i < n; ++i) cmds.emplace_back(new Cmd("R", {}, i));
  auto nm = [names](int i) { return "m" + std::to_string(i % names); };
  std::thread t([&] { for (int i = 0; i < n; ++i) q.addMessage(nm(i), Value((Integer) i)); });
  for (int i = 0; i < n; ++i) q.addRecipient(nm(i), cmds[(size_t) i].get());
  t.join();
  PBT_CHECK(st.returns.size() == (size_t) n, n << " messages and receivers, " << st.returns.size() << " deliveries");
  std::set<int> seen;
  for (auto const &e : st.returns) { Integer x = -1; e.v.getValue(x); PBT_CHECK(x == e.id, "receiver " << e.id << " was given message " << x << " of " << n); PBT_CHECK(seen.insert(e.id).second, "receiver " << e.id << " was given two messages"); }
  PBT_CHECK(!st.stale, "the executive wasn't notified of a delivery");
  ctx.sample = std::to_string(n) + " messages and receivers from two threads under " + std::to_string(names) + " names";
  ctx.nontrivial = true; ctx.label("queues used by two threads");
}

// ---------------------------------------------------------------- the adapter over loopback
static int udpSocket(unsigned port, bool bindIt)
{
  int s = socket(AF_INET, SOCK_DGRAM, 0);
  if (s < 0) throw pbt::Discard();
  if (bindIt) {
    int on = 1; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons((uint16_t) port);
    if (bind(s, (sockaddr *) &a, sizeof a)) { close(s); throw pbt::Discard(); }
  }
  return s;
}
static void sendTo(int s, unsigned port, std::string const &d)
{
  sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons((uint16_t) port);
  if (sendto(s, d.data(), d.size(), 0, (sockaddr *) &a, sizeof a) != (ssize_t) d.size()) throw pbt::Discard();
}
static bool arrives(int s, std::string &d, int ms)
{
  pollfd p{s, POLLIN, 0};
  if (poll(&p, 1, ms) <= 0) return false;
  char b[2000]; ssize_t n = recv(s, b, sizeof b, 0);
  d.assign(b, n < 0 ? 0 : (size_t) n);
  return n >= 0;
}

static void adapter(Gen &g, Ctx &ctx)
{
  unsigned port = 10000 + (unsigned) (getpid() % 1800) * 11;
  Stub st;
  std::vector<Msg> msgs;
  size_t nm = (size_t) g.range(1, 3);
  std::string xml = "<Adapter AdapterType=\"UdpAdapter\"><Message name=\"sync\" local_port=\"" + std::to_string(port) + "\" peer_port=\"" + std::to_string(port) + "\"><Parameter type=\"int\" bytes=\"4\"/></Message>", h;
  for (size_t i = 0; i < nm; ++i) {
    Msg m; m.name = "msg" + std::string(i ? "_" + std::to_string(i - 1) : ""); m.local = port + 1 + (unsigned) i; m.peer = port + 5 + (unsigned) i;
    xml += "<Message name=\"" + m.name + "\" local_port=\"" + std::to_string(m.local) + "\" peer_port=\"" + std::to_string(m.peer) + "\">";
    size_t np = (size_t) g.range(1, 4);
    h += " " + m.name + "(";
    for (size_t k = 0; k < np; ++k) {
      Par p = genPar(g); m.pars.push_back(p); m.len += p.bytes * p.elements;
      xml += "<Parameter type=\"" + std::string(p.type) + "\" bytes=\"" + std::to_string(p.bytes) + "\"" + (p.array ? " elements=\"" + std::to_string(p.elements) + "\"" : "") + "/>";
      h += std::string(k ? ", " : "") + p.type + " " + std::to_string(p.bytes) + (p.array ? "*" + std::to_string(p.elements) : "");
    }
    h += ")"; xml += "</Message>"; msgs.push_back(m);
  }
  xml += "</Adapter>";
  pugi::xml_document doc; doc.load_string(xml.c_str());
  std::unique_ptr<AdapterConfiguration> config(makeAdapterConfiguration());
  std::unique_ptr<InterfaceAdapter> ad(AdapterFactory::createInstance(doc.document_element(), st));
  PBT_CHECK(ad && ad->initialize(config.get()), h << ": the adapter refuses its configuration");
  std::vector<std::unique_ptr<Cmd>> cmds;
  struct Sockets { std::vector<int> v; ~Sockets() { for (int s : v) close(s); } } socks;
  int out = udpSocket(0, false); socks.v.push_back(out);
  std::vector<int> peers;
  for (Msg const &m : msgs) { peers.push_back(udpSocket(m.peer, true)); socks.v.push_back(peers.back()); }
  PBT_CHECK(ad->start(), h << ": start failed");
  struct Stop { InterfaceAdapter *a; ~Stop() { if (a) a->stop(); } } stopper{ad.get()};
  auto call = [&](std::string const &n, std::vector<Value> const &a) -> int {
    int id = (int) cmds.size();
    cmds.emplace_back(new Cmd(n, a, id));
    config->getCommandHandler(n)->executeCommand(cmds.back().get(), &st);
    return id;
  };
  auto acked = [&](int id) { std::lock_guard<std::mutex> l(st.mx); auto const &v = st.acks[id]; return v.size() == 1 ? v[0] : NO_COMMAND_HANDLE; };
  int seq = 0;
  auto barrier = [&] { // twice, as the first may overtake datagrams handled in the same round
    for (int k = 0; k < 2; ++k) {
      int id = call("ReceiveCommand", {Value("sync")});
      PBT_CHECK(acked(id) == COMMAND_SENT_TO_SYSTEM, h << ": ReceiveCommand of another message is refused");
      std::string d(4, '\0'); ++seq; d[3] = (char) seq; sendTo(out, port, d);
      std::unique_lock<std::mutex> l(st.mx);
      bool ok = st.cv.wait_for(l, std::chrono::seconds(20), [&] { for (auto const &e : st.returns) if (e.id == id) return true; return false; });
      PBT_CHECK(ok, h << ": a message isn't received");
    }
  };
  struct Sent { std::vector<MVal> args; };
  std::vector<std::deque<int>> waiting(nm);
  std::vector<std::deque<Sent>> queued(nm);
  std::map<int, std::pair<size_t, Sent>> paired;   // command -> what it should have been given
  std::vector<bool> listening(nm);
  std::set<std::string> labels; std::set<int> checked;
  long used = 0;
  auto settle = [&] {
    for (size_t i = 0; i < nm; ++i)
      while (waiting[i].size() && queued[i].size()) { paired[waiting[i].front()] = {i, queued[i].front()}; waiting[i].pop_front(); queued[i].pop_front(); }
  };
  auto verify = [&] {
    { // each round of the adapter's loop may take only one datagram from each socket
      std::unique_lock<std::mutex> l(st.mx);
      st.cv.wait_for(l, std::chrono::seconds(20), [&] { std::set<int> have; for (auto const &e : st.returns) have.insert(e.id); for (auto const &p : paired) if (!have.count(p.first)) return false; return true; });
    }
    barrier();
    for (auto const &c : cmds) if (c->getName() == "ReceiveCommand" && c->getArgValues().size() == 1) {
      if (c->getArgValues()[0].valueType() != STRING_TYPE) continue;
      std::string n; c->getArgValues()[0].getValue(n); if (n == "sync") continue;
      auto v = st.got(c->id);
      PBT_CHECK(v.size() == paired.count(c->id), h << ": receiver " << c->id << " got " << v.size() << " messages, not " << paired.count(c->id));
    }
    std::vector<int> fresh; for (auto const &p : paired) if (!checked.count(p.first)) fresh.push_back(p.first);
    for (int id : fresh) {
      checked.insert(id);
      Msg const &m = msgs[paired[id].first]; Sent const &s = paired[id].second;
      std::string label; PBT_CHECK(st.got(id)[0].getValue(label) && labels.insert(label).second, h << ": receiver " << id << " was given " << st.got(id)[0] << " as the message's name");
      std::vector<size_t> order; for (size_t k = 0; k < m.pars.size(); ++k) order.insert(order.begin() + g.range(0, (int64_t) k), k);
      for (size_t k : order) {
        int gp = call("GetParameter", k == 0 && g.chance(1, 2) ? std::vector<Value>{Value(label)} : std::vector<Value>{Value(label), Value((Integer) k)});
        auto v = st.got(gp); MVal want = asReceived(s.args[k], m.pars[k]);
        PBT_CHECK(acked(gp) == COMMAND_SENT_TO_SYSTEM && v.size() == 1, h << ": parameter " << k << " of a message to " << m.name << " isn't there");
        PBT_CHECK(sameVal(v[0], want), h << ": parameter " << k << " of a message to " << m.name << " is " << v[0] << ", not " << mstr(want));
      }
      ++used;
    }
  };
  size_t ops = (size_t) g.range(1, 12);
  for (size_t o = 0; o < ops; ++o) {
    size_t i = g.draw(nm); Msg const &m = msgs[i];
    switch (g.weighted({4, 4, 6, 2, 2, 1, 1, 1})) {
    case 0: { // send
      std::vector<MVal> a; std::vector<Value> v; bool bad = false;
      for (Par const &p : m.pars) a.push_back(genArg(g, p));
      if (g.chance(1, 4)) { // something which can't be sent
        size_t k = g.draw(m.pars.size()); Par const &p = m.pars[k]; MVal &x = a[k]; MVal &e = p.array ? x.el[g.draw(x.el.size())] : x;
        bad = true;
        switch (g.draw(6)) {
        case 0: a.push_back(MVal::integer(1)); break;
        case 1: if (p.array) x.el.push_back(e); else x = MVal::unknown(x.t); break;
        case 2: e = MVal::unknown(elType(p)); break;
        case 3: x = elType(p) == STRING_TYPE ? MVal::boolean(true) : MVal::string("x"); break;
        case 4: switch (elType(p)) { case INTEGER_TYPE: if (p.bytes == 2) e = MVal::integer(g.chance(1, 2) ? 32768 : -32769); else bad = false; break; case REAL_TYPE: e = MVal::real(g.chance(1, 2) ? 1e39 : -INFINITY); break; case STRING_TYPE: e = MVal::string(std::string(p.bytes + 1, 'z')); break; default: bad = false; break; } break;
        default: a.pop_back(); break;
        }
      }
      h += " send " + m.name + (bad ? " (bad)" : "");
      for (MVal const &x : a) v.push_back(mkValue(x));
      int id = call(m.name, v);
      std::string d;
      CommandHandleValue ack = acked(id);
      if (bad) PBT_CHECK(ack == COMMAND_FAILED && !arrives(peers[i], d, 0), h << ": a message which doesn't fit is acknowledged with " << commandHandleValueName(ack) << " and sent as " << hex(d));
      else {
        std::string w = wire(a, m);
        PBT_CHECK(ack == COMMAND_SUCCESS, h << ": acknowledged with " << commandHandleValueName(ack));
        PBT_CHECK(arrives(peers[i], d, 5000), h << ": nothing was sent");
        PBT_CHECK(d == w, h << ": sent " << hex(d) << ", not " << hex(w));
        PBT_CHECK(!arrives(peers[i], d, 0), h << ": sent twice");
        ++used;
      }
      break;
    }
    case 1: { // receive
      h += " receive " + m.name;
      int id = call("ReceiveCommand", {Value(m.name)});
      PBT_CHECK(acked(id) == COMMAND_SENT_TO_SYSTEM, h << ": not accepted");
      waiting[i].push_back(id); listening[i] = true; settle();
      break;
    }
    case 2: { // a datagram comes in
      Sent s; for (Par const &p : m.pars) s.args.push_back(genArg(g, p));
      std::string d = wire(s.args, m);
      if (!listening[i]) { h += " unheard " + m.name; sendTo(out, m.local, d); break; }
      h += " datagram " + m.name;
      if (g.chance(1, 8)) { d += "extra"; h += " (long)"; }
      sendTo(out, m.local, d);
      queued[i].push_back(s); settle();
      break;
    }
    case 3: // one too short
      if (m.len > 1) {
        Sent s; for (Par const &p : m.pars) s.args.push_back(genArg(g, p));
        std::string d = wire(s.args, m); d.resize((size_t) g.range(1, m.len - 1));
        h += " short " + m.name; sendTo(out, m.local, d);
      }
      break;
    case 4: // abort a receiver
      h += " abort"; verify();
      if (waiting[i].size()) {
        size_t k = g.draw(waiting[i].size()); int id = waiting[i][k];
        h += " receiver of " + m.name;
        config->getCommandHandler("ReceiveCommand")->abortCommand(cmds[(size_t) id].get(), &st);
        PBT_CHECK(st.aborts[id].size() == 1 && st.aborts[id][0], h << ": abort not acknowledged");
        waiting[i].erase(waiting[i].begin() + (long) k);
        if (waiting[i].empty()) listening[i] = false;
      }
      break;
    case 5: { // requests which must be refused
      int id;
      h += " nonsense";
      switch (g.draw(6)) {
      case 0: id = call("ReceiveCommand", {Value("nosuch")}); break;
      case 1: id = call("ReceiveCommand", {}); break;
      case 2: id = call("ReceiveCommand", {Value((Integer) 3)}); break;
      case 3: id = call("GetParameter", {Value("nosuch:msg_parameter:1"), Value((Integer) 0)}); break;
      case 4: id = call("GetParameter", {Value(m.name + ":msg_parameter:1"), Value((Integer) m.pars.size())}); break;
      default: id = call("GetParameter", {Value(m.name + ":msg_parameter:1"), Value((Integer) -1)}); break;
      }
      PBT_CHECK(acked(id) == COMMAND_FAILED, h << ": a request which makes no sense is acknowledged with " << commandHandleValueName(acked(id)));
      break;
    }
    case 6: h += " check"; verify(); break;
    default: { // stop and start again, with nobody waiting
      bool idle = true; for (auto const &w : waiting) if (w.size()) idle = false;
      if (!idle) break;
      verify(); h += " restart"; ad->stop(); stopper.a = nullptr;
      for (size_t k = 0; k < nm; ++k) listening[k] = false;
      PBT_CHECK(ad->start(), h << ": start failed"); stopper.a = ad.get();
      break;
    }
    }
  }
  h += " end"; verify();
  { std::lock_guard<std::mutex> l(st.mx); for (auto const &p : st.acks) PBT_CHECK(p.second.size() == 1, h << ": command " << p.first << " acknowledged " << p.second.size() << " times"); }
  ctx.sample = "adapter:" + h; ctx.nontrivial = used >= 1; ctx.label("adapter");
}

static void c23(Gen &g, Ctx &ctx)
{
  switch (g.weighted({6, 6, 1, 8})) {
  case 0: codec(g, ctx); break;
  case 1: queues(g, ctx); break;
  case 2: racing(g, ctx); break;
  default: adapter(g, ctx); break;
  }
  ctx.addHash(ctx.sample);
}

extern "C" void initUdpAdapter();
static void init() { Error::doThrowExceptions(); PlanError::doThrowExceptions(); InterfaceError::doThrowExceptions(); initUdpAdapter(); }

int main(int argc, char **argv)
{
  return pbt::main(argc, argv, {
    {"C23", c23, 40000, 1000000, "Values encoded and decoded at random offsets with the bytes around them watched; histories of messages and receivers on the message queues, from one thread against a model and from two at once; the UDP adapter over loopback sockets with one to three random message declarations: what it sends compared byte by byte with an independent encoder, datagrams (whole, short, long) built by it and received, the values handed to the plan compared with those sent, with aborts, restarts, refused requests and datagrams nobody waits for. Non-trivial: at least one message sent or received and checked, or two deliveries.", {"datagrams on the loopback interface arrive in order", "messages have at least one parameter, floats four bytes, strings no NUL", "no two messages share a local port"}, 400, init},
  });
}
