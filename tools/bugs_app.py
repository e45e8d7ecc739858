from mkbug import bug
Q = r'''#include "mini.hh"
#include "SerializedInputQueue.hh"
#include "QueueEntry.hh"
#include <thread>
'''
bug("flush-keeps-tail", "C19",
 "flushing a SerializedInputQueue with something in it, and then putting another entry",
 "the entry put next is chained behind a recycled one: it is delivered over and over again",
 [("src/app-framework/SerializedInputQueue.cc", """      m_freeList = temp;
    }
    m_queuePut = nullptr;
  }""", """      m_freeList = temp;
    }
  }""")],
 Q + r'''
int main()
{
  struct M { void show() { } } m;
  SerializedInputQueue q;
  for (int i = 0; i < 3; ++i) { QueueEntry *e = q.allocate(); e->initForMark(i); q.put(e); }
  q.flush();
  QueueEntry *e = q.allocate(); e->initForMark(7); q.put(e);
  e = q.get(); WANT(e && e->sequence == 7);
  WANT(!q.get() && q.isEmpty());
  return 0;
}
''')
bug("free-list-unlocked", "C19",
 "two threads taking recycled entries of the input queue at the same time",
 "both are given the same entry: one of the two events is lost",
 [("src/app-framework/SerializedInputQueue.cc", """  QueueEntry *SerializedInputQueue::allocate()
  {
#ifdef PLEXIL_WITH_THREADS
    std::lock_guard<std::mutex> const guard(*m_mutex);
#endif
    QueueEntry* result = m_freeList;
    if (result)
      m_freeList = result->next;
    else
      result = new QueueEntry;
    return result;""", """  QueueEntry *SerializedInputQueue::allocate()
  {
    QueueEntry* result = nullptr;
    if (m_freeList) {
#ifdef PLEXIL_WITH_THREADS
      std::lock_guard<std::mutex> const guard(*m_mutex);
#endif
      result = m_freeList;
      m_freeList = result->next;
    }
    if (!result)
      result = new QueueEntry;
    return result;""")],
 Q + r'''#include <atomic>
int main()
{
  SerializedInputQueue q;
  const int T = 6, N = 100000;
  std::atomic<long> put(0); std::atomic<int> done(0);
  std::vector<std::thread> th;
  for (int t = 0; t < T; ++t) th.emplace_back([&, t] { for (int i = 0; i < N; ++i) { QueueEntry *e = q.allocate(); e->initForMark((unsigned) (t * N + i)); q.put(e); ++put; } ++done; });
  std::vector<int> last(T, -1); long got = 0; bool bad = false;
  while (!bad) {
    bool fin = done == T;
    QueueEntry *e = q.get();
    if (!e) { if (fin) break; std::this_thread::yield(); continue; }
    unsigned s = e->sequence; int t = (int) s / N, i = (int) s % N;
    if (e->type != Q_MARK || t >= T || i != last[t] + 1) { bad = true; break; }
    last[t] = i; ++got; q.release(e);
  }
  if (bad || got != (long) T * N) { std::cerr << "lost or repeated\n"; _Exit(1); }
  for (auto &t : th) t.join();
  std::cerr << got << " in order\n";
  return 0;
}
''')
bug("anonymous-keeps-sender", "C32",
 "an anonymous message at the head of the queue right after one with a sender",
 "the anonymous message is attributed to the sender of the message before it",
 [("src/intfc/StateCache.cc", "      ensureStateCacheEntry(s_peekAtMessageSender)->update(msg->sender);", "      if (!msg->sender.empty())\n        ensureStateCacheEntry(s_peekAtMessageSender)->update(msg->sender);")],
 r'''#include "mini.hh"
#include "Message.hh"
#include "Lookup.hh"
#include "Constant.hh"
#include "ExpressionListener.hh"
struct W : ExpressionListener { void notifyChanged() override {} };
int main()
{
  miniInit();
  Mini m; W w;
  Expression *l = makeLookup(new Constant<String>("PeekAtMessageSender"), true, STRING_TYPE, nullptr);
  l->addListener(&w);
  Message a(State("one"), "Ann", 1.0), b(State("two"), "", 2.0);
  StateCache::instance().messageReceived(&a);
  l->activate();
  String s; WANT(l->getValue(s) && s == "Ann");
  StateCache::instance().messageReceived(&b);
  WANT(l->getValue(s) && s == "");
  l->deactivate(); l->removeListener(&w); delete l;
  return 0;
}
''')
bug("first-handler-stays", "C20",
 "registering a handler for several commands, one of which already has a handler",
 "that command still goes to the handler registered first",
 [("src/app-framework/AdapterConfiguration.cc", """                 " (vector) " << name << " -> " << handler);
        m_commandMap[name] = handler;""", """                 " (vector) " << name << " -> " << handler);
        m_commandMap.emplace(name, handler);""")],
 r'''#include "mini.hh"
#include "AdapterConfiguration.hh"
#include "CommandHandler.hh"
#include "Command.hh"
#include <memory>
struct Cmd : Command {
  State s; Cmd(std::string const &n) : s(n) {}
  State const &getCommand() const override { return s; } std::string const &getName() const override { return s.name(); }
  std::vector<Value> const &getArgValues() const override { return s.parameters(); } bool isReturnExpected() const override { return false; }
};
struct H : CommandHandler { int n = 0; void executeCommand(Command *, AdapterExecInterface *) override { ++n; } void abortCommand(Command *, AdapterExecInterface *) override {} };
int main()
{
  struct M { void show() { } } m;
  std::unique_ptr<AdapterConfiguration> c(makeAdapterConfiguration());
  auto a = std::make_shared<H>(), b = std::make_shared<H>();
  c->registerCommandHandler(a, "drive");
  c->registerCommandHandler(b, std::vector<std::string>{"stop", "drive"});
  Cmd d("drive"), s("stop");
  c->executeCommand(&s); c->executeCommand(&d);
  WANT(b->n == 2 && a->n == 0);
  return 0;
}
''')
