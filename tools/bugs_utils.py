from mkbug import bug
bug("third-of-equal-priority", "C24",
 "three or more items of equal priority in one priority queue",
 "the third and later items of equal priority are queued ahead of the second",
 [("src/utils/LinkedQueue.hh", """      // Find the first entry greater than item
      while (cur && !comp(*item, *cur)) {
        prevNextPtr = cur->nextPtr();
        cur = cur->next();
      }
      if (cur) {
        // Insert in front""", """      // Skip the entries less than item, and the one equal to it
      while (cur && comp(*cur, *item)) {
        prevNextPtr = cur->nextPtr();
        cur = cur->next();
      }
      if (cur && !comp(*item, *cur)) {
        prevNextPtr = cur->nextPtr();
        cur = cur->next();
      }
      if (cur) {
        // Insert in front""")],
 r'''#include "LinkedQueue.hh"
#include <cstdio>
struct I { int k, id; I *n = nullptr; I(int a, int b) : k(a), id(b) {} I *next() const { return n; } I **nextPtr() { return &n; } };
struct C { bool operator()(I const &a, I const &b) const { return a.k < b.k; } };
int main()
{
  I v[] = {{1, 0}, {5, 1}, {5, 2}, {5, 3}, {9, 4}, {5, 5}};
  PLEXIL::PriorityQueue<I, C> q;
  for (I &i : v) q.insert(&i);
  int want[] = {0, 1, 2, 3, 5, 4}, k = 0;
  for (I *p = q.front(); p; p = p->next(), ++k)
    if (p->id != want[k]) { printf("item %d in place %d\n", p->id, k); return 1; }
  return k == 6 ? 0 : 1;
}
''')
bug("minus-one-second-exactly", "C22",
 "a sum or difference whose fractions add up to exactly minus one second",
 "the sum of -0.5 s and -0.5 s is 0 s and -1000000000 ns instead of -1 s",
 [("src/utils/timespec-utils.cc", "tspec.tv_nsec + ONE_BILLION <= 0", "tspec.tv_nsec + ONE_BILLION < 0")],
 r'''#include "timespec-utils.hh"
#include <cstdio>
#include <ctime>
int main()
{
  struct timespec a, b;
  a.tv_sec = -2; a.tv_nsec = -500000000; b.tv_sec = -3; b.tv_nsec = -500000000;
  struct timespec c = a + b;
  printf("%ld %ld\n", (long) c.tv_sec, c.tv_nsec);
  return c.tv_sec == -6 && c.tv_nsec == 0 ? 0 : 1;
}
''')
bug("snooze-margin", "C22",
 "a timer which goes off a few milliseconds before the deadline",
 "a wakeup less than 10 ms early isn't rescheduled, so nobody is woken for the deadline",
 [("src/app-framework/TimeAdapter.cc", "if (next && now < next) {", "if (next && next - now > 0.01) {")],
 r'''#include "mini.hh"
#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "InterfaceAdapter.hh"
#include "TimebaseFactory.hh"
#include "Message.hh"
#include <memory>
static double now = 1000;
static std::vector<double> asked;
struct FakeTimebase;
static FakeTimebase *tb;
struct FakeTimebase : Timebase {
  FakeTimebase(WakeupFn const &f) : Timebase(f) { tb = this; }
  double getTime() const override { return now; }
  void setTickInterval(uint32_t) override {}
  uint32_t getTickInterval() const override { return 0; }
  void start() override {}
  void stop() override {}
  void setTimer(double d) override { m_nextWakeup = d; asked.push_back(d); }
  void wake() { m_wakeupFn(); }
};
struct Intf : AdapterExecInterface {
  void handleValueChange(State const &, const Value &) override {} void handleValueChange(State const &, Value &&) override {}
  void handleValueChange(State &&, const Value &) override {} void handleValueChange(State &&, Value &&) override {}
  void handleCommandAck(Command *, CommandHandleValue) override {} void handleCommandReturn(Command *, Value const &) override {} void handleCommandReturn(Command *, Value &&) override {}
  void handleCommandAbortAck(Command *, bool) override {} void handleUpdateAck(Update *, bool) override {}
  void notifyMessageReceived(Message *) override {} void notifyMessageQueueEmpty() override {} void notifyMessageAccepted(Message *, std::string const &) override {} void notifyMessageHandleReleased(std::string const &) override {}
  void handleAddPlan(pugi::xml_node const) override {} bool handleAddLibrary(pugi::xml_document *) override { return false; }
  void notifyOfExternalEvent() override {} void notifyAndWaitForCompletion() override {}
};
int main()
{
  struct { void show() {} } m;
  std::unique_ptr<AdapterConfiguration> config(makeAdapterConfiguration());
  REGISTER_TIMEBASE(FakeTimebase, "Fake", 5000);
  pugi::xml_document doc;
  doc.load_string("<Adapter AdapterType=\"Time\"><Timebase Type=\"Fake\"/></Adapter>");
  Intf intf;
  std::unique_ptr<InterfaceAdapter> ad(AdapterFactory::createInstance(doc.document_element(), intf));
  WANT(ad && ad->initialize(config.get()) && ad->start());
  config->setThresholds(State("time"), (Real) 1001, (Real) 0);
  WANT(asked.size() == 1);
  now = 1000.5; tb->wake();
  WANT(asked.size() == 2 && asked[1] == 1001);
  now = 1000.995; tb->wake();
  WANT(asked.size() == 3 && asked[2] == 1001);
  now = 1001.001; tb->wake();
  WANT(asked.size() == 3);
  return 0;
}
''')
