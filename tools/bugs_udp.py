from mkbug import bug
bug("string-fills-its-field", "C23",
 "a string parameter exactly as long as its declared field",
 "its last character is lost when it is decoded",
 [("src/interfaces/UdpAdapter/udp-utils.cc", "    for (int i = 0; i < length; i++) {", "    for (int i = 0; i < length - (bufptr[length - 1] != 0); i++) {")],
 r'''#include "udp-utils.hh"
#include <cstdio>
#include <cstring>
int main()
{
  unsigned char b[8]; memset(b, 7, 8); memset(b + 1, 0, 5);
  PLEXIL::encode_string("abcde", b, 1);
  std::string s = PLEXIL::decode_string(b, 1, 5);
  printf("%s\n", s.c_str());
  return s == "abcde" ? 0 : 1;
}
''', extra={"libs": "-lUdpUtils\n"})
bug("smallest-short-integer", "C23",
 "sending -32768 in an array of two byte integers",
 "the message is refused although every value fits its declaration",
 [("src/interfaces/UdpAdapter/UdpAdapter.cc", """              if (INT16_MIN > temp || temp > INT16_MAX) {
                warn("buildUdpBuffer: 2 bytes integers""", """              if (INT16_MIN >= temp || temp > INT16_MAX) {
                warn("buildUdpBuffer: 2 bytes integers""")],
 r"""#include "mini.hh"
#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "ArrayImpl.hh"
#include "Command.hh"
#include "CommandHandler.hh"
#include "InterfaceAdapter.hh"
#include "Message.hh"
#include <memory>
extern "C" void initUdpAdapter();
struct Cmd : Command {
  State s; Cmd(std::string const &n, std::vector<Value> const &a) : s(n, a) {}
  State const &getCommand() const override { return s; } std::string const &getName() const override { return s.name(); }
  std::vector<Value> const &getArgValues() const override { return s.parameters(); } bool isReturnExpected() const override { return false; }
};
struct Intf : AdapterExecInterface {
  CommandHandleValue ack = NO_COMMAND_HANDLE;
  void handleValueChange(State const &, const Value &) override {} void handleValueChange(State const &, Value &&) override {}
  void handleValueChange(State &&, const Value &) override {} void handleValueChange(State &&, Value &&) override {}
  void handleCommandAck(Command *, CommandHandleValue h) override { ack = h; }
  void handleCommandReturn(Command *, Value const &) override {} void handleCommandReturn(Command *, Value &&) override {}
  void handleCommandAbortAck(Command *, bool) override {} void handleUpdateAck(Update *, bool) override {}
  void notifyMessageReceived(Message *) override {} void notifyMessageQueueEmpty() override {} void notifyMessageAccepted(Message *, std::string const &) override {} void notifyMessageHandleReleased(std::string const &) override {}
  void handleAddPlan(pugi::xml_node const) override {} bool handleAddLibrary(pugi::xml_document *) override { return false; }
  void notifyOfExternalEvent() override {} void notifyAndWaitForCompletion() override {}
};
int main()
{
  miniInit(); initUdpAdapter();
  Mini m; Intf i;
  pugi::xml_document d;
  d.load_string("<Adapter AdapterType=\"UdpAdapter\"><Message name=\"m\" peer=\"127.0.0.1\" peer_port=\"9\" local_port=\"9876\"><Parameter type=\"int-array\" bytes=\"2\" elements=\"3\"/></Message></Adapter>");
  std::unique_ptr<AdapterConfiguration> c(makeAdapterConfiguration());
  std::unique_ptr<InterfaceAdapter> a(AdapterFactory::createInstance(d.document_element(), i));
  if (!a || !a->initialize(c.get())) return 3;
  Cmd e("m", {Value(IntegerArray(std::vector<Integer>{-32768, 0, 32767}))});
  c->getCommandHandler("m")->executeCommand(&e, &i);
  WANT(i.ack == COMMAND_SUCCESS);
  return 0;
}
""", extra={"libs": "-lUdpAdapter -lUdpUtils\n"})
