// C14: documents near and far from valid plans.  C27: uses against declarations.
#include "sut.hh"
#include "SymbolTable.hh"
#include <fstream>
#include <functional>
using namespace PLEXIL;
using pugi::xml_document; using pugi::xml_node; using pugi::xml_attribute;

static void init()
{
  Error::doThrowExceptions();
  PlanError::doThrowExceptions();
  InterfaceError::doThrowExceptions();
}
static int s_serial = 0;

static std::string text(xml_node n)
{
  std::ostringstream o;
  n.print(o, "", pugi::format_raw | pugi::format_no_declaration);
  return o.str();
}
static void load(xml_document &d, std::string const &x)
{
  pugi::xml_parse_result r = d.load_buffer(x.data(), x.size(), XML_OPTIONS);
  if (r.status != pugi::status_ok) PBT_FAIL("harness: not well-formed (" << r.description() << "): " << x);
}

// ---- loading ----

struct Loaded { NodeImpl *root = nullptr; std::string why; };

template <typename F> static void guarded(F f, std::string const &what)
{
  try { f(); }
  catch (ParserException const &) { throw; }
  catch (Error const &e) { PBT_FAIL(what << ": internal error: " << e.what()); }
  catch (PlanError const &e) { PBT_FAIL(what << ": plan error instead of a parser error: " << e.what()); }
  catch (std::exception const &e) { PBT_FAIL(what << ": " << typeid(e).name() << ": " << e.what()); }
}

static Loaded loadPlan(std::string const &x)
{
  xml_document d;
  load(d, x);
  Loaded r;
  try { guarded([&] { r.root = parsePlan(d.document_element()); }, "parsePlan"); }
  catch (ParserException const &e) {
    r.why = e.what();
    PBT_CHECK(!r.why.empty(), "the plan was refused without saying why");
    return r;
  }
  PBT_CHECK(r.root, "parsePlan returned no plan and reported no error");
  return r;
}
static Library const *loadLibrary(std::string const &x)
{
  xml_document *d = new xml_document;
  load(*d, x);
  Library const *l = nullptr;
  guarded([&] { l = loadLibraryDocument(d); }, "loadLibraryDocument");
  return l;
}

// ---- a plan which must not be affected ----

static PCase *s_ctl = nullptr;
static std::string s_ctlTrace;
static const char *CTL_LIB = "<PlexilPlan><GlobalDeclarations><StateDeclaration><Name>ctls</Name><Return><Name>_r</Name><Type>Integer</Type></Return></StateDeclaration></GlobalDeclarations>"
  "<Node NodeType=\"Assignment\"><NodeId>CtlLib</NodeId><Interface><In><DeclareVariable><Name>a</Name><Type>Integer</Type></DeclareVariable></In><InOut><DeclareVariable><Name>b</Name><Type>Integer</Type></DeclareVariable></InOut></Interface>"
  "<NodeBody><Assignment><IntegerVariable>b</IntegerVariable><NumericRHS><ADD><IntegerVariable>a</IntegerVariable><LookupNow><Name><StringValue>ctls</StringValue></Name></LookupNow></ADD></NumericRHS></Assignment></NodeBody></Node></PlexilPlan>";
static const char *CTL_PLAN = "<PlexilPlan><GlobalDeclarations><CommandDeclaration><Name>ctlc</Name><Return><Name>_r</Name><Type>Integer</Type></Return><Parameter><Name>p</Name><Type>Integer</Type></Parameter></CommandDeclaration>"
  "<StateDeclaration><Name>ctls</Name><Return><Name>_r</Name><Type>Integer</Type></Return></StateDeclaration></GlobalDeclarations>"
  "<Node NodeType=\"NodeList\"><NodeId>Ctl</NodeId><VariableDeclarations><DeclareVariable><Name>x</Name><Type>Integer</Type><InitialValue><IntegerValue>3</IntegerValue></InitialValue></DeclareVariable>"
  "<DeclareArray><Name>ar</Name><Type>Real</Type><MaxSize>3</MaxSize></DeclareArray></VariableDeclarations>"
  "<NodeBody><NodeList>"
  "<Node NodeType=\"LibraryNodeCall\"><NodeId>L</NodeId><NodeBody><LibraryNodeCall><NodeId>CtlLib</NodeId><Alias><NodeParameter>a</NodeParameter><IntegerValue>4</IntegerValue></Alias><Alias><NodeParameter>b</NodeParameter><IntegerVariable>x</IntegerVariable></Alias></LibraryNodeCall></NodeBody></Node>"
  "<Node NodeType=\"Command\"><NodeId>C</NodeId><StartCondition><Finished><NodeRef dir=\"sibling\">L</NodeRef></Finished></StartCondition><EndCondition><EQInternal><NodeCommandHandleVariable><NodeRef dir=\"self\"/></NodeCommandHandleVariable><NodeCommandHandleValue>COMMAND_SUCCESS</NodeCommandHandleValue></EQInternal></EndCondition>"
  "<NodeBody><Command><Name><StringValue>ctlc</StringValue></Name><Arguments><IntegerVariable>x</IntegerVariable></Arguments></Command></NodeBody></Node>"
  "<Node NodeType=\"Assignment\"><NodeId>A</NodeId><StartCondition><Finished><NodeRef dir=\"sibling\">C</NodeRef></Finished></StartCondition><NodeBody><Assignment><ArrayElement><Name>ar</Name><Index><IntegerValue>1</IntegerValue></Index></ArrayElement><NumericRHS><SQRT><IntegerVariable>x</IntegerVariable></SQRT></NumericRHS></Assignment></NodeBody></Node>"
  "<Node NodeType=\"Update\"><NodeId>U</NodeId><StartCondition><GT><ArrayElement><Name>ar</Name><Index><IntegerValue>1</IntegerValue></Index></ArrayElement><RealValue>0</RealValue></GT></StartCondition><NodeBody><Update><Pair><Name>k</Name><IntegerVariable>x</IntegerVariable></Pair></Update></NodeBody></Node>"
  "</NodeList></NodeBody></Node></PlexilPlan>";

static void answer(Sut &s)
{
  for (SCmd const &c : s.cmds) {
    if (c.kind == 0) dynamic_cast<CommandImpl *>(c.cmd)->setCommandHandle(COMMAND_SUCCESS);
    else if (c.kind == 1) dynamic_cast<CommandImpl *>(c.cmd)->setCommandHandle(COMMAND_DENIED);
    else dynamic_cast<CommandImpl *>(c.cmd)->acknowledgeAbort(true);
  }
  std::vector<SUpd> u = s.upds;
  for (SUpd const &x : u) x.upd->acknowledge(true);
}
static void stepTrace(Sut &s, std::string &t)
{
  s.world.time += 1;
  s.step();
  for (SBatch const &b : s.batches) { t += "["; std::vector<std::string> v; for (Tr const &x : b.tr) v.push_back(std::to_string(x.node) + ":" + nodeStateName(x.n) + "/" + outcomeName(x.out) + "/" + failureTypeName(x.fail) + " "); std::sort(v.begin(), v.end()); for (std::string const &x : v) t += x; t += "]"; }
  std::vector<std::string> did; // what is done in one step has no order
  for (SAssign const &a : s.assigns) did.push_back(a.name + "=" + mstr(a.v) + " ");
  for (SCmd const &c : s.cmds) { std::string x = c.name + "("; for (MVal const &v : c.args) x += mstr(v) + ","; did.push_back(x + ") "); }
  std::sort(did.begin(), did.end());
  for (std::string const &x : did) t += x;
  for (SUpd const &u : s.upds) for (auto const &p : u.pairs) t += p.first + ":" + mstr(p.second) + " ";
  t += "|";
  answer(s);
}

static std::unique_ptr<Sut> startControl(std::string &t)
{
  if (!s_ctl) {
    s_ctl = new PCase;
    s_ctl->states.push_back({"ctls", INTEGER_TYPE, {}, true, true});
    PBT_CHECK(loadLibrary(CTL_LIB), "the control library was refused");
  }
  std::unique_ptr<Sut> s(new Sut(*s_ctl));
  s->world.set["ctls"] = MVal::integer(5);
  s->add(Sut::parse(CTL_PLAN));
  for (int k = 0; k < 2; ++k) stepTrace(*s, t);
  return s;
}
static void endControl(std::unique_ptr<Sut> &s, std::string &t)
{
  for (int k = 0; k < 7; ++k) stepTrace(*s, t);
  s.reset();
}
static void checkControl(std::string const &t, std::string const &when)
{
  if (s_ctlTrace.empty()) s_ctlTrace = t;
  PBT_CHECK(t == s_ctlTrace, "a valid plan ran differently " << when << ":\n" << t << "\ninstead of\n" << s_ctlTrace);
}
static void checkBalanced(std::string const &decl)
{
  for (char const *n : {"ctls", "ctlc"})
    PBT_CHECK(!getLookupSymbol(n) && !getCommandSymbol(n), "a symbol table is left in force after loading");
  (void) decl;
}

// ---- running what was accepted ----

static void runAccepted(NodeImpl *root, PCase const &c, pbt::Ctx &ctx)
{
  Sut s(c);
  s.maxBatches = 60;
  long trans = 0;
  try {
    s.add(root);
    for (int k = 0; k < 8; ++k) {
      s.world.time += 1;
      s.step();
      for (SBatch const &b : s.batches) trans += (long) b.tr.size();
      answer(s);
    }
  }
  catch (PlanError const &) { ctx.label("ran into a plan error"); return; }
  catch (InterfaceError const &) { ctx.label("ran into an interface error"); return; }
  catch (ParserException const &e) { PBT_FAIL("a parser exception while running: " << e.what()); }
  catch (EndlessStep &) { ctx.label("ran into an endless step"); return; }
  // the plan takes a state for one of another type than the interface does
  catch (Error const &e) { if (strstr(e.what(), ": trying to get ")) { ctx.label("ran into values of another type"); return; } PBT_FAIL("internal error while running an accepted plan: " << e.what()); }
  catch (pbt::Failure &) { throw; }
  catch (std::exception const &e) { PBT_FAIL("running an accepted plan: " << typeid(e).name() << ": " << e.what()); }
  ctx.label("transitions of accepted plans", trans);
}

// ---- plans to start from ----

static void makeCase(pbt::Gen &g, PCase &c, Feat f, std::string const &uniq)
{
  f.resources = g.chance(1, 2);
  f.mutex = g.chance(1, 2);
  f.iface = g.chance(1, 2);
  if (g.chance(1, 2)) { f.libs = 1; f.wLib = 4; f.mutex = false; }
  f.nodes = (int) g.range(2, 6);
  f.wUpd = 3; f.wCmd = 4;
  f.declPct = 60;
  PlanGen(g, f, c, uniq).run();
}

static std::vector<xml_node> elements(xml_node root)
{
  std::vector<xml_node> r;
  std::function<void(xml_node)> go = [&] (xml_node n) { if (n.type() != pugi::node_element) return; r.push_back(n); for (xml_node k : n.children()) go(k); };
  go(root);
  return r;
}
static std::vector<xml_node> find(xml_node root, std::function<bool(xml_node)> f)
{
  std::vector<xml_node> r;
  for (xml_node n : elements(root)) if (f(n)) r.push_back(n);
  return r;
}
static std::vector<xml_node> named(xml_node root, std::string const &tag) { return find(root, [&] (xml_node n) { return tag == n.name(); }); }
static bool suffix(xml_node n, std::string const &s) { std::string t = n.name(); return t.size() >= s.size() && !t.compare(t.size() - s.size(), s.size(), s); }
static void put(xml_node n, std::string const &x) { while (n.first_child()) n.remove_child(n.first_child()); n.append_buffer(x.data(), x.size(), XML_OPTIONS); }
static xml_node replace(xml_node n, std::string const &x) // by one element
{
  xml_document d;
  load(d, x);
  xml_node p = n.parent(), r = p.insert_copy_before(d.document_element(), n);
  p.remove_child(n);
  return r;
}
static void setText(xml_node n, std::string const &t) { while (n.first_child()) n.remove_child(n.first_child()); if (!t.empty()) n.append_child(pugi::node_pcdata).set_value(t.c_str()); }

static const char *TAGS[] = {"ABS", "ADD", "ALL_KNOWN", "AND", "ANY_KNOWN", "ArraySize", "ArrayMaxSize", "ArrayElement", "ArrayValue", "ArrayVariable", "BooleanValue", "BooleanVariable", "CEIL", "Concat", "DIV", "DeclareArray", "DeclareVariable",
  "EQArray", "EQBoolean", "EQInternal", "EQNumeric", "EQString", "NEArray", "NEBoolean", "NEInternal", "NENumeric", "NEString", "Executing", "Failed", "Finished", "FLOOR", "GE", "GT", "Inactive", "IntegerValue", "IntegerVariable", "IterationEnded",
  "IsKnown", "LE", "LT", "LookupNow", "LookupOnChange", "MAX", "MIN", "MOD", "MUL", "NOT", "NodeCommandHandleValue", "NodeCommandHandleVariable", "NodeFailureValue", "NodeFailureVariable", "NodeOutcomeValue", "NodeOutcomeVariable", "NodeStateValue",
  "NodeStateVariable", "NodeTimepointValue", "NoChildFailed", "OR", "PostconditionFailed", "REAL_TO_INT", "ROUND", "RealValue", "RealVariable", "SQRT", "STRLEN", "SUB", "Skipped", "StringValue", "StringVariable", "Succeeded", "TRUNC", "Waiting", "XOR",
  "DateValue", "DurationValue", "DateVariable", "Value", "Variable", "RHS", "Condition", "PlexilPlan", "GlobalDeclarations", "CommandDeclaration", "Return", "Parameter", "AnyParameters", "StateDeclaration", "LibraryNodeDeclaration", "Node", "NodeId",
  "Comment", "Priority", "UsingMutex", "Interface", "In", "InOut", "NodeBody", "Assignment", "NumericRHS", "BooleanRHS", "StringRHS", "ArrayRHS", "LibraryNodeCall", "Alias", "NodeParameter", "NodeList", "VariableDeclarations", "Name", "Type",
  "InitialValue", "MaxSize", "DeclareMutex", "StartCondition", "RepeatCondition", "PreCondition", "PostCondition", "InvariantCondition", "EndCondition", "ExitCondition", "SkipCondition", "NodeRef", "Timepoint", "Arguments", "Pair", "Tolerance",
  "Command", "Update", "Resource", "ResourceList", "ResourceName", "ResourcePriority", "ResourceUpperBound", "ResourceReleaseAtTermination", "Index", "Assume", "Bogus", "ConcurrentIf", "AncestorEndCondition", "ActionCompleteCondition", "Operation", "Action"};

static std::string anyText(pbt::Gen &g, xml_node root)
{
  static const char *pool[] = {"", "0", "1", "-1", "3", "2147483647", "-2147483648", "99999999999", "1.5", "1e400", "NaN", "x", "true", "UNKNOWN", " ", "\n  ", "Integer", "Real", "Boolean", "String", "Date", "Duration", "Any", "Array", "IntegerArray",
    "WAITING", "FINISHED", "SUCCESS", "COMMAND_SUCCESS", "START", "END", "self", "parent", "child", "sibling", "&", "<", "\xc3\xa9", "Root", "time"};
  if (g.chance(1, 2)) { // a name used elsewhere
    std::vector<std::string> names;
    for (xml_node n : elements(root)) if (n.first_child().type() == pugi::node_pcdata) names.push_back(n.child_value());
    if (!names.empty()) return g.pick(names);
  }
  return g.pick(pool);
}

// One random change to the document; says what it did.
static std::string mutate(pbt::Gen &g, xml_document &d)
{
  xml_node root = d.document_element();
  std::vector<xml_node> el = elements(root);
  xml_node n = g.pick(el);
  std::string at = n.name();
  switch (g.weighted({10, 8, 10, 10, 6, 8, 6, 5, 5, 4, 5, 3})) {
  case 0: { // remove
    if (n == root) return "";
    n.parent().remove_child(n);
    return "remove " + at;
  }
  case 1: { // duplicate
    if (n == root) return "";
    n.parent().insert_copy_after(n, n);
    return "duplicate " + at;
  }
  case 2: { // rename
    std::string t = g.pick(TAGS);
    n.set_name(t.c_str());
    return "rename " + at + " to " + t;
  }
  case 3: { // text
    std::vector<xml_node> tx;
    for (xml_node e : el) if (e.first_child().type() == pugi::node_pcdata || !e.first_child()) tx.push_back(e);
    if (tx.empty()) return "";
    n = g.pick(tx);
    std::string t = anyText(g, root);
    setText(n, t);
    return std::string("text of ") + n.name() + " := '" + t + "'";
  }
  case 4: { // swap with the next sibling
    xml_node s = n.next_sibling();
    if (!s || n == root) return "";
    n.parent().insert_move_before(s, n);
    return "swap " + at + " and " + s.name();
  }
  case 5: { // replace by a copy of another subtree
    xml_node o = g.pick(el);
    if (n == root || o == root) return "";
    xml_document t;
    t.append_copy(o);
    n.parent().insert_copy_before(t.document_element(), n);
    n.parent().remove_child(n);
    return "replace " + at + " by " + t.document_element().name();
  }
  case 6: { // wrap
    if (n == root) return "";
    std::string t = g.pick(TAGS);
    xml_node w = n.parent().insert_child_before(t.c_str(), n);
    w.append_move(n);
    return "wrap " + at + " in " + t;
  }
  case 7: { // attributes
    std::vector<xml_node> at2;
    for (xml_node e : el) if (e.first_attribute()) at2.push_back(e);
    if (at2.empty()) return "";
    n = g.pick(at2);
    xml_attribute a = n.first_attribute();
    static const char *vals[] = {"", "Assignment", "Command", "Empty", "NodeList", "Update", "LibraryNodeCall", "Sequence", "self", "parent", "child", "sibling", "Integer", "Real", "Boolean", "String", "Array", "Any", "IntegerArray", "Date"};
    if (g.chance(1, 4)) { n.remove_attribute(a); return std::string("remove attribute of ") + n.name(); }
    std::string v = g.pick(vals);
    a.set_value(v.c_str());
    return std::string("attribute of ") + n.name() + " := '" + v + "'";
  }
  case 8: { // insert an element
    std::string t = g.pick(TAGS);
    xml_node k = g.chance(1, 2) ? n.prepend_child(t.c_str()) : n.append_child(t.c_str());
    if (g.chance(1, 2)) setText(k, anyText(g, root));
    return "insert " + t + " into " + at;
  }
  case 9: { // insert text
    std::string t = anyText(g, root);
    xml_node k = g.chance(1, 2) ? n.prepend_child(pugi::node_pcdata) : n.append_child(pugi::node_pcdata);
    k.set_value(t.c_str());
    return "insert text '" + t + "' into " + at;
  }
  case 10: { // empty
    while (n.first_child()) n.remove_child(n.first_child());
    return "empty " + at;
  }
  default: { // nest a node deeper, or move it elsewhere
    xml_node o = g.pick(el);
    if (n == root || o == n) return "";
    for (xml_node p = o; p; p = p.parent()) if (p == n) return "";
    o.append_move(n);
    return "move " + at + " into " + o.name();
  }
  }
}

static void mutants(pbt::Gen &g, pbt::Ctx &ctx)
{
  std::string uniq = std::to_string(++s_serial);
  PCase c;
  makeCase(g, c, Feat(), uniq);
  std::vector<std::string> docs;
  for (auto const &l : c.libs) docs.push_back(planXml(*l, c));
  docs.push_back(planXml(*c.plans[0], c));
  size_t which = docs.size() == 1 || g.chance(2, 3) ? docs.size() - 1 : 0;
  xml_document d;
  load(d, docs[which]);
  int n = (int) g.weighted({8, 4, 2, 1}) + 1;
  std::string what;
  for (int k = 0; k < n; ++k) { std::string w = mutate(g, d); if (!w.empty()) what += (what.empty() ? "" : "; ") + w; }
  for (xml_node e : named(d.document_element(), "MaxSize")) if (std::abs(atoll(e.child_value())) > 100000) throw pbt::Discard(); // a matter of the machine's memory
  std::string before = docs[which];
  docs[which] = text(d.document_element());
  ctx.addHash(docs[which]);
  ctx.sample = (which == docs.size() - 1 ? "plan: " : "library: ") + what;
  if (ctx.verbose) { for (std::string const &x : docs) ctx.sample += "\n" + x; }
  ctx.nontrivial = docs[which] != before;

  std::string trace;
  std::unique_ptr<Sut> ctl = startControl(trace);
  bool libOk = true;
  if (docs.size() > 1) {
    libOk = loadLibrary(docs[0]) != nullptr;
    if (which == 0) ctx.label(libOk ? "mutated libraries accepted" : "mutated libraries refused");
    else PBT_CHECK(libOk, "a valid library was refused: " << docs[0]);
  }
  Loaded r = loadPlan(docs.back());
  checkBalanced(uniq);
  endControl(ctl, trace);
  checkControl(trace, "while a document was loaded");
  ctx.sample += r.root ? " -> accepted" : " -> " + r.why;
  if (which == docs.size() - 1) ctx.label(r.root ? "mutated plans accepted" : "mutated plans refused");
  if (r.root) runAccepted(r.root, c, ctx);
  trace.clear();
  ctl = startControl(trace);
  endControl(ctl, trace);
  checkControl(trace, "after a document was loaded");
}

// ---- rules ----

struct Decl { std::string name; ValueType t; bool writable; };
static ValueType typeNamed(std::string const &s, bool arr)
{
  ValueType t = s == "Boolean" ? BOOLEAN_TYPE : s == "Integer" ? INTEGER_TYPE : s == "Real" || s == "Date" || s == "Duration" ? REAL_TYPE : s == "String" ? STRING_TYPE : UNKNOWN_TYPE;
  return arr ? (ValueType) (t + ARRAY_TYPE) : t;
}
static std::vector<Decl> visibleAt(xml_node n) // nearest first
{
  std::vector<Decl> r;
  std::set<std::string> seen;
  for (xml_node m = n; m; m = m.parent()) {
    if (strcmp(m.name(), "Node")) continue;
    std::vector<Decl> here;
    auto add = [&] (xml_node list, bool w) { for (xml_node d : list.children()) if (strcmp(d.name(), "DeclareMutex")) here.push_back({d.child_value("Name"), typeNamed(d.child_value("Type"), !strcmp(d.name(), "DeclareArray")), w}); };
    add(m.child("VariableDeclarations"), true);
    for (xml_node i : m.child("Interface").children()) add(i, !strcmp(i.name(), "InOut"));
    for (Decl const &d : here) if (seen.insert(d.name).second) r.push_back(d);
  }
  return r;
}
static Decl const *lookDecl(std::vector<Decl> const &v, std::string const &n) { for (Decl const &d : v) if (d.name == n) return &d; return nullptr; }
static std::string literal(pbt::Gen &g, ValueType t)
{
  switch (t) {
  case BOOLEAN_TYPE: return g.chance(1, 2) ? "<BooleanValue>true</BooleanValue>" : "<BooleanValue>0</BooleanValue>";
  case INTEGER_TYPE: return "<IntegerValue>" + std::to_string(g.range(0, 3)) + "</IntegerValue>";
  case REAL_TYPE: return "<RealValue>" + std::string(g.chance(1, 2) ? "2.5" : "1") + "</RealValue>";
  case STRING_TYPE: return g.chance(1, 2) ? "<StringValue>q</StringValue>" : "<StringValue/>";
  default: return "";
  }
}
static std::string arrayLiteral(pbt::Gen &g, ValueType el, int n)
{
  std::string ty = typeTag(el), r = "<ArrayValue Type=\"" + ty + "\">";
  for (int k = 0; k < n; ++k) r += literal(g, el);
  return r + "</ArrayValue>";
}
static const ValueType SCALAR[] = {BOOLEAN_TYPE, INTEGER_TYPE, REAL_TYPE, STRING_TYPE};
static bool compatible(ValueType dest, ValueType src) { return dest == src || (dest == REAL_TYPE && src == INTEGER_TYPE) || (dest == ARRAY_TYPE && src > ARRAY_TYPE); }
static bool arr(ValueType t) { return t > ARRAY_TYPE && t < ARRAY_TYPE_MAX; }
// a literal which doesn't fit a variable of type t
static std::string misfit(pbt::Gen &g, ValueType t)
{
  for (int k = 0; k < 20; ++k) {
    ValueType s = g.pick(SCALAR);
    if (g.chance(1, 4)) { ValueType a = (ValueType) (s + ARRAY_TYPE); if (!compatible(t, a)) return arrayLiteral(g, s, (int) g.range(0, 2)); continue; }
    if (!compatible(t, s)) return literal(g, s);
  }
  return t == STRING_TYPE ? "<BooleanValue>1</BooleanValue>" : "<StringValue>q</StringValue>";
}

static xml_node addInterface(xml_node node, Decl const &x, char const *part)
{
  bool a = arr(x.t);
  std::string tag = a ? "DeclareArray" : "DeclareVariable";
  xml_document d;
  load(d, std::string("<Interface><") + part + "><" + tag + "><Name>" + x.name + "</Name><Type>" + typeTag(a ? (ValueType) (x.t - ARRAY_TYPE) : x.t) + "</Type>" + (a ? "<MaxSize>3</MaxSize>" : "") + "</" + tag + "></" + part + "></Interface>");
  return node.insert_copy_after(d.document_element(), node.child("NodeId"));
}
static bool declares(xml_node node, std::string const &name)
{
  for (xml_node d : node.child("VariableDeclarations").children()) if (name == d.child_value("Name")) return true;
  return false;
}

// makes a variable an In parameter of a node with the given body
static void makeReadOnly(pbt::Gen &g, xml_node root, char const *body)
{
  std::vector<std::pair<xml_node, Decl>> c;
  for (xml_node b : named(root, body)) {
    xml_node n = b.parent().parent();
    if (n.child("Interface") || !n.child("NodeId")) continue;
    for (Decl const &d : visibleAt(n)) if (d.writable && !declares(n, d.name)) { c.push_back({n, d}); if (arr(d.t)) c.push_back({n, d}); }
  }
  if (c.empty()) return;
  auto p = g.pick(c);
  addInterface(p.first, p.second, "In");
}

typedef std::function<std::string(pbt::Gen &, xml_node)> Rule; // breaks the document; says how; empty: can't be applied
static std::vector<xml_node> sub; // scratch

// a name which is declared in the document, if there is one, but not where n is
static std::string outOfScope(pbt::Gen &g, xml_node root, xml_node n, char const *tag1, char const *tag2)
{
  std::set<std::string> here, c;
  for (Decl const &d : visibleAt(n)) here.insert(d.name);
  for (xml_node m = n; m; m = m.parent()) for (char const *part : {"VariableDeclarations", "Interface"}) for (xml_node d : elements(m.child(part))) here.insert(d.child_value("Name"));
  for (xml_node d : root.child("GlobalDeclarations").children()) here.insert(d.child_value("Name"));
  for (char const *t : {tag1, tag2}) for (xml_node d : named(root, t)) if (!here.count(d.child_value("Name"))) c.insert(d.child_value("Name"));
  if (c.empty() || g.chance(1, 3)) return "undeclared";
  return g.pick(std::vector<std::string>(c.begin(), c.end()));
}
// the name of a node which can't be referred to at the node reference n
static std::string unreachable(pbt::Gen &g, xml_node root, xml_node n)
{
  auto up = [] (xml_node m) { do m = m.parent(); while (m && strcmp(m.name(), "Node")); return m; };
  std::set<std::string> reach, c;
  auto kids = [&] (xml_node m) {
    for (xml_node k : m.child("NodeBody").child("NodeList").children("Node")) reach.insert(k.child_value("NodeId"));
    if (xml_node l = m.child("NodeBody").child("LibraryNodeCall")) reach.insert(l.child_value("NodeId"));
  };
  xml_node e = up(n);
  std::string dir = n.attribute("dir").value();
  if (dir == "child") kids(e);
  else if (dir == "sibling") kids(up(e));
  else for (xml_node m = e; m; m = up(m)) { reach.insert(m.child_value("NodeId")); kids(m); }
  for (xml_node m : named(root, "Node")) if (!reach.count(m.child_value("NodeId"))) c.insert(m.child_value("NodeId"));
  if (c.empty()) return "nosuchnode";
  return g.pick(std::vector<std::string>(c.begin(), c.end()));
}
#define PICK(var, list) std::vector<xml_node> var##_l = (list); if (var##_l.empty()) return std::string(); xml_node var = g.pick(var##_l)

static bool isOperator(xml_node n)
{
  static const std::set<std::string> ops = {"ABS", "ADD", "ALL_KNOWN", "AND", "ANY_KNOWN", "ArraySize", "ArrayMaxSize", "CEIL", "Concat", "DIV", "EQArray", "EQBoolean", "EQInternal", "EQNumeric", "EQString", "NEArray", "NEBoolean", "NEInternal", "NENumeric", "NEString",
    "FLOOR", "GE", "GT", "IsKnown", "LE", "LT", "MAX", "MIN", "MOD", "MUL", "NOT", "OR", "REAL_TO_INT", "ROUND", "SQRT", "STRLEN", "SUB", "TRUNC", "XOR"};
  return ops.count(n.name());
}
static bool isVarDecl(xml_node e) // one of a node's
{
  return (!strcmp(e.name(), "DeclareVariable") || !strcmp(e.name(), "DeclareArray")) && strcmp(e.parent().parent().parent().name(), "LibraryNodeDeclaration") && strcmp(e.parent().parent().name(), "LibraryNodeDeclaration");
}
static bool isVarRef(xml_node n)
{
  static const std::set<std::string> s = {"BooleanVariable", "IntegerVariable", "RealVariable", "StringVariable", "ArrayVariable"};
  return s.count(n.name());
}
static bool isLit(xml_node n)
{
  static const std::set<std::string> s = {"BooleanValue", "IntegerValue", "RealValue", "StringValue"};
  return s.count(n.name());
}
static bool isNodePred(xml_node n)
{
  static const std::set<std::string> s = {"Executing", "Failed", "Finished", "Inactive", "IterationEnded", "NoChildFailed", "PostconditionFailed", "Skipped", "Succeeded", "Waiting"};
  return s.count(n.name());
}
static bool isExpr(xml_node n)
{
  return isOperator(n) || isVarRef(n) || isLit(n) || isNodePred(n) || !strcmp(n.name(), "ArrayElement") || !strcmp(n.name(), "LookupNow") || !strcmp(n.name(), "LookupOnChange");
}
static bool isCond(xml_node n) { return suffix(n, "Condition"); }

static std::vector<std::pair<char const *, Rule>> const &rules()
{
  static std::vector<std::pair<char const *, Rule>> r = {
    {"node without NodeId", [] (pbt::Gen &g, xml_node root) { PICK(n, named(root, "Node")); n.remove_child("NodeId"); return std::string("removed"); }},
    {"node with an empty NodeId", [] (pbt::Gen &g, xml_node root) { PICK(n, named(root, "Node")); setText(n.child("NodeId"), ""); return std::string("emptied"); }},
    {"node without NodeType", [] (pbt::Gen &g, xml_node root) { PICK(n, named(root, "Node")); n.remove_attribute("NodeType"); return std::string("removed"); }},
    {"bad NodeType", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "Node"));
        static const char *v[] = {"", "Sequence", "assignment", "Comman", "Updates", "Lists", "error", "Library"};
        n.attribute("NodeType").set_value(g.pick(v)); return "'" + std::string(n.attribute("NodeType").value()) + "'"; }},
    {"NodeType not that of the body", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "Node"));
        static const char *v[] = {"Assignment", "Command", "Empty", "LibraryNodeCall", "Update", "NodeList"};
        std::string t = g.pick(v), old = n.attribute("NodeType").value();
        if (t == old) return std::string();
        if (t == "NodeList" && old == "Update" && !n.child("NodeBody").child("Update").first_child()) return std::string();
        n.attribute("NodeType").set_value(t.c_str()); return old + " to " + t; }},
    {"duplicate part of a node", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.parent().name(), "Node"); }));
        n.parent().insert_copy_after(n, n); return std::string(n.name()); }},
    {"illegal part of a node", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "Node"));
        static const char *v[] = {"Bogus", "NodeRef", "Name", "Assignment", "EndConditions", "startCondition", "Prior", "Using", "V", "ActionCompleteCondition"};
        std::string t = g.pick(v);
        n.append_child(t.c_str()); return t; }},
    {"node without its body", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.name(), "Node") && e.child("NodeBody"); }));
        if (g.chance(1, 2)) n.remove_child("NodeBody"); else n.child("NodeBody").remove_child(n.child("NodeBody").first_child());
        return std::string(n.attribute("NodeType").value()); }},
    {"two children of the same name", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.name(), "Node") && !strcmp(e.parent().name(), "NodeList"); }));
        n.parent().insert_copy_after(n, n); return std::string(n.child_value("NodeId")); }},
    {"assignment without a part", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "Assignment"));
        if (g.chance(1, 2)) { n.remove_child(n.last_child()); return std::string("no right hand side"); }
        n.remove_child(n.first_child()); return std::string("no destination"); }},
    {"assignment of nothing", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "Assignment"));
        while (n.last_child().first_child()) n.last_child().remove_child(n.last_child().first_child());
        return std::string("empty right hand side"); }},
    {"assignment of a wrong type", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "Assignment"));
        xml_node d = n.first_child();
        auto vis = visibleAt(n);
        Decl const *x = lookDecl(vis, isVarRef(d) ? d.child_value() : d.child_value("Name"));
        if (!x) return std::string();
        ValueType t = isVarRef(d) ? x->t : (ValueType) (x->t - ARRAY_TYPE);
        std::string v = misfit(g, t);
        put(n.last_child(), v); return std::string(valueTypeName(t)) + " := " + v; }},
    {"assignment to an In parameter", [] (pbt::Gen &g, xml_node root) {
        if (g.chance(2, 3)) makeReadOnly(g, root, "Assignment");
        std::vector<std::pair<xml_node, Decl>> c;
        for (xml_node n : named(root, "Assignment")) for (Decl const &d : visibleAt(n)) if (!d.writable) c.push_back({n, d});
        if (c.empty()) return std::string();
        auto p = g.pick(c);
        xml_node n = p.first;
        std::string tag = arr(p.second.t) ? "ArrayVariable" : typeTag(p.second.t) + "Variable";
        if (arr(p.second.t) && g.chance(1, 2)) {
          replace(n.first_child(), "<ArrayElement><Name>" + p.second.name + "</Name><Index><IntegerValue>0</IntegerValue></Index></ArrayElement>");
          put(n.last_child(), literal(g, (ValueType) (p.second.t - ARRAY_TYPE)));
        }
        else {
          replace(n.first_child(), "<" + tag + ">" + p.second.name + "</" + tag + ">");
          put(n.last_child(), arr(p.second.t) ? arrayLiteral(g, (ValueType) (p.second.t - ARRAY_TYPE), 0) : literal(g, p.second.t));
        }
        return p.second.name; }},
    {"result to an In parameter", [] (pbt::Gen &g, xml_node root) {
        if (g.chance(2, 3)) makeReadOnly(g, root, "Command");
        std::vector<std::pair<xml_node, Decl>> c;
        for (xml_node n : named(root, "Command")) for (Decl const &d : visibleAt(n)) if (!d.writable) c.push_back({n, d});
        if (c.empty()) return std::string();
        auto p = g.pick(c);
        std::string tag = arr(p.second.t) ? "ArrayVariable" : typeTag(p.second.t) + "Variable";
        xml_node nm = p.first.child("Name"), dest = nm.previous_sibling();
        if (dest && strcmp(dest.name(), "ResourceList")) p.first.remove_child(dest);
        put(nm, "<StringValue>anycmd</StringValue>");
        p.first.remove_child("Arguments");
        xml_document d;
        load(d, arr(p.second.t) && g.chance(1, 2) ? "<ArrayElement><Name>" + p.second.name + "</Name><Index><IntegerValue>0</IntegerValue></Index></ArrayElement>" : "<" + tag + ">" + p.second.name + "</" + tag + ">");
        p.first.insert_copy_before(d.document_element(), nm);
        return p.second.name; }},
    {"In parameter as InOut", [] (pbt::Gen &g, xml_node root) {
        struct C { xml_node in, inout; Decl d; };
        std::vector<C> c;
        for (xml_node n : named(root, "Node")) {
          if (n.child("Interface") || !n.child("NodeId")) continue;
          for (Decl const &d : visibleAt(n)) {
            if (declares(n, d.name)) continue;
            if (!d.writable) { c.push_back({xml_node(), n, d}); continue; }
            for (xml_node a = n.parent(); a; a = a.parent()) {
              if (strcmp(a.name(), "Node")) continue;
              if (a.child("Interface") || declares(a, d.name)) break;
              c.push_back({a, n, d});
            }
          }
        }
        if (c.empty()) return std::string();
        C p = g.pick(c);
        if (p.in) addInterface(p.in, p.d, "In");
        addInterface(p.inout, p.d, "InOut");
        return p.d.name; }},
    {"assignment to something else", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "Assignment"));
        static const char *v[] = {"<IntegerValue>1</IntegerValue>", "<LookupNow><Name><StringValue>time</StringValue></Name></LookupNow>", "<ADD><IntegerValue>1</IntegerValue></ADD>", "<NodeStateVariable><NodeRef dir=\"self\"/></NodeStateVariable>",
          "<NodeOutcomeVariable><NodeRef dir=\"self\"/></NodeOutcomeVariable>", "<ArrayValue Type=\"Integer\"/>"};
        std::string x = g.pick(v);
        replace(n.first_child(), x); return "'" + x + "'"; }},
    {"undeclared variable", [] (pbt::Gen &g, xml_node root) { PICK(n, find(root, isVarRef)); std::string x = g.chance(1, 5) ? "" : outOfScope(g, root, n, "DeclareVariable", "DeclareArray"); setText(n, x); return std::string(n.name()) + " " + x; }},
    {"undeclared array", [] (pbt::Gen &g, xml_node root) { PICK(n, named(root, "ArrayElement")); std::string x = g.chance(1, 5) ? "" : outOfScope(g, root, n, "DeclareVariable", "DeclareArray"); setText(n.child("Name"), x); return "element of " + x; }},
    {"variable of another type", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, isVarRef));
        static const char *v[] = {"BooleanVariable", "IntegerVariable", "RealVariable", "StringVariable", "ArrayVariable"};
        std::string t = g.pick(v), old = n.name();
        if (t == old) return std::string();
        n.set_name(t.c_str()); return old + " to " + t; }},
    {"element of a scalar", [] (pbt::Gen &g, xml_node root) {
        std::vector<std::pair<xml_node, std::string>> c;
        for (xml_node n : named(root, "ArrayElement")) for (Decl const &d : visibleAt(n)) if (!arr(d.t)) c.push_back({n, d.name});
        if (c.empty()) return std::string();
        auto p = g.pick(c);
        setText(p.first.child("Name"), p.second); return p.second; }},
    {"index of a wrong type", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "Index"));
        ValueType t; do t = g.pick(SCALAR); while (t == INTEGER_TYPE);
        put(n, literal(g, t)); return std::string(valueTypeName(t)); }},
    {"array element without a part", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "ArrayElement"));
        switch (g.draw(3)) {
        case 0: n.remove_child("Name"); return std::string("Name");
        case 1: n.remove_child("Index"); return std::string("Index");
        default: while (n.child("Index").first_child()) n.child("Index").remove_child(n.child("Index").first_child()); return std::string("index expression");
        } }},
    {"condition of a wrong type", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, isCond));
        ValueType t; do t = g.pick(SCALAR); while (t == BOOLEAN_TYPE);
        std::string v = g.chance(1, 4) ? arrayLiteral(g, BOOLEAN_TYPE, 1) : g.chance(1, 4) ? std::string("<NodeStateVariable><NodeRef dir=\"self\"/></NodeStateVariable>") : literal(g, t);
        put(n, v); return v; }},
    {"empty condition", [] (pbt::Gen &g, xml_node root) { PICK(n, find(root, isCond)); setText(n, g.chance(1, 2) ? "" : "true"); return std::string(n.name()); }},
    {"unknown expression", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return isExpr(e) && !(isVarRef(e) && !strcmp(e.parent().name(), "Command")); }));
        static const char *v[] = {"Bogus", "AN", "ANDD", "and", "Integer", "Value", "Variable", "NodeRef", "Name", "IntegerValues", "DateVariable", "Plus"};
        std::string t = g.pick(v), old = n.name();
        if (isLit(n) && !strcmp(n.parent().name(), "ArrayValue")) return std::string();
        n.set_name(t.c_str()); return old + " to " + t; }},
    {"too many operands", [] (pbt::Gen &g, xml_node root) {
        static const std::set<std::string> any = {"AND", "OR", "XOR", "SUB", "MIN", "MAX", "MUL", "ADD", "Concat"};
        PICK(n, find(root, [] (xml_node e) { return isOperator(e) && !any.count(e.name()); }));
        xml_document d; d.append_copy(n.first_child());
        n.append_copy(d.document_element()); return std::string(n.name()); }},
    {"too few operands", [] (pbt::Gen &g, xml_node root) {
        static const std::set<std::string> any = {"Concat", "AND", "OR", "XOR"}; // the schema allows none
        PICK(n, find(root, [] (xml_node e) { return isOperator(e) && !any.count(e.name()); }));
        static const std::set<std::string> one = {"SUB", "MIN", "MAX", "MUL", "ADD"};
        std::string t = n.name();
        if (one.count(t)) while (n.first_child()) n.remove_child(n.first_child());
        else n.remove_child(n.last_child());
        return t; }},
    {"operand of a wrong type", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return isOperator(e) && strcmp(e.name(), "IsKnown") && e.first_child(); }));
        std::string t = n.name();
        std::vector<xml_node> kids; for (xml_node k : n.children()) kids.push_back(k);
        size_t at = g.draw(kids.size());
        std::string v;
        if (t[1] == 'E' || t[0] == 'E') // a type unknown until run time goes with any
          if (t.compare(0, 2, "GE") && t.compare(0, 2, "LE")) for (xml_node k : kids) if (!strncmp(k.name(), "Lookup", 6)) return std::string();
        static const std::set<std::string> boolean = {"AND", "OR", "XOR", "NOT", "EQBoolean", "NEBoolean"}, str = {"Concat", "STRLEN", "EQString", "NEString"}, arrays = {"ArraySize", "ArrayMaxSize", "ALL_KNOWN", "ANY_KNOWN", "EQArray", "NEArray"}, internal = {"EQInternal", "NEInternal"};
        if (boolean.count(t)) v = misfit(g, BOOLEAN_TYPE);
        else if (str.count(t)) v = misfit(g, STRING_TYPE);
        else if (arrays.count(t)) v = literal(g, g.pick(SCALAR));
        else if (internal.count(t)) v = literal(g, g.pick(SCALAR));
        else if (t == "GT" || t == "GE" || t == "LT" || t == "LE") v = g.chance(1, 2) ? "<BooleanValue>1</BooleanValue>" : arrayLiteral(g, INTEGER_TYPE, 1);
        else v = misfit(g, REAL_TYPE);
        replace(kids[at], v); return t + " of " + v; }},
    {"bad literal", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return isLit(e) && strcmp(e.name(), "StringValue"); }));
        static const char *b[] = {"", "maybe", "2", "TRUE!", "-1", "yes"}, *i[] = {"", "abc", "1.5", "1x", "--1", "2147483648", "-2147483649", "1e3", "true"}, *rr[] = {"", "abc", "1.5x", "--1", "1e", "true", "0x"};
        std::string t = n.name(), v = t == "BooleanValue" ? g.pick(b) : t == "IntegerValue" ? g.pick(i) : g.pick(rr);
        setText(n, v); return t + " " + v; }},
    {"bad internal literal", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { std::string t = e.name(); return t == "NodeStateValue" || t == "NodeOutcomeValue" || t == "NodeFailureValue" || t == "NodeCommandHandleValue"; }));
        static const char *v[] = {"", "SLEEPING", "waiting", "SUCCES", "NO", "COMMAND", "FINISHEDD"};
        std::string x = g.pick(v);
        setText(n, x); return std::string(n.name()) + " " + x; }},
    {"unknown node", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.name(), "NodeRef") || (!strcmp(e.name(), "NodeId") && strcmp(e.parent().name(), "Node") && strcmp(e.parent().name(), "LibraryNodeCall")); }));
        std::string dir = n.attribute("dir").value();
        if (dir == "self" || dir == "parent" || g.chance(1, 2)) { n.set_name("NodeId"); n.remove_attribute("dir"); }
        std::string x = g.chance(1, 5) ? "" : g.chance(1, 3) ? "nosuchnode" : unreachable(g, root, n);
        setText(n, x); return std::string(n.name()) + " " + n.attribute("dir").value() + " " + x; }},
    {"bad node reference", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "NodeRef"));
        static const char *v[] = {"", "uncle", "Self", "selfish", "parents", "chil"};
        if (g.chance(1, 4)) { n.remove_attribute("dir"); return std::string("no dir"); }
        std::string x = g.pick(v);
        n.attribute("dir").set_value(x.c_str()); return "'" + x + "'"; }},
    {"missing node reference", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return isNodePred(e) || !strcmp(e.name(), "NodeStateVariable") || !strcmp(e.name(), "NodeOutcomeVariable") || !strcmp(e.name(), "NodeFailureVariable") || !strcmp(e.name(), "NodeCommandHandleVariable") || !strcmp(e.name(), "NodeTimepointValue"); }));
        n.remove_child(n.first_child()); return std::string(n.name()); }},
    {"parent of the root", [] (pbt::Gen &g, xml_node root) {
        xml_node n = root.child("Node");
        n.remove_child("EndCondition");
        xml_document d; load(d, std::string("<EndCondition>") + (g.chance(1, 2) ? "<Finished><NodeRef dir=\"parent\"/></Finished>" : "<EQInternal><NodeStateVariable><NodeRef dir=\"parent\"/></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal>") + "</EndCondition>");
        n.insert_copy_after(d.document_element(), n.child("NodeId")); return std::string("root"); }},
    {"sibling of the root", [] (pbt::Gen &g, xml_node root) {
        xml_node n = root.child("Node");
        n.remove_child("EndCondition");
        xml_document d; load(d, "<EndCondition><Finished><NodeRef dir=\"sibling\">other</NodeRef></Finished></EndCondition>");
        n.insert_copy_after(d.document_element(), n.child("NodeId")); return std::string("root"); }},
    {"bad time point", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "NodeTimepointValue"));
        switch (g.draw(4)) {
        case 0: n.remove_child("Timepoint"); return std::string("no Timepoint");
        case 1: n.remove_child("NodeStateValue"); return std::string("no state");
        case 2: setText(n.child("Timepoint"), g.chance(1, 2) ? "MIDDLE" : ""); return std::string("which");
        default: setText(n.child("NodeStateValue"), g.chance(1, 2) ? "ASLEEP" : ""); return std::string("state");
        } }},
    {"undeclared mutex", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "Node"));
        if (!n.child("UsingMutex")) n.insert_child_after("UsingMutex", n.child("NodeId"));
        xml_node k = n.child("UsingMutex").append_child("Name");
        std::string x = g.chance(1, 5) ? "" : outOfScope(g, root, n, "DeclareMutex", "DeclareMutex");
        if (!x.empty()) setText(k, x);
        return "name " + x; }},
    {"mutex used twice", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.name(), "UsingMutex") && e.first_child(); }));
        n.append_copy(n.first_child()); return std::string(n.last_child().child_value()); }},
    {"bad priority", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.name(), "Node") && !strcmp(e.attribute("NodeType").value(), "Assignment"); }));
        n.remove_child("Priority");
        static const char *v[] = {"", "x", "1x", "99999999999999999999", "2147483648", "-1", "1.5"};
        std::string x = g.pick(v);
        setText(n.insert_child_after("Priority", n.child("NodeId")), x); return "'" + x + "'"; }},
    {"priority of something else", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.name(), "Node") && strcmp(e.attribute("NodeType").value(), "Assignment"); }));
        setText(n.insert_child_after("Priority", n.child("NodeId")), "1"); return std::string(n.attribute("NodeType").value()); }},
    {"variable declared twice", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, isVarDecl));
        xml_node node = n; while (strcmp(node.name(), "Node")) node = node.parent();
        if (!strcmp(n.parent().name(), "VariableDeclarations")) { n.parent().insert_copy_after(n, n); return std::string(n.child_value("Name")); }
        // also as a local variable or another parameter
        xml_document d; d.append_copy(n);
        if (g.chance(1, 2)) {
          if (!node.child("VariableDeclarations")) node.insert_child_after("VariableDeclarations", node.child("Interface"));
          node.child("VariableDeclarations").append_copy(d.document_element());
          return "local too: " + std::string(n.child_value("Name"));
        }
        std::string other = g.chance(1, 2) ? "In" : "InOut";
        xml_node i = node.child("Interface");
        if (!i.child(other.c_str())) i.append_child(other.c_str());
        i.child(other.c_str()).append_copy(d.document_element());
        return other + " too: " + n.child_value("Name"); }},
    {"declaration without a part", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, isVarDecl));
        std::string part = g.chance(1, 2) ? "Name" : "Type";
        if (g.chance(1, 2)) n.remove_child(part.c_str()); else setText(n.child(part.c_str()), "");
        return part; }},
    {"declaration of an unknown type", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, isVarDecl));
        static const char *v[] = {"Int", "Integers", "integer", "Any", "NodeState", "Array", "IntegerArray", "Variable", "UNKNOWN"};
        std::string x = g.pick(v);
        setText(n.child("Type"), x); return "'" + x + "'"; }},
    {"illegal declaration", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, isVarDecl));
        static const char *v[] = {"Declare", "DeclareVar", "IntegerVariable", "Name", "StringValue"};
        std::string x = g.pick(v);
        n.set_name(x.c_str()); return "'" + x + "'"; }},
    {"bad MaxSize", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return isVarDecl(e) && !strcmp(e.name(), "DeclareArray"); }));
        n.remove_child("MaxSize");
        static const char *v[] = {"", "-1", "x", "1.5", "99999999999", "-2147483648"};
        std::string x = g.pick(v);
        setText(n.insert_child_after("MaxSize", n.child("Type")), x); return "'" + x + "'"; }},
    {"initial value of a wrong type", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, isVarDecl));
        bool a = !strcmp(n.name(), "DeclareArray");
        ValueType t = typeNamed(n.child_value("Type"), a);
        if (!strcmp(n.parent().name(), "In") || !strcmp(n.parent().name(), "InOut")) return std::string(); // may never be needed
        std::string v;
        if (!a) v = misfit(g, t);
        else { ValueType o; do o = g.pick(SCALAR); while (o == t - ARRAY_TYPE || compatible((ValueType) (t - ARRAY_TYPE), o)); v = g.chance(1, 2) ? literal(g, o) : arrayLiteral(g, o, 1); }
        n.remove_child("InitialValue");
        put(n.append_child("InitialValue"), v); return std::string(valueTypeName(t)) + " " + v; }},
    {"initial value from a variable of a wrong type", [] (pbt::Gen &g, xml_node root) { // one of the node's parent
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.name(), "Node") && !strcmp(e.parent().name(), "NodeList"); }));
        xml_node up = n.parent().parent().parent();
        for (xml_node x : {n, up}) if (!x.child("VariableDeclarations")) x.insert_child_after("VariableDeclarations", x.child("NodeId"));
        ValueType t = g.pick(SCALAR), o;
        bool a = g.chance(1, 2), oa = g.chance(2, 3);
        do o = g.pick(SCALAR); while (a == oa && (o == t || compatible(t, o)));
        put(up.child("VariableDeclarations"), std::string("<Declare") + (oa ? "Array" : "Variable") + "><Name>zz1</Name><Type>" + typeTag(o) + "</Type>" + (oa ? "<MaxSize>2</MaxSize>" : "") + "</Declare" + (oa ? "Array>" : "Variable>"));
        put(n.child("VariableDeclarations"), std::string("<Declare") + (a ? "Array" : "Variable") + "><Name>zz2</Name><Type>" + typeTag(t) + "</Type>" + (a ? "<MaxSize>2</MaxSize>" : "") + "<InitialValue><" + (oa ? "Array" : typeTag(o)) + "Variable>zz1</" + (oa ? "Array" : typeTag(o)) + "Variable></InitialValue></Declare" + (a ? "Array>" : "Variable>"));
        return typeTag(t) + (a ? "[]" : "") + " from " + typeTag(o) + (oa ? "[]" : ""); }},
    {"initial value too long", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.name(), "DeclareArray") && e.child("MaxSize"); }));
        n.remove_child("InitialValue");
        int m = atoi(n.child_value("MaxSize"));
        if (m > 50) return std::string();
        put(n.append_child("InitialValue"), arrayLiteral(g, typeNamed(n.child_value("Type"), false), m + 1)); return std::to_string(m) + " + 1"; }},
    {"element of another type in an array", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.name(), "ArrayValue") && e.first_child(); }));
        ValueType t = typeNamed(n.attribute("Type").value(), false), o;
        do o = g.pick(SCALAR); while (compatible(t, o));
        replace(g.chance(1, 2) ? n.first_child() : n.last_child(), literal(g, o)); return std::string(valueTypeName(o)); }},
    {"array literal of a bad type", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "ArrayValue"));
        static const char *v[] = {"", "Int", "Any", "Array", "NodeState", "IntegerArray"};
        if (g.chance(1, 4)) { n.remove_attribute("Type"); return std::string("none"); }
        std::string x = g.pick(v);
        n.attribute("Type").set_value(x.c_str()); return "'" + x + "'"; }},
    {"update pair twice", [] (pbt::Gen &g, xml_node root) { PICK(n, named(root, "Pair"));
        if (g.chance(1, 3)) n.parent().insert_copy_after(n, n);
        else { // not next to it
          xml_node m = n.parent().append_copy(n), k = n.parent().insert_copy_before(n, m);
          setText(k.child("Name"), "between");
        }
        return std::string(n.child_value("Name")); }},
    {"update pair without a part", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "Pair"));
        if (g.chance(1, 3)) { setText(n.child("Name"), ""); return std::string("empty name"); }
        bool v = g.chance(1, 2);
        n.remove_child(v ? n.last_child() : n.first_child()); return std::string(v ? "value" : "name"); }},
    {"update of something else", [] (pbt::Gen &g, xml_node root) { PICK(n, named(root, "Update")); n.append_child("Bogus"); return std::string("Bogus"); }},
    {"command without a name", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "Command"));
        if (g.chance(1, 2)) n.remove_child("Name"); else n.child("Name").remove_child(n.child("Name").first_child());
        return std::string("name"); }},
    {"command name not a String", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "Command"));
        std::string v = misfit(g, STRING_TYPE);
        put(n.child("Name"), v); return v; }},
    {"resource without a part", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "Resource"));
        std::string p = g.chance(1, 2) ? "ResourceName" : "ResourcePriority";
        if (g.chance(1, 2)) n.remove_child(p.c_str()); else while (n.child(p.c_str()).first_child()) n.child(p.c_str()).remove_child(n.child(p.c_str()).first_child());
        return p; }},
    {"resource part twice", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.parent().name(), "Resource"); }));
        n.parent().insert_copy_after(n, n); return std::string(n.name()); }},
    {"resource twice", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.name(), "Resource") && !strcmp(e.child("ResourceName").first_child().name(), "StringValue"); }));
        n.parent().insert_copy_after(n, n); return std::string(text(n.child("ResourceName"))); }},
    {"resource part of a wrong type", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.parent().name(), "Resource"); }));
        std::string t = n.name();
        std::string v = misfit(g, t == "ResourceName" ? STRING_TYPE : t == "ResourceReleaseAtTermination" ? BOOLEAN_TYPE : t == "ResourcePriority" ? INTEGER_TYPE : REAL_TYPE);
        put(n, v); return t + " " + v; }},
    {"unknown resource part", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "Resource"));
        static const char *v[] = {"Bogus", "ResourceNam2", "ResourcePrioritz", "ResourceUpperBoun2", "ResourceLowerBound"};
        std::string x = g.pick(v);
        put(n.append_child(x.c_str()), "<IntegerValue>1</IntegerValue>"); return "'" + x + "'"; }},
    {"lookup without a name", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.name(), "LookupNow") || !strcmp(e.name(), "LookupOnChange"); }));
        if (g.chance(1, 2)) n.remove_child("Name"); else n.child("Name").remove_child(n.child("Name").first_child());
        return std::string(n.name()); }},
    {"lookup name not a String", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.name(), "LookupNow") || !strcmp(e.name(), "LookupOnChange"); }));
        std::string v = misfit(g, STRING_TYPE);
        put(n.child("Name"), v); return v; }},
    {"tolerance of LookupNow", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "LookupNow"));
        put(n.insert_child_after("Tolerance", n.child("Name")), "<RealValue>1</RealValue>"); return std::string("added"); }},
    {"tolerance not a number", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "LookupOnChange"));
        n.remove_child("Tolerance");
        std::string v = g.chance(1, 4) ? std::string() : misfit(g, REAL_TYPE);
        put(n.insert_child_after("Tolerance", n.child("Name")), v); return v; }},
    {"junk in a lookup", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return (!strcmp(e.name(), "LookupNow") || !strcmp(e.name(), "LookupOnChange")) && !e.child("Arguments"); }));
        n.append_child("Bogus"); return std::string(n.name()); }},
    {"call of an unknown library", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "LibraryNodeCall"));
        setText(n.child("NodeId"), g.chance(1, 4) ? "" : "nosuchlibrary"); return std::string("name"); }},
    {"alias without a part", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "Alias"));
        bool v = g.chance(1, 2);
        n.remove_child(v ? n.last_child() : n.first_child()); return std::string(v ? "value" : "name"); }},
    {"alias twice", [] (pbt::Gen &g, xml_node root) { PICK(n, named(root, "Alias")); n.parent().insert_copy_after(n, n); return std::string(n.child_value("NodeParameter")); }},
    {"bad alias value", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "Alias"));
        static const char *v[] = {"<Bogus><IntegerValue>1</IntegerValue></Bogus>", "<IntegerVariable>undeclared</IntegerVariable>", "<NOT><IntegerValue>1</IntegerValue></NOT>", "<IntegerValue>x</IntegerValue>", "<ADD/>", "<EQNumeric><IntegerValue>1</IntegerValue></EQNumeric>",
          "<Finished><NodeId>nosuchnode</NodeId></Finished>", "<ArrayElement><Name>undeclared</Name><Index><IntegerValue>0</IntegerValue></Index></ArrayElement>", "<NodeStateVariable><NodeRef dir=\"uncle\"/></NodeStateVariable>", "<LookupNow><Name/></LookupNow>"};
        std::string x = g.pick(v);
        replace(n.last_child(), x); return "'" + x + "'"; }},
    {"global declaration twice", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.parent().name(), "GlobalDeclarations"); }));
        n.parent().insert_copy_after(n, n); return std::string(n.name()); }},
    {"global declaration without a part", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.parent().name(), "GlobalDeclarations"); }));
        if (!strcmp(n.name(), "StateDeclaration") && g.chance(1, 2)) { n.remove_child("Return"); return std::string("Return"); }
        if (g.chance(1, 2)) n.remove_child("Name"); else setText(n.child("Name"), "");
        return std::string(n.name()); }},
    {"global declaration of a bad type", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.parent().name(), "Return") && !strcmp(e.name(), "Type"); }));
        static const char *v[] = {"", "Int", "any", "Variable"};
        std::string x = g.pick(v);
        setText(n, x); return "'" + x + "'"; }},
    {"bad global declaration", [] (pbt::Gen &g, xml_node root) {
        static const char *v[] = {"Bogus", "Command", "DeclareVariable", "Node"};
        std::string x = g.pick(v);
        root.child("GlobalDeclarations").append_child(x.c_str()); return "'" + x + "'"; }},
    {"bad declaration of a library", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return (!strcmp(e.name(), "DeclareVariable") || !strcmp(e.name(), "DeclareArray")) && !isVarDecl(e); }));
        xml_node part = n.parent(), ifc = part.parent();
        static const char *junk[] = {"Declare", "IntegerVariable", "Name", "StringValue", "In", "Out"}, *types[] = {"", "Int", "Any", "NodeState", "Array", "IntegerArray"};
        std::string x;
        switch (g.draw(7)) {
        case 0: part.insert_copy_after(n, n); return std::string("parameter twice");
        case 1: { std::string o = !strcmp(part.name(), "In") ? "InOut" : "In"; if (!ifc.child(o.c_str())) ifc.append_child(o.c_str()); ifc.child(o.c_str()).append_copy(n); return std::string("In and InOut"); }
        case 2: x = g.pick(types); setText(n.child("Type"), x); return "type " + x;
        case 3: x = g.chance(1, 2) ? "Name" : "Type"; if (g.chance(1, 2)) n.remove_child(x.c_str()); else setText(n.child(x.c_str()), ""); return "without " + x;
        case 4: x = g.pick(junk); part.append_child(x.c_str()); return "junk " + x;
        case 5: x = g.chance(1, 2) ? "Bogus" : "VariableDeclarations"; ifc.append_child(x.c_str()); return "part " + x;
        default: if (g.chance(1, 2)) setText(ifc.parent().child("Name"), ""); else ifc.parent().remove_child("Name"); return std::string("nameless");
        } }},
    {"unknown constant in the state of a lookup", [] (pbt::Gen &g, xml_node root) {
        auto literal = [] (xml_node e) { std::string n = e.name(); return n == "IntegerValue" || n == "RealValue" || n == "BooleanValue"; };
        PICK(n, find(root, [&] (xml_node e) {
          if (!literal(e) || strcmp(e.parent().name(), "Arguments")) return false;
          xml_node l = e.parent().parent();
          if (strncmp(l.name(), "Lookup", 6) || strcmp(l.child("Name").first_child().name(), "StringValue")) return false;
          for (xml_node a : e.parent().children()) if (!literal(a) && strcmp(a.name(), "StringValue")) return false;
          return true; }));
        setText(n, "UNKNOWN"); return std::string(n.parent().parent().name()); }},
    {"operand of a node function missing or twice", [] (pbt::Gen &g, xml_node root) {
        PICK(n, named(root, "NoChildFailed"));
        xml_node k = n.first_child();
        if (!k) return std::string();
        if (g.chance(1, 3)) { n.remove_child(k); return std::string("missing"); }
        n.insert_copy_after(k, k); return std::string("twice"); }},
    {"junk in UsingMutex", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.name(), "Name") && !strcmp(e.parent().name(), "UsingMutex"); }));
        static const char *v[] = {"Mutex", "NodeId", "DeclareMutex", "StringValue"};
        std::string x = g.pick(v);
        n.set_name(x.c_str()); return "'" + x + "'"; }},
    {"junk in a declaration", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return (!strcmp(e.name(), "InitialValue") || !strcmp(e.name(), "MaxSize")) && !strncmp(e.parent().name(), "Declare", 7) && isVarDecl(e.parent()); }));
        static const char *v[] = {"Initial", "Value", "Size", "Name"};
        std::string x = g.pick(v);
        n.set_name(x.c_str()); return "'" + x + "'"; }},
    {"handle of a node without a command", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) {
          if (strcmp(e.parent().name(), "Node") || !e.first_child() || strncmp(e.parent().attribute("NodeType").value(), "Command", 7) == 0) return false;
          std::string t = e.name();
          return t.size() > 9 && t.compare(t.size() - 9, 9, "Condition") == 0; }));
        std::string h = "<NodeCommandHandleVariable><NodeRef dir=\"self\"/></NodeCommandHandleVariable>";
        std::string x = g.chance(1, 2) ? "<IsKnown>" + h + "</IsKnown>" : "<EQInternal>" + h + "<NodeCommandHandleValue>COMMAND_SUCCESS</NodeCommandHandleValue></EQInternal>";
        if (g.chance(1, 2)) x = "<NOT>" + x + "</NOT>";
        replace(n.first_child(), x); return std::string(n.name()); }},
    {"junk in a part of a global declaration", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return (!strcmp(e.name(), "Return") || !strcmp(e.name(), "Parameter")) && !strcmp(e.parent().parent().name(), "GlobalDeclarations") && !e.child("MaxSize"); }));
        static const char *v[] = {"Size", "InitialValue", "Name", "Type"};
        std::string x = g.pick(v);
        setText(n.append_child(x.c_str()), "3"); return "'" + x + "'"; }},
    {"parameter nothing stands for", [] (pbt::Gen &g, xml_node root) {
        PICK(n, find(root, [] (xml_node e) { return !strcmp(e.name(), "Node") && !e.child("Interface") && e.child("NodeId") && !strcmp(e.parent().name(), "NodeList"); }));
        Decl d{"undeclared", (ValueType) (g.pick(SCALAR) + (g.chance(1, 3) ? ARRAY_TYPE : 0)), true};
        char const *part = g.chance(1, 2) ? "In" : "InOut";
        addInterface(n, d, part); return std::string(part); }},
    {"no plan", [] (pbt::Gen &g, xml_node root) {
        switch (g.draw(4)) {
        case 0: root.set_name("Plan"); return std::string("root element");
        case 1: root.remove_child("Node"); return std::string("no node");
        case 2: root.child("Node").set_name("node"); return std::string("not a node");
        default: while (root.first_child()) root.remove_child(root.first_child()); return std::string("empty");
        } }},
  };
  return r;
}

static void brokenRule(pbt::Gen &g, pbt::Ctx &ctx)
{
  std::string uniq = std::to_string(++s_serial);
  PCase c;
  makeCase(g, c, Feat(), uniq);
  std::vector<std::string> docs;
  for (auto const &l : c.libs) docs.push_back(planXml(*l, c));
  docs.push_back(planXml(*c.plans[0], c));
  size_t which = docs.size() == 1 || g.chance(3, 4) ? docs.size() - 1 : 0;
  // the valid plan is accepted
  for (size_t k = 0; k + 1 < docs.size(); ++k) PBT_CHECK(loadLibrary(docs[k]), "a valid library was refused: " << docs[k]);
  Loaded ok = loadPlan(docs.back());
  PBT_CHECK(ok.root, "a valid plan was refused: " << ok.why << "\n" << docs.back());
  delete ok.root;
  ctx.label("valid plans accepted");

  xml_document d;
  load(d, docs[which]);
  auto const &rs = rules();
  std::string how, rule;
  for (int k = 0; k < 40 && how.empty(); ++k) {
    auto const &x = rs[g.draw(rs.size())];
    rule = x.first; how = x.second(g, d.document_element());
    if (how.empty()) load(d, docs[which]); // does not apply
  }
  if (how.empty()) throw pbt::Discard();
  docs[which] = text(d.document_element());
  ctx.addHash(docs[which]);
  ctx.nontrivial = true;
  ctx.label("rule: " + rule);
  ctx.sample = (which == docs.size() - 1 ? "plan: " : "library: ") + rule + ": " + how;
  if (ctx.verbose) for (std::string const &x : docs) ctx.sample += "\n" + x;
  bool refused = false;
  Loaded r;
  if (which + 1 < docs.size()) {
    refused = !loadLibrary(docs[which]);
    if (refused) { // the version there was stays
      r = loadPlan(docs.back());
      checkBalanced(uniq);
      PBT_CHECK(r.root, "after a new version of its library was refused, a plan is: " << r.why << "\n" << docs.back());
      delete r.root;
      return;
    }
  }
  if (!refused) { // an expression of a library is checked when it is called, too: only then are its variables known
    r = loadPlan(docs.back());
    refused = !r.root;
    if (!refused && which + 1 < docs.size()) { // not called by the plan?
      std::string call = "<PlexilPlan><Node NodeType=\"LibraryNodeCall\"><NodeId>Call</NodeId><NodeBody><LibraryNodeCall><NodeId>" + c.libs[0]->id + "</NodeId></LibraryNodeCall></NodeBody></Node></PlexilPlan>";
      delete r.root;
      if (c.libs[0]->decls.empty()) { r = loadPlan(call); refused = !r.root; }
      else { r.root = nullptr; throw pbt::Discard(); }
    }
  }
  checkBalanced(uniq);
  if (r.root) delete r.root;
  PBT_CHECK(refused, "accepted although " << rule << " (" << how << "):\n" << docs[which]);
}


// ---- changes which must not matter ----

static std::string runTrace(NodeImpl *root, PCase const &c)
{
  Sut s(c);
  s.maxBatches = 60;
  std::string t;
  try { s.add(root); for (int k = 0; k < 8; ++k) stepTrace(s, t); }
  catch (PlanError const &e) { t += std::string("plan error: ") + e.what(); }
  catch (EndlessStep &) { t += "endless step"; }
  catch (InterfaceError const &e) { t += std::string("interface error: ") + e.what(); }
  catch (ParserException const &e) { PBT_FAIL("a parser exception while running: " << e.what()); }
  catch (Error const &e) { PBT_FAIL("internal error while running a valid plan: " << e.what()); }
  return t;
}
static void immaterial(pbt::Gen &g, pbt::Ctx &ctx)
{
  std::string uniq = std::to_string(++s_serial);
  PCase c;
  makeCase(g, c, Feat(), uniq);
  if (!c.gmutex.empty()) throw pbt::Discard(); // held on by plans stopped half-way
  for (auto const &l : c.libs) PBT_CHECK(loadLibrary(planXml(*l, c)), "a valid library was refused");
  std::string plain = planXml(*c.plans[0], c);
  xml_document d;
  load(d, plain);
  std::string how;
  if (g.chance(1, 2)) { // where the source was
    for (xml_node e : elements(d.document_element())) if (g.chance(1, 3)) {
      e.append_attribute("LineNo") = (int) g.draw(100); e.append_attribute("ColNo") = (int) g.draw(80);
      if (g.chance(1, 2)) e.append_attribute("FileName") = "some/where.ple";
    }
    how += "source locators; ";
  }
  if (g.chance(1, 2)) {
    for (xml_node n : named(d.document_element(), "Node")) if (g.chance(1, 2)) setText(n.insert_child_after("Comment", n.child("NodeId")), g.chance(1, 2) ? "why" : "a <b> & c\n ");
    how += "comments; ";
  }
  if (g.chance(1, 2)) { // declarations nobody refers to
    xml_node gd = d.document_element().child("GlobalDeclarations");
    if (!gd) gd = d.document_element().prepend_child("GlobalDeclarations");
    gd.append_buffer("<CommandDeclaration><Name>unused</Name></CommandDeclaration>", 60, XML_OPTIONS);
    how += "an unused declaration; ";
  }
  std::ostringstream o;
  int layout = (int) g.draw(3);
  d.print(o, layout == 0 ? "" : layout == 1 ? "  " : "\t", layout == 0 ? pugi::format_raw : pugi::format_indent);
  how += layout == 0 ? "no white space" : "indentation";
  std::string other = o.str();
  if (g.chance(1, 2)) { // comments, anywhere between elements
    for (size_t at = 0; (at = other.find("<Node ", at)) != std::string::npos; at += 6) if (g.chance(1, 2)) { other.insert(at, "<!-- x > y -->"); at += 14; }
    how += "; XML comments";
  }
  ctx.sample = "valid plan with " + how;
  if (ctx.verbose) ctx.sample += "\n" + other;
  ctx.addHash(other);
  ctx.nontrivial = true;
  Loaded a = loadPlan(plain), b = loadPlan(other);
  PBT_CHECK(a.root, "a valid plan was refused: " << a.why << "\n" << plain);
  PBT_CHECK(b.root, "a valid plan was refused once changed immaterially: " << b.why << "\n" << other);
  std::string ta = runTrace(a.root, c), tb = runTrace(b.root, c);
  PBT_CHECK(ta == tb, "a plan with " << how << " runs differently:\n" << tb << "\ninstead of\n" << ta);
  ctx.label("immaterial changes");
}

// small valid plans whose values show what was loaded
static void loadedValues(pbt::Gen &g, pbt::Ctx &ctx)
{
  PCase c;
  std::string x;
  ctx.nontrivial = true;
  ValueType el = g.pick(SCALAR);
  int size = (int) g.range(0, 5);
  std::string lit = literal(g, el), decl;
  MVal want;
  std::string ref;
  auto known = [&] (std::string const &l) { xml_document d; load(d, l); std::string v = d.document_element().child_value(); return el == BOOLEAN_TYPE ? MVal::boolean(v == "true" || v == "1") : el == INTEGER_TYPE ? MVal::integer(atoi(v.c_str())) : el == REAL_TYPE ? MVal::real(atof(v.c_str())) : MVal::string(v); };
  if (g.chance(1, 3)) { // a scalar
    decl = "<DeclareVariable><Name>v</Name><Type>" + typeTag(el) + "</Type><InitialValue>" + lit + "</InitialValue></DeclareVariable>";
    want = known(lit); ref = "<" + typeTag(el) + "Variable>v</" + typeTag(el) + "Variable>";
  }
  else {
    want = MVal(); want.t = (ValueType) (el + ARRAY_TYPE); want.known = true;
    decl = "<DeclareArray><Name>v</Name><Type>" + typeTag(el) + "</Type>";
    ref = "<ArrayVariable>v</ArrayVariable>";
    if (g.chance(1, 2)) { // filled
      decl += "<MaxSize>" + std::to_string(size) + "</MaxSize><InitialValue>" + lit + "</InitialValue>";
      want.el.assign((size_t) size, known(lit));
    }
    else {
      int n = (int) g.range(0, size);
      if (g.chance(1, 2)) decl += "<MaxSize>" + std::to_string(size) + "</MaxSize>"; else size = n;
      std::string a = "<ArrayValue Type=\"" + typeTag(el) + "\">";
      for (int k = 0; k < n; ++k) { std::string l = literal(g, el); a += l; want.el.push_back(known(l)); }
      decl += "<InitialValue>" + a + "</ArrayValue></InitialValue>";
      while ((int) want.el.size() < size) { MVal u; u.t = el; want.el.push_back(u); }
    }
    decl += "</DeclareArray>";
  }
  bool viaParent = g.chance(1, 2);
  std::string up = "<NodeBody><Update><Pair><Name>k</Name>" + ref + "</Pair></Update></NodeBody>";
  std::string decls = "<VariableDeclarations>" + decl + "</VariableDeclarations>";
  std::string cond, handle;
  static const char *H[] = {"COMMAND_SENT_TO_SYSTEM", "COMMAND_ACCEPTED", "COMMAND_RCVD_BY_SYSTEM", "COMMAND_FAILED", "COMMAND_DENIED", "COMMAND_SUCCESS", "COMMAND_ABORTED", "COMMAND_ABORT_FAILED", "COMMAND_INTERFACE_ERROR"};
  if (viaParent) {
    handle = g.pick(H);
    cond = "<Node NodeType=\"Command\"><NodeId>C</NodeId><StartCondition><BooleanValue>false</BooleanValue></StartCondition><EndCondition><EQInternal><NodeCommandHandleVariable><NodeRef dir=\"self\"/></NodeCommandHandleVariable><NodeCommandHandleValue>" + handle + "</NodeCommandHandleValue></EQInternal></EndCondition><NodeBody><Command><Name><StringValue>c</StringValue></Name></Command></NodeBody></Node>";
    x = "<PlexilPlan><Node NodeType=\"NodeList\"><NodeId>R</NodeId>" + decls + "<NodeBody><NodeList><Node NodeType=\"Update\"><NodeId>U</NodeId>" + up + "</Node>" + cond + "</NodeList></NodeBody></Node></PlexilPlan>";
  }
  else x = "<PlexilPlan><Node NodeType=\"Update\"><NodeId>R</NodeId>" + decls + up + "</Node></PlexilPlan>";
  ctx.sample = decl + " " + handle;
  ctx.addHash(x);
  Loaded r = loadPlan(x);
  PBT_CHECK(r.root, "a valid plan was refused: " << r.why << "\n" << x);
  Sut s(c);
  bool seen = false;
  std::string got;
  s.add(r.root);
  for (int k = 0; k < 3 && !seen; ++k) { s.world.time += 1; s.step(); for (SUpd const &u : s.upds) for (auto const &p : u.pairs) { got = mstr(p.second); seen = true; PBT_CHECK(got == mstr(want), "the initial value of " << decl << " is " << got << " instead of " << mstr(want)); } }
  PBT_CHECK(seen, "no update of " << decl);
  ctx.label("initial values");
}

// a library which calls itself can't be expanded
static void recursive(pbt::Gen &g, pbt::Ctx &ctx)
{
  std::string u = std::to_string(++s_serial);
  int n = (int) g.range(1, 4), back = (int) g.draw((uint64_t) n + 1); // back == n: the last one calls no library at all
  std::vector<std::string> names;
  for (int k = 0; k < n; ++k) names.push_back("R" + u + "_" + std::to_string(k));
  auto call = [] (std::string const &id, std::string const &lib) { return "<Node NodeType=\"LibraryNodeCall\"><NodeId>" + id + "</NodeId><NodeBody><LibraryNodeCall><NodeId>" + lib + "</NodeId></LibraryNodeCall></NodeBody></Node>"; };
  for (int k = 0; k < n; ++k) {
    std::string to = k + 1 < n ? names[(size_t) k + 1] : back < n ? names[(size_t) back] : "", body;
    if (to.empty()) body = "<Node NodeType=\"Empty\"><NodeId>E</NodeId></Node>";
    else body = call("C", to);
    if (!to.empty() && g.chance(1, 3)) body += "<Node NodeType=\"NodeList\"><NodeId>Deep</NodeId><NodeBody><NodeList>" + call("D", to) + "</NodeList></NodeBody></Node>"; // twice isn't recursive
    PBT_CHECK(loadLibrary("<PlexilPlan><Node NodeType=\"NodeList\"><NodeId>" + names[(size_t) k] + "</NodeId><NodeBody><NodeList>" + body + "</NodeList></NodeBody></Node></PlexilPlan>"), "a library was refused");
  }
  std::string x = "<PlexilPlan>" + call("P", names[0]) + "</PlexilPlan>";
  ctx.sample = std::to_string(n) + " libraries, the last calls " + (back < n ? "number " + std::to_string(back) : "none");
  ctx.addHash(ctx.sample + u); ctx.nontrivial = true;
  Loaded r = loadPlan(x);
  std::unique_ptr<NodeImpl> root(r.root);
  PBT_CHECK(!r.root == (back < n), ctx.sample << (r.root ? ": accepted" : ": refused: " + r.why));
  ctx.label("libraries which call each other");
}

static void c14x(pbt::Gen &g, pbt::Ctx &ctx)
{
  if (g.chance(2, 5)) { ctx.label("cases: one rule broken"); brokenRule(g, ctx); }
  else if (g.chance(1, 6)) immaterial(g, ctx);
  else if (g.chance(1, 12)) loadedValues(g, ctx);
  else if (g.chance(1, 20)) recursive(g, ctx);
  else { ctx.label("cases: mutated"); mutants(g, ctx); }
}

// ---- C27 ----

static const ValueType ANY = UNKNOWN_TYPE;
static std::string typeName27(ValueType t)
{
  if (t == ANY) return "Any";
  if (t == DATE_TYPE) return "Date";
  if (t == DURATION_TYPE) return "Duration";
  return typeTag(arr(t) ? (ValueType) (t - ARRAY_TYPE) : t);
}
static std::string valueDecl(std::string const &tag, ValueType t, int k)
{
  return "<" + tag + "><Name>p" + std::to_string(k) + "</Name><Type>" + typeName27(t) + "</Type>" + (arr(t) ? "<MaxSize>4</MaxSize>" : "") + "</" + tag + ">";
}
static ValueType anyType(pbt::Gen &g, bool dates)
{
  static const ValueType d[] = {DATE_TYPE, DURATION_TYPE, ANY};
  if (dates && g.chance(1, 5)) return g.pick(d);
  ValueType t = g.pick(SCALAR);
  return g.chance(1, 5) ? (ValueType) (t + ARRAY_TYPE) : t;
}
// may a value of type s be given where d is declared?
static bool fits(ValueType d, ValueType s)
{
  if (d == ANY || s == ANY || d == s) return true;
  auto num = [] (ValueType t) { return t == INTEGER_TYPE || t == REAL_TYPE || t == DATE_TYPE || t == DURATION_TYPE; };
  if (d == REAL_TYPE) return num(s);
  if (d == DATE_TYPE || d == DURATION_TYPE) return s == REAL_TYPE || s == INTEGER_TYPE;
  return false;
}

// Variables of the calling node: vb vi vr vs, ab ai ar as.  States: dt (Date), du (Duration), un (undeclared).
static const char L[] = "birs";
static std::string varOf(ValueType t) { ValueType e = arr(t) ? (ValueType) (t - ARRAY_TYPE) : t; char c = e == BOOLEAN_TYPE ? 'b' : e == INTEGER_TYPE ? 'i' : e == REAL_TYPE ? 'r' : 's'; return std::string(arr(t) ? "a" : "v") + c; }
static std::string refOf(ValueType t) { std::string tag = arr(t) ? "ArrayVariable" : typeTag(t) + "Variable"; return "<" + tag + ">" + varOf(t) + "</" + tag + ">"; }
static std::string look(std::string const &n) { return "<LookupNow><Name><StringValue>" + n + "</StringValue></Name></LookupNow>"; }
// an expression of type t; writable: may stand for an InOut parameter
static std::string exprOf(pbt::Gen &g, ValueType t, bool &writable)
{
  writable = false;
  if (t == ANY) return look("un");
  if (t == DATE_TYPE) return look("dt");
  if (t == DURATION_TYPE) return look("du");
  if (arr(t)) {
    if (g.chance(1, 2)) { writable = true; return refOf(t); }
    return arrayLiteral(g, (ValueType) (t - ARRAY_TYPE), (int) g.range(0, 3));
  }
  switch (g.draw(5)) {
  case 0: return literal(g, t);
  case 1: return "<ArrayElement><Name>" + varOf((ValueType) (t + ARRAY_TYPE)) + "</Name><Index><IntegerValue>1</IntegerValue></Index></ArrayElement>";
  case 2: {
    bool w;
    if (t == BOOLEAN_TYPE) return "<NOT>" + exprOf(g, t, w) + "</NOT>";
    if (t == STRING_TYPE) return "<Concat>" + exprOf(g, t, w) + literal(g, t) + "</Concat>";
    if (t == INTEGER_TYPE) return g.chance(1, 2) ? "<ADD>" + literal(g, t) + exprOf(g, t, w) + "</ADD>" : "<STRLEN>" + literal(g, STRING_TYPE) + "</STRLEN>";
    return "<MUL>" + literal(g, INTEGER_TYPE) + exprOf(g, t, w) + "</MUL>";
  }
  default: writable = true; return refOf(t);
  }
}
struct Use27 { bool ok = true; std::string why; void bad(std::string const &w) { ok = false; if (!why.empty()) why += ", "; why += w; } };

static void c27(pbt::Gen &g, pbt::Ctx &ctx)
{
  std::string u = std::to_string(++s_serial), decls, use, what;
  std::string vars = "<VariableDeclarations>";
  for (int k = 0; k < 4; ++k) { std::string t = typeTag(SCALAR[k]); vars += std::string("<DeclareVariable><Name>v") + L[k] + "</Name><Type>" + t + "</Type></DeclareVariable><DeclareArray><Name>a" + L[k] + "</Name><Type>" + t + "</Type><MaxSize>4</MaxSize></DeclareArray>"; }
  decls = "<StateDeclaration><Name>dt</Name><Return><Name>r</Name><Type>Date</Type></Return></StateDeclaration><StateDeclaration><Name>du</Name><Return><Name>r</Name><Type>Duration</Type></Return></StateDeclaration>";
  Use27 r;
  int kind = (int) g.weighted({4, 4, 5});
  // declared parameters
  size_t n = (size_t) g.weighted({2, 3, 3, 1});
  std::vector<ValueType> par;
  for (size_t k = 0; k < n; ++k) par.push_back(anyType(g, kind < 2));
  if (kind < 2) {
    bool more = g.chance(1, 3), returns = kind == 1 || g.chance(2, 3);
    ValueType ret = returns ? anyType(g, true) : ANY;
    std::string tag = kind == 0 ? "CommandDeclaration" : "StateDeclaration", name = kind == 0 ? "cmd" : "st", d;
    d = "<" + tag + "><Name>" + name + "</Name>";
    if (returns) d += valueDecl("Return", ret, 99);
    for (size_t k = 0; k < n; ++k) d += valueDecl("Parameter", par[k], (int) k);
    if (more) d += "<AnyParameters/>";
    d += "</" + tag + ">";
    bool declared = !g.chance(1, 12);
    // a declaration of the other kind, of the same name, says nothing about it
    std::string same = g.chance(1, 3) ? (kind == 0 ? "<StateDeclaration><Name>cmd</Name><Return><Name>r</Name><Type>Boolean</Type></Return><Parameter><Name>x</Name><Type>Boolean</Type></Parameter></StateDeclaration>" : "<CommandDeclaration><Name>st</Name><Parameter><Name>x</Name><Type>Boolean</Type></Parameter></CommandDeclaration>") : "";
    std::string near = g.chance(1, 3) ? "<" + tag + "><Name>" + name + "2</Name><Return><Name>r</Name><Type>Boolean</Type></Return></" + tag + ">" : "";
    decls += (g.chance(1, 2) ? near + same : same) + (declared ? d : "") + (near.empty() || g.chance(1, 2) ? "" : "<DeclareMutex><Name>m</Name></DeclareMutex>");
    if (decls.find(near) == std::string::npos) decls = near + decls;
    what = (declared ? d : "undeclared " + name);
    // arguments
    size_t m = g.chance(1, 4) ? (size_t) g.range(0, 4) : n + (more ? (size_t) g.draw(3) : 0);
    std::string args;
    size_t wrong = g.chance(1, 3) && n ? g.draw(n) : n;
    for (size_t k = 0; k < m; ++k) {
      ValueType t;
      if (k >= n) t = anyType(g, true);
      else if (k == wrong) t = anyType(g, true);
      else { do t = anyType(g, true); while (!fits(par[k], t)); }
      bool w;
      args += exprOf(g, t, w);
      if (declared && k < n && !fits(par[k], t)) r.bad("argument " + std::to_string(k));
    }
    if (declared && (m < n || (m > n && !more))) r.bad("argument count");
    bool constName = !g.chance(1, 8);
    if (!constName) { r = Use27(); }
    std::string nm = constName ? "<StringValue>" + name + "</StringValue>" : "<StringVariable>vs</StringVariable>";
    std::string a = args.empty() ? (g.chance(1, 2) ? "" : "<Arguments/>") : "<Arguments>" + args + "</Arguments>";
    ValueType dest; do dest = anyType(g, false); while (g.chance(2, 3) && !fits(dest, ret));
    if (kind == 0) {
      bool hasDest = returns && g.chance(2, 3);
      if (hasDest && declared && constName && !fits(dest, ret)) r.bad("result");
      std::string dx = refOf(dest);
      if (hasDest && !arr(dest) && g.chance(1, 4)) dx = "<ArrayElement><Name>" + varOf((ValueType) (dest + ARRAY_TYPE)) + "</Name><Index><IntegerValue>0</IntegerValue></Index></ArrayElement>";
      use = "<Node NodeType=\"Command\"><NodeId>U</NodeId><NodeBody><Command>" + (hasDest ? dx : "") + "<Name>" + nm + "</Name>" + a + "</Command></NodeBody></Node>";
    }
    else {
      std::string lk = g.chance(1, 3) ? "LookupOnChange" : "LookupNow";
      std::string l = "<" + lk + "><Name>" + nm + "</Name>" + a + "</" + lk + ">";
      switch (g.draw(3)) {
      case 0: { // assigned
        if (declared && constName && !fits(dest, ret)) r.bad("result");
        std::string rhs = arr(dest) ? "ArrayRHS" : dest == STRING_TYPE ? "StringRHS" : dest == BOOLEAN_TYPE ? "BooleanRHS" : "NumericRHS";
        use = "<Node NodeType=\"Assignment\"><NodeId>U</NodeId><NodeBody><Assignment>" + refOf(dest) + "<" + rhs + ">" + l + "</" + rhs + "></Assignment></NodeBody></Node>";
        break;
      }
      case 1: // a condition
        if (declared && constName && !fits(BOOLEAN_TYPE, ret)) r.bad("result");
        use = "<Node NodeType=\"Empty\"><NodeId>U</NodeId><StartCondition>" + l + "</StartCondition></Node>";
        break;
      default: // any type will do
        use = "<Node NodeType=\"Empty\"><NodeId>U</NodeId><StartCondition><IsKnown>" + l + "</IsKnown></StartCondition></Node>";
        break;
      }
    }
    ctx.label(kind == 0 ? "commands" : "lookups");
  }
  else { // a library
    std::string lib = "L" + u, in, inout, aliases, body;
    std::vector<bool> io;
    std::vector<std::string> nm;
    for (size_t k = 0; k < n; ++k) {
      io.push_back(g.chance(1, 2));
      nm.push_back(g.chance(1, 4) ? std::string(arr(par[k]) ? "a" : "v") + L[k] : "p" + std::to_string(k)); // also names the caller uses
      bool def = g.chance(1, 3), given = g.chance(5, 6);
      std::string tag = arr(par[k]) ? "DeclareArray" : "DeclareVariable", d = "<" + tag + "><Name>" + nm[k] + "</Name><Type>" + typeName27(par[k]) + "</Type>" + (arr(par[k]) && g.chance(1, 2) ? "<MaxSize>4</MaxSize>" : "");
      if (def) d += "<InitialValue>" + (arr(par[k]) ? arrayLiteral(g, (ValueType) (par[k] - ARRAY_TYPE), 2) : literal(g, par[k])) + "</InitialValue>";
      d += "</" + tag + ">";
      (io[k] ? inout : in) += d;
      std::string kw = std::string(io[k] ? "InOut " : "In ") + nm[k];
      if (!given) { if (!def) r.bad(kw + " missing"); continue; }
      ValueType t = g.chance(1, 6) ? anyType(g, true) : par[k];
      bool w;
      std::string e;
      for (int z = 0; z < 6; ++z) { e = exprOf(g, t, w); if (!io[k] || w || g.chance(1, 12)) break; }
      if (t != par[k]) r.bad(kw + " of another type"); // exactly the type
      else if (io[k] && !w) r.bad(kw + " not a variable");
      aliases += "<Alias><NodeParameter>" + nm[k] + "</NodeParameter>" + e + "</Alias>";
    }
    // the body uses what it was declared; writes
    int at = -1;
    for (size_t k = 0; k < n; ++k) if (g.chance(1, 2)) at = (int) k;
    std::string doc = "<PlexilPlan><Node NodeType=\"" + std::string(at < 0 ? "Empty" : "Assignment") + "\"><NodeId>" + lib + "</NodeId>";
    if (n || g.chance(1, 2)) doc += "<Interface>" + (in.empty() ? "" : "<In>" + in + "</In>") + (inout.empty() ? "" : "<InOut>" + inout + "</InOut>") + "</Interface>";
    bool libBad = false;
    if (at >= 0) {
      ValueType t = par[(size_t) at];
      std::string tag = arr(t) ? "ArrayVariable" : typeTag(t) + "Variable", rhs = arr(t) ? "ArrayRHS" : t == STRING_TYPE ? "StringRHS" : t == BOOLEAN_TYPE ? "BooleanRHS" : "NumericRHS";
      bool elem = arr(t) && g.chance(1, 2);
      std::string dst = elem ? "<ArrayElement><Name>" + nm[(size_t) at] + "</Name><Index><IntegerValue>0</IntegerValue></Index></ArrayElement>" : "<" + tag + ">" + nm[(size_t) at] + "</" + tag + ">";
      std::string v = elem ? literal(g, (ValueType) (t - ARRAY_TYPE)) : arr(t) ? arrayLiteral(g, (ValueType) (t - ARRAY_TYPE), 1) : literal(g, t);
      doc += "<NodeBody><Assignment>" + dst + "<" + rhs + ">" + v + "</" + rhs + "></Assignment></NodeBody>";
      if (!io[(size_t) at]) { libBad = true; r.bad("In " + nm[(size_t) at] + " written to"); }
    }
    doc += "</Node></PlexilPlan>";
    if (g.chance(1, 4)) { // an earlier version of it
      std::string old = "<PlexilPlan><Node NodeType=\"Empty\"><NodeId>" + lib + "</NodeId><Interface><In><DeclareVariable><Name>p0</Name><Type>" + typeName27(g.pick(SCALAR)) + "</Type></DeclareVariable></In></Interface></Node></PlexilPlan>";
      PBT_CHECK(loadLibrary(old), "a valid library was refused: " << old);
      ctx.label("libraries replaced");
    }
    bool loaded = loadLibrary(doc) != nullptr;
    PBT_CHECK(loaded || libBad, "a valid library was refused: " << doc);
    use = "<Node NodeType=\"LibraryNodeCall\"><NodeId>U</NodeId><NodeBody><LibraryNodeCall><NodeId>" + lib + "</NodeId>" + aliases + "</LibraryNodeCall></NodeBody></Node>";
    what = doc;
    ctx.label("library calls");
    if (!loaded) { ctx.sample = what; ctx.addHash(what); return; }
  }
  bool inLib = g.chance(1, 5); // the use is in a library with declarations of its own
  std::string node = "<Node NodeType=\"NodeList\"><NodeId>" + (inLib ? "B" + u : "Root") + "</NodeId>" + vars + "</VariableDeclarations><NodeBody><NodeList>" + use + "</NodeList></NodeBody></Node>";
  std::string doc = "<PlexilPlan><GlobalDeclarations>" + decls + "</GlobalDeclarations>" + node + "</PlexilPlan>";
  ctx.addHash(doc);
  ctx.sample = what + " <- " + use + (r.ok ? "" : " (" + r.why + ")");
  if (ctx.verbose) ctx.sample += "\n" + doc;
  ctx.nontrivial = n > 0;
  Loaded l;
  if (inLib) {
    if (g.chance(1, 3)) { // an earlier version of it, with other declarations
      std::string old = "<PlexilPlan><GlobalDeclarations><CommandDeclaration><Name>cmd</Name><Return><Name>r</Name><Type>" + typeName27(g.pick(SCALAR)) + "</Type></Return><Parameter><Name>x</Name><Type>" + typeName27(g.pick(SCALAR)) + "</Type></Parameter></CommandDeclaration><StateDeclaration><Name>st</Name><Return><Name>r</Name><Type>" + typeName27(g.pick(SCALAR)) + "</Type></Return></StateDeclaration></GlobalDeclarations><Node NodeType=\"Empty\"><NodeId>B" + u + "</NodeId></Node></PlexilPlan>";
      PBT_CHECK(loadLibrary(old), "a valid library was refused: " << old);
      ctx.label("libraries replaced");
    }
    if (!loadLibrary(doc)) { PBT_CHECK(!r.ok, "a use which suits its declaration was refused in a library:\n" << ctx.sample); ctx.label("refused"); return; }
    // the calling plan declares them otherwise
    std::string o = "<PlexilPlan><GlobalDeclarations><CommandDeclaration><Name>cmd</Name><Parameter><Name>x</Name><Type>String</Type></Parameter></CommandDeclaration><StateDeclaration><Name>st</Name><Return><Name>r</Name><Type>String</Type></Return></StateDeclaration></GlobalDeclarations><Node NodeType=\"LibraryNodeCall\"><NodeId>Z</NodeId><NodeBody><LibraryNodeCall><NodeId>B" + u + "</NodeId></LibraryNodeCall></NodeBody></Node></PlexilPlan>";
    l = loadPlan(o);
  }
  else l = loadPlan(doc);
  std::unique_ptr<NodeImpl> root(l.root);
  PBT_CHECK(!l.root || r.ok, "accepted in spite of: " << r.why << "\n" << ctx.sample);
  PBT_CHECK(l.root || !r.ok, "a use which suits its declaration was refused: " << l.why << "\n" << ctx.sample);
  ctx.label(l.root ? "accepted" : "refused");
}

static void tallied(void (*f)(pbt::Gen &, pbt::Ctx &), pbt::Gen &g, pbt::Ctx &ctx) // PARSE_TALLY: collect failures (development)
{
  char const *t = getenv("PARSE_TALLY");
  if (!t) { f(g, ctx); return; }
  ctx.verbose = true;
  try { f(g, ctx); }
  catch (pbt::Failure &e) { std::ofstream(t + std::string(".") + std::to_string(pbt::mix(std::hash<std::string>()(ctx.sample)) % 100000)) << ctx.sample << "\n" << e.msg << "\n"; throw pbt::Discard(); }
}
int main(int argc, char **argv)
{
  return pbt::main(argc, argv, {
      {"C14", [] (pbt::Gen &g, pbt::Ctx &c) { tallied(c14x, g, c); }, 40000, 1500000,
       "A generated valid plan (and library) is either changed at random one to four times in its XML tree (element removed, repeated, renamed, emptied, moved, replaced by another, wrapped; text or attribute changed; element or text inserted) or broken against one of about 75 static rules, or (seldom) changed immaterially, expanded recursively or given initial values. "
       "Non-trivial: the document differs from the valid one.",
       {"documents are well-formed XML (the XML library's affair otherwise) of moderate size and depth"}, 200, init},
      {"C27", [] (pbt::Gen &g, pbt::Ctx &c) { tallied(c27, g, c); }, 60000, 3000000,
       "A declaration (of a command, a state or a library node's interface) and one use, mostly suitable, sometimes with too many or too few arguments, of a wrong type, a result which doesn't fit, a missing or read-only argument; the plan must be accepted exactly if the use suits the declaration. "
       "Non-trivial: at least one parameter is declared.",
       {"one use per plan", "library nodes are called with the interface they themselves declare"}, 300, init},
    });
}
