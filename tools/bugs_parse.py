from mkbug import bug
D = r'''#include "mini.hh"
#include "parsePlan.hh"
struct M { void show() { } } m;
static pugi::xml_document *doc(std::string const &x)
{
  pugi::xml_document *d = new pugi::xml_document;
  std::string t = "<PlexilPlan>" + x + "</PlexilPlan>";
  if (!d->load_buffer(t.data(), t.size(), pugi::parse_default | pugi::parse_ws_pcdata_single)) { std::cerr << "bad XML in demo\n"; exit(3); }
  return d;
}
static bool loads(std::string const &x)
{
  try { delete Mini::parse("<PlexilPlan>" + x + "</PlexilPlan>"); return true; }
  catch (ParserException const &e) { std::cerr << "refused: " << e.what() << "\n"; return false; }
}
static bool loadsLib(std::string const &x) { return loadLibraryDocument(doc(x)) != nullptr; }
'''
bug("first-declarations-stay", "C27",
 "a library loaded again, this time with other global declarations",
 "uses of commands and lookups in the library are checked against the declarations of its earlier version",
 [("src/xml-parser/planLibrary.cc", """      delete l->doc;
      delete l->symtab;
      l->doc = doc;
      l->symtab = symtab;
      return l;""", """      delete l->doc;
      delete symtab;
      l->doc = doc;
      return l;""")],
 D + r'''
static std::string lib(std::string const &par, std::string const &arg)
{
  return "<GlobalDeclarations><CommandDeclaration><Name>go</Name><Parameter><Name>x</Name><Type>" + par + "</Type></Parameter></CommandDeclaration></GlobalDeclarations>"
    "<Node NodeType=\"Command\"><NodeId>Lib</NodeId><NodeBody><Command><Name><StringValue>go</StringValue></Name><Arguments>" + arg + "</Arguments></Command></NodeBody></Node>";
}
int main()
{
  miniInit();
  std::string call = "<Node NodeType=\"LibraryNodeCall\"><NodeId>Call</NodeId><NodeBody><LibraryNodeCall><NodeId>Lib</NodeId></LibraryNodeCall></NodeBody></Node>";
  WANT(loadsLib(lib("Integer", "<IntegerValue>3</IntegerValue>")));
  WANT(loads(call));
  WANT(loadsLib(lib("String", "<StringValue>three</StringValue>")));
  WANT(loads(call));
  return 0;
}
''')
bug("open-ended-types-unchecked", "C27",
 "a lookup of a state declared with further parameters after the required ones, with a required argument of a wrong type",
 "the lookup is accepted although its declaration requires another type",
 [("src/xml-parser/LookupFactory.cc", "checkParserExceptionWithLocation(areTypesCompatible(reqType, hasType),", "checkParserExceptionWithLocation(lkup->anyParameters() || areTypesCompatible(reqType, hasType),"),
  ("src/xml-parser/LookupFactory.cc", "if (lkup && i < lkup->parameterCount()) {", "if (lkup && !lkup->anyParameters() && i < lkup->parameterCount()) {")],
 D + r"""
static std::string plan(char const *arg, char const *more)
{
  return std::string("<GlobalDeclarations><StateDeclaration><Name>at</Name><Return><Name>_r</Name><Type>Boolean</Type></Return><Parameter><Name>x</Name><Type>Integer</Type></Parameter>") + more + "</StateDeclaration></GlobalDeclarations>"
    "<Node NodeType=\"Empty\"><NodeId>N</NodeId><EndCondition><LookupNow><Name><StringValue>at</StringValue></Name><Arguments>" + arg + "</Arguments></LookupNow></EndCondition></Node>";
}
int main()
{
  miniInit();
  char const *i = "<IntegerValue>1</IntegerValue>", *s = "<StringValue>one</StringValue>";
  WANT(loads(plan(i, ""))); WANT(loads(plan(i, "<AnyParameters/>")));
  WANT(!loads(plan(s, "")));
  WANT(!loads(plan(s, "<AnyParameters/>")));
  return 0;
}
""")
bug("inout-array-literal", "C27",
 "an InOut array parameter of a library given an array which cannot be assigned to",
 "the call is accepted although the parameter's direction requires a variable",
 [("src/xml-parser/parseNode.cc", """      checkParserExceptionWithLocation(exp->isAssignable(),
                                       inOutXml,""", """      checkParserExceptionWithLocation(exp->isAssignable() || isArrayType(typ),
                                       inOutXml,""")],
 D + r'''
static std::string call(std::string const &arg)
{
  return "<Node NodeType=\"NodeList\"><NodeId>Root</NodeId><VariableDeclarations><DeclareArray><Name>a</Name><Type>Integer</Type><MaxSize>3</MaxSize></DeclareArray></VariableDeclarations><NodeBody><NodeList>"
    "<Node NodeType=\"LibraryNodeCall\"><NodeId>Call</NodeId><NodeBody><LibraryNodeCall><NodeId>Lib</NodeId><Alias><NodeParameter>p</NodeParameter>" + arg + "</Alias></LibraryNodeCall></NodeBody></Node></NodeList></NodeBody></Node>";
}
int main()
{
  miniInit();
  WANT(loadsLib("<Node NodeType=\"Empty\"><NodeId>Lib</NodeId><Interface><InOut><DeclareArray><Name>p</Name><Type>Integer</Type><MaxSize>3</MaxSize></DeclareArray></InOut></Interface></Node>"));
  WANT(loads(call("<ArrayVariable>a</ArrayVariable>")));
  WANT(!loads(call("<ArrayValue Type=\"Integer\"><IntegerValue>1</IntegerValue></ArrayValue>")));
  return 0;
}
''')
bug("repeated-update-name", "C14",
 "an Update with at least three pairs, two of which have the same name without being next to each other",
 "the plan is accepted although names in an Update must be distinct",
 [("src/xml-parser/updateXmlParser.cc", """      while (temp) {
        checkParserExceptionWithLocation(strcmp(prName""", """      if (temp) {
        checkParserExceptionWithLocation(strcmp(prName""")],
 D + r'''
static std::string plan(std::vector<char const *> names)
{
  std::string b;
  for (char const *n : names) b += std::string("<Pair><Name>") + n + "</Name><IntegerValue>1</IntegerValue></Pair>";
  return "<Node NodeType=\"Update\"><NodeId>N</NodeId><NodeBody><Update>" + b + "</Update></NodeBody></Node>";
}
int main()
{
  miniInit();
  WANT(loads(plan({"a", "b", "c"})));
  WANT(!loads(plan({"a", "a"})));
  WANT(!loads(plan({"a", "b", "a"})));
  return 0;
}
''')
bug("failed-reload-unloads", "C14",
 "loading a malformed new version of a library which is loaded",
 "the refused version takes the place of the good one: plans calling the library get it",
 [("src/xml-parser/planLibrary.cc", """      delete doc; // owns nodeId
      return nullptr;""", """      if (l) {
        delete l->doc;
        l->doc = doc;
        return nullptr;
      }
      delete doc;
      return nullptr;""")],
 D + r"""
int main()
{
  miniInit();
  std::string call = "<Node NodeType=\"LibraryNodeCall\"><NodeId>Call</NodeId><NodeBody><LibraryNodeCall><NodeId>Lib</NodeId></LibraryNodeCall></NodeBody></Node>";
  WANT(loadsLib("<Node NodeType=\"Empty\"><NodeId>Lib</NodeId></Node>"));
  WANT(loads(call));
  WANT(!loadsLib("<Node NodeType=\"Empty\"><NodeId>Lib</NodeId><EndCondition><BooleanVariable>x</BooleanVariable></EndCondition></Node>"));
  WANT(loads(call));
  return 0;
}
""")
bug("deeper-than-children", "C14",
 "a condition naming a node which is a grandchild, by NodeId",
 "the plan is accepted although the name cannot be resolved, which ends in an internal error",
 [("src/xml-parser/parseNodeReference.cc", """    // Check children
    if (getNodeChild(theNode, name))
      return;
""", """    // Check children
    if (getNodeChild(theNode, name))
      return;
    for (pugi::xml_node kid : theNode.child(BODY_TAG).child(NODELIST_TAG).children(NODE_TAG))
      if (getNodeChild(kid, name))
        return;
""")],
 D + r'''
static std::string plan(char const *who)
{
  return std::string("<Node NodeType=\"NodeList\"><NodeId>A</NodeId><EndCondition><EQInternal><NodeStateVariable><NodeId>") + who + "</NodeId></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal></EndCondition>"
    "<NodeBody><NodeList><Node NodeType=\"NodeList\"><NodeId>B</NodeId><NodeBody><NodeList><Node NodeType=\"Empty\"><NodeId>C</NodeId></Node></NodeList></NodeBody></Node></NodeList></NodeBody></Node>";
}
int main()
{
  miniInit();
  WANT(loads(plan("B")));
  try { WANT(!loads(plan("C"))); }
  catch (Error const &e) { std::cerr << "internal error: " << e.what() << "\n"; return 1; }
  return 0;
}
''')
