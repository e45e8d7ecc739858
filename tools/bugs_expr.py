from mkbug import bug
bug("real-to-int-near", "C03",
 "REAL_TO_INT of a value very near an integer but not equal to it",
 "a Real which isn't an integer is converted to Integer instead of giving unknown",
 [("src/expr/ConversionOperators.cc", "    if (fraction != 0)\n", "    if (fraction > 1e-6 || fraction < -1e-6)\n")],
 r'''#include "mini.hh"
int main()
{
  miniInit();
  Mini m;
  m.add("<Node NodeType=\"Command\"><NodeId>c</NodeId><NodeBody><Command><Name><StringValue>show</StringValue></Name><Arguments>"
        "<REAL_TO_INT><RealValue>3.0</RealValue></REAL_TO_INT><REAL_TO_INT><RealValue>-7.0</RealValue></REAL_TO_INT>"
        "<IsKnown><REAL_TO_INT><RealValue>0.5</RealValue></REAL_TO_INT></IsKnown>"
        "<IsKnown><REAL_TO_INT><RealValue>3.0000000001</RealValue></REAL_TO_INT></IsKnown>"
        "</Arguments></Command></NodeBody></Node>");
  m.run();
  WANT(m.has("command show(3,-7,false,false)") || m.has("command show(3,-7,0,0)"));
  return 0;
}
''')
bug("max-of-negatives", "C03",
 "MAX with three or more operands, all negative",
 "the maximum of three or more negative numbers is 0",
 [("src/expr/ArithmeticOperators.cc", """    NUM workingResult;
    if (!args[0]->getValue(workingResult))
      return false;
    for (size_t i = 1; i < args.size(); ++i) {
      NUM temp;
      if (!args[i]->getValue(temp))
        return false; // unknown if any arg unknown
      if (temp > workingResult)""", """    NUM workingResult = std::numeric_limits<NUM>::is_integer ? std::numeric_limits<NUM>::min() : 0;
    for (size_t i = 0; i < args.size(); ++i) {
      NUM temp;
      if (!args[i]->getValue(temp))
        return false; // unknown if any arg unknown
      if (temp > workingResult)""")],
 r'''#include "mini.hh"
int main()
{
  miniInit();
  Mini m;
  m.add("<Node NodeType=\"Command\"><NodeId>c</NodeId><NodeBody><Command><Name><StringValue>show</StringValue></Name><Arguments>"
        "<MAX><RealValue>-3.5</RealValue><RealValue>-1.5</RealValue><RealValue>-2.5</RealValue></MAX>"
        "<MAX><IntegerValue>-3</IntegerValue><IntegerValue>-1</IntegerValue><IntegerValue>-2</IntegerValue></MAX>"
        "<MAX><RealValue>3.5</RealValue><RealValue>1.5</RealValue><RealValue>2.5</RealValue></MAX>"
        "</Arguments></Command></NodeBody></Node>");
  m.run();
  WANT(m.has("command show(-1.5,-1,3.5)"));
  return 0;
}
''')
bug("array-same-known-elements", "C04",
 "storing 0 in an element of an Integer array which is still unknown",
 "an element becoming known isn't published if its value is 0",
 [("src/expr/ArrayVariable.cc", """  void ArrayVariableImpl<Integer>::setElement(size_t idx, Value const &value)
  {
    ArrayImpl<Integer> *ary = typedArrayPointer();
    Integer vtemp, atemp;
""", """  void ArrayVariableImpl<Integer>::setElement(size_t idx, Value const &value)
  {
    ArrayImpl<Integer> *ary = typedArrayPointer();
    Integer vtemp = 0, atemp = 0;
"""),
  ("src/expr/ArrayVariable.cc", """    aknown = ary->getElement(idx, atemp);
    if (vknown) {
      if (!aknown || vtemp != atemp) {
        ary->setElement(idx, vtemp);
        publishChange();
      }
      // else unchanged
    }
    else if (aknown) {
      m_value->setElementUnknown(idx);
      publishChange();
    }
    // else unchanged
  }

  void ArrayVariableImpl<String>""", """    aknown = ary->getElement(idx, atemp);
    if (vknown) {
      ary->setElement(idx, vtemp);
      if (vtemp != atemp)
        publishChange();
      // else unchanged
    }
    else if (aknown) {
      m_value->setElementUnknown(idx);
      publishChange();
    }
    // else unchanged
  }

  void ArrayVariableImpl<String>""")],
 r'''#include "mini.hh"
#include "ArrayVariable.hh"
#include "Constant.hh"
#include "ExpressionListener.hh"
struct L : ExpressionListener { int n = 0; void notifyChanged() override { ++n; } };
int main()
{
  miniInit();
  ArrayVariableImpl<Integer> v("v", new Constant<Integer>(3), true);
  L l;
  struct { void show() {} } m;
  v.addListener(&l);
  v.activate();
  int b = l.n;
  v.setElement(1, Value((Integer) 5)); WANT(l.n == b + 1);
  v.setElement(1, Value((Integer) 6)); WANT(l.n == b + 2);
  v.setElement(2, Value((Integer) 0));
  WANT(v.elementIsKnown(2));
  WANT(l.n == b + 3);
  v.deactivate();
  v.removeListener(&l);
  return 0;
}
''')
