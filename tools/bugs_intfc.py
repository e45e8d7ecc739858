from mkbug import bug
M = '#include "mini.hh"\n'
bug("both-integer-thresholds-tighter", "C09",
 "two lookups with tolerances of one Integer state, the later of which needs tighter thresholds on both sides",
 "the upper threshold asked of the interface is that of the looser lookup, so a change beyond the tighter tolerance isn't reported",
 [("src/intfc/StateCacheEntry.cc", """            if (newilo > ilo)
              ilo = newilo;
            if (newihi < ihi)""", """            if (newilo > ilo)
              ilo = newilo;
            else if (newihi < ihi)""")],
 M + r'''#include "Constant.hh"
#include "Lookup.hh"
#include "ExpressionListener.hh"
struct W : ExpressionListener { void notifyChanged() override {} };
struct D : Mini { Integer hi = 0, lo = 0; void setThresholds(State const &, Real, Real) override {} void setThresholds(State const &, Integer h, Integer l) override { hi = h; lo = l; } };
int main()
{
  miniInit();
  D m; m.set("x", Value((Integer) 10));
  W w;
  Expression *l[2] = {makeLookupOnChange(new Constant<String>("x"), true, INTEGER_TYPE, new Constant<Integer>(8), true, nullptr),
                      makeLookupOnChange(new Constant<String>("x"), true, INTEGER_TYPE, new Constant<Integer>(3), true, nullptr)};
  for (Expression *e : l) { e->addListener(&w); e->activate(); }
  std::cerr << m.lo << " " << m.hi << "\n";
  WANT(m.lo == 7 && m.hi == 13);
  for (Expression *e : l) { e->deactivate(); e->removeListener(&w); delete e; }
  return 0;
}
''')
bug("tolerance-outlives-state", "C09",
 "a LookupOnChange with a tolerance whose parameter changes to a state whose value is within the tolerance of the old one's",
 "the lookup keeps showing the value of the state it looked up before",
 [("src/intfc/Lookup.cc", """      LookupImpl::invalidateOldState();
      if (m_thresholds) {
        m_thresholds.reset();
        m_cachedValue.reset();
      }""", """      LookupImpl::invalidateOldState();
      // Without a state there is nothing to compare with
      if (m_thresholds && !m_stateKnown) {
        m_thresholds.reset();
        m_cachedValue.reset();
      }""")],
 M + r'''#include "Constant.hh"
#include "ExprVec.hh"
#include "Lookup.hh"
#include "ExpressionListener.hh"
#include "UserVariable.hh"
struct W : ExpressionListener { void notifyChanged() override {} };
int main()
{
  miniInit();
  Mini m; W w;
  StateCache::instance().lookupReturn(State("t", Value((Integer) 1)), Value(20.0));
  StateCache::instance().lookupReturn(State("t", Value((Integer) 2)), Value(20.5));
  UserVariable<Integer> v("v"); v.activate(); v.setValue(Value((Integer) 1));
  ExprVec *p = makeExprVec(1); p->setArgument(0, &v, false);
  Expression *l = makeLookupOnChange(new Constant<String>("t"), true, REAL_TYPE, new Constant<Real>(2.0), true, p);
  l->addListener(&w); l->activate();
  Real r = 0; WANT(l->getValue(r) && r == 20.0);
  v.setValue(Value((Integer) 2));
  WANT(l->getValue(r) && r == 20.5);
  l->deactivate(); l->removeListener(&w); delete l;
  return 0;
}
''')
