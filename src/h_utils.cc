// C24 (containers and bit searches), C22 (time arithmetic, timers)
#include "pbt.hh"
#include "plexil-config.h"
#include "LinkedQueue.hh"
#include "SimpleMap.hh"
#include "SimpleSet.hh"
#include "bitsetUtils.hh"
#include "timespec-utils.hh"
#include "timeval-utils.hh"
#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "InterfaceAdapter.hh"
#include "InterfaceError.hh"
#include "PlanError.hh"
#include "State.hh"
#include "Timebase.hh"
#include "TimebaseFactory.hh"
#include "TimeAdapter.h"
#include "Value.hh"
#include "LookupReceiver.hh"
#include <bitset>
#include <cmath>
#include <csignal>
#include <ctime>
#include <map>
#include <memory>
#include <set>
#include <sys/time.h>
using namespace PLEXIL;
using pbt::Gen; using pbt::Ctx;

// ---------------------------------------------------------------- C24
struct Item {
  int id, key; Item *nxt = nullptr;
  Item(int i, int k) : id(i), key(k) {}
  Item *next() const { return nxt; }
  Item **nextPtr() { return &nxt; }
};
struct ByKey { bool operator()(Item const &a, Item const &b) const { return a.key < b.key; } };

template <typename Q> static std::string walk(Q const &q)
{
  std::string r; size_t k = 0;
  for (Item const *p = q.front(); p && k < 100; p = p->next(), ++k) r += std::to_string(p->id) + " ";
  return r;
}
static std::string walk(std::vector<Item *> const &v) { std::string r; for (Item *p : v) r += std::to_string(p->id) + " "; return r; }

template <typename Q> static void sameQueue(Q &q, std::vector<Item *> const &m, std::string const &h)
{
  PBT_CHECK(walk(q) == walk(m), h << ": queue holds " << walk(q) << "but should hold " << walk(m));
  PBT_CHECK(q.size() == m.size() && q.empty() == m.empty(), h << ": size " << q.size() << " empty " << q.empty() << " with " << m.size() << " items");
  PBT_CHECK(q.front() == (m.empty() ? nullptr : m[0]), h << ": wrong front");
  std::vector<Item *> seen;
  for (auto it = q.begin(); it && seen.size() < 100; ++it) seen.push_back(*it);
  PBT_CHECK(seen == m, h << ": iteration yields " << walk(seen) << "not " << walk(m));
  Q const &cq = q; size_t k = 0;
  for (auto it = cq.begin(); !(it == cq.end()) && k < 100; it++, ++k)
    PBT_CHECK(k < m.size() && *it == m[k] && it->id == m[k]->id, h << ": const iteration differs at " << k);
  PBT_CHECK(k == m.size(), h << ": const iteration ends at " << k);
}

static void queues(Gen &g, Ctx &ctx)
{
  size_t n = (size_t) g.range(1, 8);
  std::vector<std::unique_ptr<Item>> own;
  std::vector<Item *> items;
  for (size_t i = 0; i < n; ++i) { own.emplace_back(new Item((int) i, (int) g.range(0, 3))); items.push_back(own.back().get()); }
  LinkedQueue<Item> q[2]; std::vector<Item *> m[2];
  PriorityQueue<Item, ByKey> pq; std::vector<Item *> pm;
  std::map<Item *, int> in; // 0, 1: q; 2: pq; absent: free
  std::string h;
  long changes = 0;
  size_t ops = (size_t) g.range(1, 30);
  for (size_t o = 0; o < ops; ++o) {
    Item *x = g.pick(items);
    int w = (int) g.draw(2);
    bool isFree = !in.count(x);
    std::string id = std::to_string(x->id), qn = "q" + std::to_string(w);
    switch (g.weighted({5, 2, 3, 2, 2, 3, 6, 3, 3, 2, 1, 1})) {
    case 0: if (isFree) { h += " " + qn + ".push " + id; q[w].push(x); m[w].push_back(x); in[x] = w; ++changes; } break;
    case 1: h += " " + qn + ".pop"; q[w].pop(); if (m[w].size()) { PBT_CHECK(!m[w][0]->nxt, h << ": popped item still linked"); in.erase(m[w][0]); m[w].erase(m[w].begin()); ++changes; } break;
    case 2: {
      h += " " + qn + ".remove " + id; q[w].remove(x);
      auto it = std::find(m[w].begin(), m[w].end(), x);
      if (it != m[w].end()) { m[w].erase(it); in.erase(x); PBT_CHECK(!x->nxt, h << ": removed item still linked"); ++changes; }
      break;
    }
    case 3: {
      h += " " + qn + ".remove_if " + id;
      int k = x->key;
      Item *r = q[w].remove_if([k](Item *i) { return i->key >= k; });
      auto it = std::find_if(m[w].begin(), m[w].end(), [k](Item *i) { return i->key >= k; });
      PBT_CHECK(r == (it == m[w].end() ? nullptr : *it), h << ": removed " << (r ? r->id : -1));
      if (r) { PBT_CHECK(!r->nxt, h << ": removed item still linked"); in.erase(r); m[w].erase(it); ++changes; }
      break;
    }
    case 4: {
      int k = x->key;
      Item *r = q[w].find_if([k](Item *i) { return i->key == k; });
      auto it = std::find_if(m[w].begin(), m[w].end(), [k](Item *i) { return i->key == k; });
      PBT_CHECK(r == (it == m[w].end() ? nullptr : *it), h << ": find_if found " << (r ? r->id : -1));
      Item *s = pq.find_if([k](Item *i) { return i->key >= k; });
      auto jt = std::find_if(pm.begin(), pm.end(), [k](Item *i) { return i->key >= k; });
      PBT_CHECK(s == (jt == pm.end() ? nullptr : *jt), h << ": find_if in priority queue found " << (s ? s->id : -1));
      break;
    }
    case 5: if (isFree) {
      size_t pos = (size_t) g.range(0, (int64_t) m[w].size());
      h += " " + qn + ".insert_after " + std::to_string(pos) + " " + id;
      if (pos == m[w].size()) { auto r = q[w].insert_after(q[w].end(), x); PBT_CHECK(*r == x, h << ": wrong iterator returned"); m[w].push_back(x); }
      else {
        auto it = q[w].begin();
        for (size_t k = 0; k < pos; ++k) ++it;
        auto r = q[w].insert_after(it, x);
        PBT_CHECK(*r == x, h << ": wrong iterator returned");
        m[w].insert(m[w].begin() + (long) pos + 1, x);
      }
      in[x] = w; ++changes;
    } break;
    case 6: if (isFree) {
      h += " pq.insert " + id + ":" + std::to_string(x->key);
      pq.insert(x);
      auto it = pm.begin(); while (it != pm.end() && (*it)->key <= x->key) ++it;
      pm.insert(it, x); in[x] = 2; ++changes;
    } break;
    case 7: h += " pq.pop"; pq.pop(); if (pm.size()) { PBT_CHECK(!pm[0]->nxt, h << ": popped item still linked"); in.erase(pm[0]); pm.erase(pm.begin()); ++changes; } break;
    case 8: {
      h += " pq.remove " + id; pq.remove(x);
      auto it = std::find(pm.begin(), pm.end(), x);
      if (it != pm.end()) { pm.erase(it); in.erase(x); PBT_CHECK(!x->nxt, h << ": removed item still linked"); ++changes; }
      break;
    }
    case 9: {
      int k = x->key;
      h += " pq.remove_if " + std::to_string(k);
      Item *r = pq.remove_if([k](Item *i) { return i->key > k; });
      auto it = std::find_if(pm.begin(), pm.end(), [k](Item *i) { return i->key > k; });
      PBT_CHECK(r == (it == pm.end() ? nullptr : *it), h << ": removed " << (r ? r->id : -1));
      if (r) { in.erase(r); pm.erase(it); PBT_CHECK(!r->nxt, h << ": removed item still linked"); ++changes; }
      break;
    }
    case 10: h += " " + qn + ".clear"; for (Item *i : m[w]) in.erase(i); q[w].clear(); for (Item *i : m[w]) PBT_CHECK(!i->nxt, h << ": cleared item still linked"); m[w].clear(); ++changes; break;
    default: h += " pq.clear"; for (Item *i : pm) in.erase(i); pq.clear(); for (Item *i : pm) PBT_CHECK(!i->nxt, h << ": cleared item still linked"); pm.clear(); ++changes; break;
    }
    sameQueue(q[0], m[0], h); sameQueue(q[1], m[1], h); sameQueue(pq, pm, h);
    size_t fc = 0; while (fc < pm.size() && pm[fc]->key == pm[0]->key) ++fc;
    PBT_CHECK(pq.front_count() == fc, h << ": front_count " << pq.front_count() << ", not " << fc);
    for (Item *i : items) if (!in.count(i)) PBT_CHECK(!i->nxt, h << ": item " << i->id << " in no queue but linked");
  }
  for (int k = 0; k < 2; ++k) q[k].clear();
  pq.clear();
  ctx.sample = "queues:" + h;
  ctx.nontrivial = changes >= 3;
  ctx.label("queues");
}

struct CStr { bool operator()(char const *a, char const *b) const { return strcmp(a, b) < 0; } bool equal(char const *a, char const *b) const { return !strcmp(a, b); } bool match(char const *a, char const *b) const { return !strcmp(a, b); } };
struct StrIdx { bool operator()(std::string const &a, char const *b) const { return a < b; } bool equal(std::string const &a, char const *b) const { return a == b; } bool match(std::string const &a, char const *b) const { return a == b; } };

static void mapsAndSets(Gen &g, Ctx &ctx)
{
  static char const *keys[] = {"", "a", "b", "ab", "abc", "z", "A", "a b"};
  SimpleMap<std::string, int> sm; std::map<std::string, int> mm;
  SimpleMap<char const *, int, CStr> cm((size_t) g.range(0, 3));
  SimpleSet<int> ss((size_t) g.range(0, 3)); std::set<int> ms;
  SimpleSet<std::string> st; std::set<std::string> mst;
  std::string h; long changes = 0;
  size_t ops = (size_t) g.range(1, 30);
  for (size_t o = 0; o < ops; ++o) {
    char const *k = g.pick(keys);
    int v = (int) g.range(0, 9);
    switch (g.weighted({5, 3, 2, 1, 1, 5, 3, 3, 1, 1})) {
    case 0: {
      h += std::string(" insert ") + k + "=" + std::to_string(v);
      bool fresh = !mm.count(k);
      bool r = sm.insert(k, v), r2 = cm.insert(k, v);
      PBT_CHECK(r == fresh && r2 == fresh, h << ": insert returned " << r << r2);
      if (fresh) { mm[k] = v; ++changes; }
      break;
    }
    case 1: h += std::string(" [") + k + "]=" + std::to_string(v); sm[k] = v; cm[k] = v; mm[k] = v; ++changes; break;
    case 2: {
      h += std::string(" [") + k + "]";
      auto const &csm = sm; auto const &ccm = cm;
      int w = mm.count(k) ? mm[k] : 0;
      PBT_CHECK(csm[k] == w && ccm[k] == w, h << ": read " << csm[k] << "," << ccm[k] << " not " << w);
      break;
    }
    case 3: h += " grow"; sm.grow((size_t) v); cm.grow((size_t) v); ss.grow((size_t) v); break;
    case 4: if (g.chance(1, 2)) { h += " clear"; sm.clear(); cm.clear(); mm.clear(); } break;
    case 5: {
      h += " add " + std::to_string(v);
      bool r = ss.insert(v), r2 = st.insert(k);
      PBT_CHECK(r == ms.insert(v).second && r2 == mst.insert(k).second, h << ": insert returned " << r << r2);
      ++changes; break;
    }
    case 6: {
      h += " erase " + std::to_string(v) + " " + k;
      size_t r = ss.erase(v), r2 = st.erase(std::string(k));
      PBT_CHECK(r == ms.erase(v) && r2 == mst.erase(k), h << ": erase returned " << r << "," << r2);
      ++changes; break;
    }
    case 7: {
      auto it = ss.find(v); auto jt = st.find(k);
      SimpleSet<int> const &css = ss; SimpleSet<std::string> const &cst = st;
      auto cit = css.find(v); auto cjt = cst.find(k);
      PBT_CHECK((it != ss.end()) == (ms.count(v) > 0) && (it == ss.end() || *it == v), h << ": find " << v);
      PBT_CHECK((jt != st.end()) == (mst.count(k) > 0) && (jt == st.end() || *jt == k), h << ": find " << k);
      PBT_CHECK((cit != css.end()) == (ms.count(v) > 0) && (cjt != cst.end()) == (mst.count(k) > 0), h << ": const find");
      if (it != ss.end() && g.chance(1, 2)) {
        h += " erase at " + std::to_string(v);
        auto nx = ms.erase(ms.find(v));
        auto r = g.chance(1, 2) ? ss.erase(it) : ss.erase((SimpleSet<int>::const_iterator) it);
        PBT_CHECK((r == ss.end()) == (nx == ms.end()) && (r == ss.end() || *r == *nx), h << ": erase returned the wrong successor");
        ++changes;
      }
      break;
    }
    case 8: if (g.chance(1, 2)) { h += " clear sets"; ss.clear(); ms.clear(); st.clear(); mst.clear(); } break;
    default: break;
    }
    // everything observable
    PBT_CHECK(sm.size() == mm.size() && cm.size() == mm.size() && sm.empty() == mm.empty(), h << ": map size " << sm.size() << "," << cm.size() << " not " << mm.size());
    auto it = sm.begin(); auto ct = cm.begin();
    for (auto const &p : mm) {
      PBT_CHECK(it->first == p.first && it->second == p.second, h << ": map entry " << it->first << "=" << it->second << ", not " << p.first << "=" << p.second);
      PBT_CHECK(p.first == ct->first && ct->second == p.second, h << ": map entry " << ct->first << "=" << ct->second << ", not " << p.first << "=" << p.second);
      ++it; ++ct;
    }
    for (char const *x : keys) {
      SimpleMap<std::string, int> const &csm = sm;
      bool there = mm.count(x) > 0;
      auto a = sm.find(std::string(x)); auto b = csm.find(std::string(x)); auto c = cm.find(x);
      auto d = sm.find<char const *, StrIdx>(x);
      PBT_CHECK((a != sm.end()) == there && (b != csm.end()) == there && (c != cm.end()) == there && (d != sm.end()) == there, h << ": find \"" << x << "\" with " << there);
      if (there) PBT_CHECK(a->first == x && b->first == x && !strcmp(c->first, x) && d->first == x, h << ": find \"" << x << "\" found another entry");
    }
    PBT_CHECK(ss.size() == ms.size() && ss.empty() == ms.empty() && std::vector<int>(ss.begin(), ss.end()) == std::vector<int>(ms.begin(), ms.end()), h << ": set of " << ss.size() << " differs");
    PBT_CHECK(st.size() == mst.size() && std::vector<std::string>(st.begin(), st.end()) == std::vector<std::string>(mst.begin(), mst.end()), h << ": set of strings differs");
    for (int x = 0; x < 10; ++x) PBT_CHECK(ss.contains(x) == (ms.count(x) > 0), h << ": contains " << x);
  }
  ctx.sample = "maps and sets:" + h;
  ctx.nontrivial = changes >= 3;
  ctx.label("maps and sets");
}

template <size_t N> static void bits(Gen &g, Ctx &ctx)
{
  std::bitset<N> b;
  bool ones = g.chance(1, 2);
  if (ones) b.set();
  size_t k = (size_t) g.range(0, 4);
  for (size_t i = 0; i < k; ++i) b.flip((size_t) g.range(0, N - 1));
  if (g.chance(1, 4)) { size_t upto = (size_t) g.range(0, N); for (size_t i = 0; i < upto; ++i) b[i] = g.chance(1, 2); }
  int f1 = -1, f0 = -1;
  for (size_t i = N; i-- > 0;) (b[i] ? f1 : f0) = (int) i;
  ctx.sample = "bits of " + b.to_string();
  PBT_CHECK(findFirstOne(b) == f1, ctx.sample << ": first one at " << findFirstOne(b) << ", not " << f1);
  PBT_CHECK(findFirstZero(b) == f0, ctx.sample << ": first zero at " << findFirstZero(b) << ", not " << f0);
  unsigned long w = 0;
  int w1 = -1, w0 = -1;
  for (size_t i = 0; i < 64; ++i) if (i < N ? b[i] : ones) w |= 1ul << i;
  for (int i = 63; i >= 0; --i) ((w >> i) & 1 ? w1 : w0) = i;
  PBT_CHECK(findFirstOne(w) == w1, std::hex << w << ": first one at " << std::dec << findFirstOne(w) << ", not " << w1);
  PBT_CHECK(findFirstZero(w) == w0, std::hex << w << ": first zero at " << std::dec << findFirstZero(w) << ", not " << w0);
  ctx.nontrivial = !b.all() && b.any();
  ctx.label("bits");
}

static void c24(Gen &g, Ctx &ctx)
{
  switch (g.weighted({6, 4, 2})) {
  case 0: queues(g, ctx); break;
  case 1: mapsAndSets(g, ctx); break;
  default: switch (g.draw(7)) { case 0: bits<64>(g, ctx); break; case 1: bits<65>(g, ctx); break; case 2: bits<7>(g, ctx); break; case 3: bits<128>(g, ctx); break; case 4: bits<100>(g, ctx); break; case 5: bits<300>(g, ctx); break; default: bits<1>(g, ctx); break; }
  }
  ctx.addHash(ctx.sample);
}

// ---------------------------------------------------------------- C22: arithmetic
typedef __int128 Big;
static std::string bigStr(Big b) { bool n = b < 0; if (n) b = -b; std::string r; do { r = char('0' + (int) (b % 10)) + r; b /= 10; } while (b); return n ? "-" + r : r; }

struct TS { typedef struct timespec T; static const long U = 1000000000; static T mk(long s, long f) { T t; t.tv_sec = s; t.tv_nsec = f; return t; } static long f(T const &t) { return t.tv_nsec; }
  static T of(double d) { return doubleToTimespec(d); } static double back(T const &t) { return timespecToDouble(t); } static char const *n() { return "timespec"; } };
struct TV { typedef struct timeval T; static const long U = 1000000; static T mk(long s, long f) { T t; t.tv_sec = s; t.tv_usec = f; return t; } static long f(T const &t) { return t.tv_usec; }
  static T of(double d) { return doubleToTimeval(d); } static double back(T const &t) { return timevalToDouble(t); } static char const *n() { return "timeval"; } };
template <typename K> static Big total(typename K::T const &t) { return (Big) t.tv_sec * K::U + K::f(t); }
template <typename K> static std::string show(typename K::T const &t) { return "{" + std::to_string(t.tv_sec) + "," + std::to_string(K::f(t)) + "}"; }
template <typename K> static bool normal(typename K::T const &t) { return K::f(t) < K::U && K::f(t) > -K::U && !(t.tv_sec > 0 && K::f(t) < 0) && !(t.tv_sec < 0 && K::f(t) > 0); }
template <typename K> static typename K::T genT(Gen &g)
{
  long s = 0, f = 0;
  switch (g.weighted({3, 3, 2, 2})) { case 0: s = g.range(0, 3); break; case 1: s = 1700000000 + g.range(0, 3); break; case 2: s = (long) g.draw(1ull << 40); break; default: s = (long) g.draw(1ull << 61); break; }
  switch (g.weighted({2, 2, 2, 3})) { case 0: break; case 1: f = g.range(1, 3); break; case 2: f = K::U - g.range(1, 3); break; default: f = (long) g.draw(K::U); break; }
  if (g.chance(1, 3)) { s = -s; f = -f; }
  return K::mk(s, f);
}
static double genTime(Gen &g)
{
  double d = 0;
  switch (g.weighted({2, 3, 3, 2, 2, 1})) {
  case 0: d = (double) g.range(0, 5); break;
  case 1: d = (double) g.range(0, 3000000) * 1e-6; break;
  case 2: d = 1700000000.0 + (double) g.range(0, 3000000) * 1e-6; break;
  case 3: d = (double) g.draw(1ull << 53) / (double) (1ull << g.range(0, 53)); break;
  case 4: d = std::ldexp((double) g.draw(1ull << 53), (int) g.range(-80, 9)); break;
  default: d = std::nextafter(9223372036854775808.0, 0); break;
  }
  return g.chance(1, 3) ? -d : d;
}
template <typename K> static void arith(Gen &g, Ctx &ctx)
{
  typedef typename K::T T;
  T a = genT<K>(g), b = g.chance(1, 4) ? a : genT<K>(g);
  if (g.chance(1, 4)) { T c = a; long f = K::f(a); if (f > 0 && f + 1 < K::U) c = K::mk(a.tv_sec, f + 1); b = c; }
  if (g.chance(1, 6)) b = K::mk(-a.tv_sec, -K::f(a));
  std::string w = std::string(K::n()) + " " + show<K>(a) + ", " + show<K>(b);
  T s = a + b, d = a - b;
  PBT_CHECK(total<K>(s) == total<K>(a) + total<K>(b) && normal<K>(s), w << ": sum is " << show<K>(s));
  PBT_CHECK(total<K>(d) == total<K>(a) - total<K>(b) && normal<K>(d), w << ": difference is " << show<K>(d));
  PBT_CHECK((a < b) == (total<K>(a) < total<K>(b)), w << ": < is " << (a < b));
  PBT_CHECK((a > b) == (total<K>(a) > total<K>(b)), w << ": > is " << (a > b));
  PBT_CHECK((a == b) == (total<K>(a) == total<K>(b)), w << ": == is " << (a == b));
  // conversion
  long double want = (long double) a.tv_sec + (long double) K::f(a) / K::U;
  double got = K::back(a);
  double ulp = std::fabs(std::nextafter(got, INFINITY) - got) + std::fabs(got - std::nextafter(got, -INFINITY));
  PBT_CHECK(std::fabs((long double) got - want) <= (long double) ulp + std::fabs(want) * 1e-18L, w << ": first as a double is " << got);
  double x = genTime(g), y = g.chance(1, 3) ? std::nextafter(x, INFINITY) : genTime(g);
  if (y >= 9223372036854775808.0) y = x;
  char buf[80]; snprintf(buf, sizeof buf, ", doubles %.17g, %.17g", x, y); w += buf;
  T p = K::of(x), q = K::of(y);
  for (int i = 0; i < 2; ++i) {
    T const &t = i ? q : p; double v = i ? y : x;
    PBT_CHECK(normal<K>(t), w << ": converted to " << show<K>(t) << ", not normalised");
    // |t - v| less than one unit; the arithmetic in long double is exact enough when the seconds agree
    long double ip; long double fr = std::modf((long double) v, &ip);
    Big ipart = (Big) ip;
    long double diff = (long double) (total<K>(t) - ipart * K::U) - fr * K::U;
    PBT_CHECK(diff < 1.001L && diff > -1.001L, w << ": " << v << " converted to " << show<K>(t));
    double bk = K::back(t);
    double u2 = std::fabs(std::nextafter(v, INFINITY) - v) * 2 + 1.001 / K::U;
    PBT_CHECK(std::fabs(bk - v) <= u2, w << ": converted back to " << bk);
  }
  if (x <= y) PBT_CHECK(!(q < p), w << ": order lost: " << show<K>(p) << ", " << show<K>(q));
  if (x >= y) PBT_CHECK(!(p < q), w << ": order lost: " << show<K>(p) << ", " << show<K>(q));
  ctx.sample = w;
  ctx.nontrivial = total<K>(a) != 0 && total<K>(b) != 0;
  ctx.label("arithmetic");
}

// ---------------------------------------------------------------- C22: timers, on a simulated clock
namespace sim {
  bool on = false;
  Big now = 0;                       // ns
  bool exists = false, armed = false;
  Big expiry = 0, interval = 0;
  struct sigevent ev;
  void (*alrm)(int) = nullptr;
  bool dead = false;                 // timer used after deletion
  std::string err;
  Big ns(struct timespec const &t) { return (Big) t.tv_sec * 1000000000 + t.tv_nsec; }
  Big ns(struct timeval const &t) { return ((Big) t.tv_sec * 1000000 + t.tv_usec) * 1000; }
  Big nowTv() { return now / 1000 * 1000; }
  void reset(Big t) { now = t; exists = armed = dead = false; alrm = nullptr; err.clear(); }
}
extern "C" {
  int __real_timer_create(clockid_t, struct sigevent *, timer_t *);
  int __real_timer_settime(timer_t, int, const struct itimerspec *, struct itimerspec *);
  int __real_timer_delete(timer_t);
  int __real_clock_gettime(clockid_t, struct timespec *);
  int __real_gettimeofday(struct timeval *, void *);
  int __real_setitimer(int, const struct itimerval *, struct itimerval *);
  int __real_sigaction(int, const struct sigaction *, struct sigaction *);
  int __wrap_timer_create(clockid_t c, struct sigevent *e, timer_t *t)
  {
    if (!sim::on) return __real_timer_create(c, e, t);
    sim::exists = true; sim::armed = false; sim::ev = *e; *t = (timer_t) &sim::exists; return 0;
  }
  int __wrap_timer_settime(timer_t t, int fl, const struct itimerspec *n, struct itimerspec *o)
  {
    if (!sim::on) return __real_timer_settime(t, fl, n, o);
    if (!sim::exists || t != (timer_t) &sim::exists) { errno = EINVAL; return -1; }
    if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec >= 1000000000 || n->it_value.tv_sec < 0 || n->it_interval.tv_nsec < 0 || n->it_interval.tv_nsec >= 1000000000) { errno = EINVAL; return -1; }
    if (!n->it_value.tv_sec && !n->it_value.tv_nsec) { sim::armed = false; return 0; }
    sim::armed = true; sim::interval = sim::ns(n->it_interval);
    sim::expiry = sim::ns(n->it_value) + (fl & TIMER_ABSTIME ? 0 : sim::now);
    return 0;
  }
  int __wrap_timer_delete(timer_t t) { if (!sim::on) return __real_timer_delete(t); if (!sim::exists) { errno = EINVAL; return -1; } sim::exists = sim::armed = false; return 0; }
  int __wrap_clock_gettime(clockid_t c, struct timespec *t)
  {
    if (!sim::on) return __real_clock_gettime(c, t);
    t->tv_sec = (time_t) (sim::now / 1000000000); t->tv_nsec = (long) (sim::now % 1000000000); return 0;
  }
  int __wrap_gettimeofday(struct timeval *t, void *z)
  {
    if (!sim::on) return __real_gettimeofday(t, z);
    t->tv_sec = (time_t) (sim::now / 1000000000); t->tv_usec = (long) (sim::now % 1000000000) / 1000; return 0;
  }
  int __wrap_setitimer(int w, const struct itimerval *n, struct itimerval *o)
  {
    if (!sim::on) return __real_setitimer(w, n, o);
    if (w != ITIMER_REAL || n->it_value.tv_usec < 0 || n->it_value.tv_usec >= 1000000 || n->it_value.tv_sec < 0) { errno = EINVAL; return -1; }
    if (!n->it_value.tv_sec && !n->it_value.tv_usec) { sim::armed = false; return 0; }
    sim::armed = true; sim::interval = sim::ns(n->it_interval); sim::expiry = sim::nowTv() + sim::ns(n->it_value);
    return 0;
  }
  int __wrap_sigaction(int s, const struct sigaction *n, struct sigaction *o)
  {
    if (!sim::on || s != SIGALRM) return __real_sigaction(s, n, o);
    if (n) sim::alrm = n->sa_handler == SIG_DFL ? nullptr : n->sa_handler;
    return 0;
  }
}
static void fire()
{
  if (sim::interval > 0) sim::expiry += sim::interval; else sim::armed = false;
  if (sim::exists) sim::ev.sigev_notify_function(sim::ev.sigev_value);
  else { PBT_CHECK(sim::alrm, "the alarm goes off with no handler for it"); sim::alrm(SIGALRM); }
}

struct Notified : AdapterExecInterface {
  std::function<void()> f;
  void handleValueChange(State const &, const Value &) override {} void handleValueChange(State const &, Value &&) override {}
  void handleValueChange(State &&, const Value &) override {} void handleValueChange(State &&, Value &&) override {}
  void handleCommandAck(Command *, CommandHandleValue) override {} void handleCommandReturn(Command *, Value const &) override {} void handleCommandReturn(Command *, Value &&) override {}
  void handleCommandAbortAck(Command *, bool) override {} void handleUpdateAck(Update *, bool) override {}
  void notifyMessageReceived(Message *) override {} void notifyMessageQueueEmpty() override {} void notifyMessageAccepted(Message *, std::string const &) override {} void notifyMessageHandleReleased(std::string const &) override {}
  void handleAddPlan(pugi::xml_node const) override {} bool handleAddLibrary(pugi::xml_document *) override { return false; }
  void notifyOfExternalEvent() override { f(); }
  void notifyAndWaitForCompletion() override { f(); }
};
struct Rcv : LookupReceiver {
  Value v;
  void update(Value const &x) override { v = x; }
  void update(Boolean x) override { v = Value(x); } void update(Integer x) override { v = Value(x); } void update(Real x) override { v = Value(x); }
  void update(String const &x) override { v = Value(x); } void update(char const *x) override { v = Value(x); }
  void update(Boolean const *, size_t) override {} void update(Integer const *, size_t) override {} void update(Real const *, size_t) override {} void update(String const *, size_t) override {}
  void setUnknown() override { v = Value(); }
};

static void timers(Gen &g, Ctx &ctx)
{
  bool posix = !g.chance(1, 2), adapter = g.chance(1, 2);
  Big const RES = posix ? 1 : 1000;
  Big base = g.chance(1, 2) ? (Big) 1700000000 * 1000000000 : (Big) 1000 * 1000000000;
  base += (Big) g.range(0, 3) * 250000000 + (g.chance(1, 3) ? g.range(0, 999999) : 0);
  sim::reset(base);
  std::vector<Big> wake;             // wakeups seen
  std::string h = posix ? "Posix" : "Itimer";
  std::unique_ptr<Timebase> own;
  std::unique_ptr<AdapterConfiguration> config;
  std::unique_ptr<InterfaceAdapter> ad;
  Notified nt; nt.f = [&wake] { wake.push_back(sim::now); };
  pugi::xml_document doc;
  struct On { On() { sim::on = true; } ~On() { sim::on = false; } };
  double granted = 0;                // seconds per representable step at this time of day
  granted = std::nextafter((double) (base / 1000000000), INFINITY) - (double) (base / 1000000000);
  Big SLOP = RES + (Big) (granted * 2e9) + 1; // representing a deadline as a double costs this much
  bool running = false;
  Big interval = 0, started = 0;
  long used = 0;
  if (adapter) {
    doc.load_string((std::string("<Adapter AdapterType=\"Time\"><Timebase Type=\"") + (posix ? "Posix" : "Itimer") + "\"/></Adapter>").c_str());
    config.reset(makeAdapterConfiguration());
    ad.reset(AdapterFactory::createInstance(doc.document_element(), nt));
    PBT_CHECK(ad && ad->initialize(config.get()), h << ": the time adapter can't be initialized");
    h += " adapter";
  }
  else own.reset(TimebaseFactory::get(posix ? "Posix" : "Itimer")->create([&wake] { wake.push_back(sim::now); }));
  On o;
  bool pending = false; Big due = 0; // the deadline in force, in ns
  std::set<Big> asked;
  auto advanceTo = [&](Big t) {
    int guard = 0;
    while (sim::armed && sim::expiry <= t) {
      PBT_CHECK(++guard < 10000, h << ": the timer keeps going off at the same moment");
      if (sim::now < sim::expiry) sim::now = sim::expiry;
      PBT_CHECK(running, h << ": the timer goes off after stop");
      size_t before = wake.size();
      fire();
      PBT_CHECK(wake.size() > before, h << ": timer went off without waking anybody");
      if (interval == 0) {
        bool expected = false;
        for (Big a : asked) if (sim::now >= a - SLOP) expected = true;
        PBT_CHECK(expected, h << ": woken at " << bigStr(sim::now - base) << " ns before any deadline");
      }
    }
    sim::now = t;
    if (pending && sim::now >= due) {
      bool ok = false;
      for (Big w : wake) if (w >= due - SLOP) ok = true;
      PBT_CHECK(ok, h << ": not woken for the deadline at " << bigStr(due - base) << " ns though it's " << bigStr(sim::now - base) << " ns");
      pending = false; ++used;
    }
  };
  auto setTimer = [&](double d) { if (adapter) config->setThresholds(State("time"), (Real) d, (Real) 0); else own->setTimer(d); };
  size_t ops = (size_t) g.range(1, 14);
  for (size_t k = 0; k < ops; ++k) {
    switch (g.weighted({4, 1, 6, 6, 1, 2, 1})) {
    case 0: if (!running) {
      h += " start";
      if (adapter) PBT_CHECK(ad->start(), h << ": start failed"); else own->start();
      running = true; started = sim::now; pending = false; wake.clear(); asked.clear();
    } break;
    case 1: if (running) {
      h += " stop";
      if (adapter) ad->stop(); else own->stop();
      running = false; pending = false;
      PBT_CHECK(!sim::armed, h << ": the timer is still set after stop");
    } break;
    case 2: if (running) { // set a deadline
      static const double deltas[] = {0, 1e-6, 1e-3, 0.5, 1, 2, 10, -1e-6, -0.5, -3, 1e-7, 100000};
      double nowd = (double) (sim::now / 1000000000) + (double) (sim::now % 1000000000) / 1e9;
      double d = g.chance(1, 4) ? (double) (sim::nowTv() / 1000000000) + (double) (sim::nowTv() % 1000000000) / 1e9 : nowd + g.pick(deltas);
      size_t before = wake.size();
      h += " deadline@" + std::to_string(d - (double) (base / 1000000000));
      setTimer(d);
      if (interval) { PBT_CHECK(wake.size() == before, h << ": woken by a deadline in tick mode"); break; }
      double ip; double fr = std::modf(d, &ip);
      due = (Big) ip * 1000000000 + (Big) std::floor(fr * 1e9);
      asked.insert(due);
      if (wake.size() > before) { PBT_CHECK(due <= sim::now + SLOP, h << ": woken at once though the deadline is " << bigStr(due - sim::now) << " ns away"); pending = false; ++used; }
      else {
        PBT_CHECK(sim::armed, h << ": neither woken nor the timer set");
        PBT_CHECK(sim::expiry <= (due > sim::now ? due : sim::now) + SLOP - RES && sim::expiry >= due - SLOP, h << ": timer set for " << bigStr(sim::expiry - base) << " ns, but the deadline is " << bigStr(due - base));
        pending = true;
        if (!adapter) PBT_CHECK(std::fabs(own->getNextWakeup() - d) <= 2 * granted + 1.1e-9 * (double) RES, h << ": next wakeup reported as " << own->getNextWakeup());
        due += SLOP - RES > 0 ? SLOP - RES : 0;
      }
    } break;
    case 3: { // let time pass
      Big t = sim::now;
      static const long long steps[] = {1, 1000, 1000000, 500000000, 1000000000, 3000000000ll, 20000000000ll};
      if (pending && g.chance(1, 3)) t = due > sim::now ? due : sim::now; else t += g.pick(steps);
      h += " wait " + bigStr(t - sim::now) + "ns";
      if (interval && running) {
        Big const per = interval;
        Big first = sim::now; // ticks in (first, t]
        Big want = (t - started) / per - (first - started) / per;
        if (want > 5000) { want = 10; t = first + 10 * per; want = (t - started) / per - (first - started) / per; }
        size_t before = wake.size();
        advanceTo(t);
        PBT_CHECK((Big) (wake.size() - before) == want, h << ": " << (wake.size() - before) << " ticks of " << bigStr(per) << " ns instead of " << bigStr(want));
        for (size_t i = before; i < wake.size(); ++i) { Big off = (wake[i] - started) % per; PBT_CHECK(off < RES * 2 || per - off < RES * 2, h << ": a tick at " << bigStr(wake[i] - started)); }
        used += (long) (want > 0);
      }
      else advanceTo(t);
      break;
    }
    case 4: if (!adapter) { // tick interval
      uint32_t us = 0;
      switch (g.weighted({2, 2, 2, 1})) { case 0: us = (uint32_t) g.range(1, 1000) * 1000; break; case 1: us = (uint32_t) g.range(1, 20) * 500000; break; case 2: us = 4294967 + (uint32_t) g.range(0, 2000000); break; default: us = 0; }
      h += " tick " + std::to_string(us) + "us";
      bool threw = false;
      try { own->setTickInterval(us); } catch (InterfaceError const &) { threw = true; }
      PBT_CHECK(threw == running, h << (running ? ": accepted while running" : ": refused"));
      if (!threw) { interval = (Big) us * 1000; PBT_CHECK(own->getTickInterval() == us, h << ": reported as " << own->getTickInterval()); }
    } break;
    case 5: if (running && adapter && pending && sim::armed && sim::now + 2000000 < due - SLOP) { // the system wakes us early
      h += " early wakeup";
      SLOP += RES; // the deadline is rounded down to the timer's resolution every time it's set again
      Big keep = sim::expiry;
      if (g.chance(1, 2)) sim::now += (Big) g.range(0, 1000000); else sim::now = due - SLOP - 1 - (Big) g.range(0, 1000000);
      sim::armed = false;
      if (sim::exists) sim::ev.sigev_notify_function(sim::ev.sigev_value); else sim::alrm(SIGALRM);
      PBT_CHECK(sim::armed && sim::expiry <= keep + RES + SLOP, h << ": no new wakeup scheduled after an early one");
    } break;
    default: { // the time reported is the clock's
      double want = (double) (sim::now / 1000000000) + (double) (sim::now % 1000000000) / 1e9, got;
      if (adapter) { Rcv r; config->lookupNow(State("time"), &r); Real x = 0; PBT_CHECK(r.v.getValue(x), h << ": no time"); got = x; }
      else got = own->getTime();
      PBT_CHECK(std::fabs(got - want) <= 1e-6 + 2 * granted, h << ": time is " << got);
      break;
    }
    }
  }
  if (running) { if (adapter) ad->stop(); else own->stop(); PBT_CHECK(!sim::armed, h << ": the timer is still set after stop"); }
  ctx.sample = h;
  ctx.nontrivial = used > 0;
  ctx.label(adapter ? "time adapter" : "timebase");
}

static void c22(Gen &g, Ctx &ctx)
{
  switch (g.weighted({1, 1, 2})) {
  case 0: arith<TS>(g, ctx); break;
  case 1: arith<TV>(g, ctx); break;
  default: timers(g, ctx); break;
  }
  ctx.addHash(ctx.sample);
}

extern "C" void initTimeAdapter();
static void init() { Error::doThrowExceptions(); PlanError::doThrowExceptions(); InterfaceError::doThrowExceptions(); initTimeAdapter(); }

int main(int argc, char **argv)
{
  return pbt::main(argc, argv, {
    {"C24", c24, 400000, 8000000, "Histories of operations on two linked queues and a priority queue sharing a pool of items, on maps and sets (with int, string and C string keys), compared after every operation with vector, std::map and std::set models, and bit searches over bit sets of 1 to 300 bits and 64-bit words. Non-trivial: at least three changes, or a bit set neither empty nor full.", {"an item is in at most one queue at a time, as the containers require"}, 4000, init},
    {"C22", c22, 400000, 8000000, "Pairs of normalised times (edge-biased, negative, up to 2^61 s) compared with exact 128-bit arithmetic; doubles up to 2^63 converted to times and back; histories of start, stop, deadlines, ticks, early wakeups and passing time on the Posix and Itimer timebases, alone or under the time adapter, with the system's clock and timers replaced by simulated ones. Non-trivial: two non-zero times, or at least one wakeup due.", {"one deadline at a time is in force: the last one requested (Timebase.hh)", "the sum of two times stays within time_t"}, 4000, init},
  });
}
