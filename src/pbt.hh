// Property-based testing engine: choice-stream generators, forked execution,
// shrinking of the choice stream, replay files and evidence.
//
// A test case is a pure function of a stream of choices.  While searching, the
// choices come from a PRNG seeded by (VERIF_SEED, case number); when replaying
// or shrinking they come from the recorded stream (0 when it is exhausted, so
// generators must treat 0 as the simplest alternative).
#ifndef PBT_HH
#define PBT_HH

#include <cstdint>
#include <cstddef>
#include <exception>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

  struct Discard {};                       // the case is not usable; not counted

  struct Failure {                         // the property is violated
    std::string msg;
    explicit Failure(std::string m) : msg(std::move(m)) {}
  };

  inline uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
  }

  class Gen {
  public:
    explicit Gen(uint64_t seed) : m_state(mix(seed)), m_replay(false), m_pos(0) {}
    explicit Gen(std::vector<uint64_t> in) : m_state(0), m_replay(true), m_pos(0), m_in(std::move(in)) {}

    uint64_t draw(uint64_t n) {            // uniform in [0, n)
      if (n <= 1) return 0;                // no choice: not recorded
      uint64_t v;
      if (m_replay)
        v = m_pos < m_in.size() ? m_in[m_pos++] % n : 0;
      else {
        m_state += 0x9E3779B97F4A7C15ull;
        v = mix(m_state) % n;
      }
      m_out.push_back(v);
      if (s_log && s_log[0] < LOG_MAX) s_log[++s_log[0]] = v; // survives a crash
      return v;
    }
    int64_t range(int64_t lo, int64_t hi) { // inclusive; lo is simplest
      return lo + (int64_t) draw((uint64_t) (hi - lo) + 1);
    }
    bool chance(unsigned num, unsigned den) { // true with probability num/den; false is simplest
      return draw(den) >= den - num;
    }
    template <typename T> T const &pick(std::vector<T> const &v) { return v[draw(v.size())]; }
    template <typename T, size_t N> T const &pick(T const (&v)[N]) { return v[draw(N)]; }
    // index chosen by weight
    size_t weighted(std::vector<unsigned> const &w) {
      unsigned tot = 0;
      for (unsigned x : w) tot += x;
      unsigned r = (unsigned) draw(tot);
      for (size_t i = 0; i < w.size(); ++i) {
        if (r < w[i]) return i;
        r -= w[i];
      }
      return 0;
    }
    std::vector<uint64_t> const &choices() const { return m_out; }

    static uint64_t *s_log;
    static const uint64_t LOG_MAX = 1 << 20;

  private:
    uint64_t m_state;
    bool m_replay;
    size_t m_pos;
    std::vector<uint64_t> m_in, m_out;
  };

  // The outcome of this case depends on the interleaving of its threads: a
  // failure counts even when running the case again does not bring it back.
  void racy();
  // The case is making progress although this process uses no CPU.
  void heartbeat();

  // What one case reports about itself.
  struct Ctx {
    bool nontrivial = false;
    uint64_t hash = 14695981039346656037ull; // identifies the case
    std::string sample;                      // readable form of the case
    std::string signature;                   // set before failing when it may be a known finding
    std::map<std::string, long> labels;      // distribution
    bool verbose = false;                    // replaying: sample must be filled

    void label(std::string const &s, long n = 1) { labels[s] += n; }
    void addHash(std::string const &s) { for (unsigned char c : s) { hash ^= c; hash *= 1099511628211ull; } }
    void addHash(uint64_t v) { for (int i = 0; i < 8; ++i) { hash ^= (v >> (8 * i)) & 0xff; hash *= 1099511628211ull; } }
  };

  struct Prop {
    const char *id;
    void (*fn)(Gen &, Ctx &);
    long quick, thorough;                    // number of cases per tier
    const char *rule;                        // how cases are made; what makes one non-trivial
    std::vector<std::string> assumptions;
    int chunk = 200;                         // cases per process
    void (*init)() = nullptr;                // once per process
  };

  int main(int argc, char **argv, std::vector<Prop> const &props);

  // Helpers for oracles
  #define PBT_FAIL(x) do { std::ostringstream os_; os_ << x; throw pbt::Failure(os_.str()); } while (0)
  #define PBT_CHECK(c, x) do { if (!(c)) PBT_FAIL(x); } while (0)
}

#endif
