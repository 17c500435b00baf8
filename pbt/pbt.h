// A small choice-sequence property-testing engine.
//
// A case is a function of a Ctx. Every random decision is a bounded choice drawn
// through the Ctx; the sequence of drawn values is the case. Replaying the
// sequence replays the case; shrinking edits the sequence (delete, zero, lower).
#ifndef PBT_H
#define PBT_H
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Fail {
    std::string msg;
};
struct Discard {};

struct Recorder;  // shared-memory copy of the choices (see pbt.cpp)

class Ctx {
  public:
    std::vector<uint64_t>        rec;
    const std::vector<uint64_t> *replay = nullptr;
    uint64_t                     s[2]   = {1, 2};
    Recorder                    *shm    = nullptr;
    bool                         verbose = false;
    bool                         isNontrivial = false;
    std::set<std::string>        labels;
    std::ostringstream           trace;
    std::size_t                  traceLines = 0;

    // --- choices -------------------------------------------------------
    uint64_t below(uint64_t n);  // uniform in [0,n)
    // inclusive range
    uint64_t range(uint64_t lo, uint64_t hi)
    {
        return lo + below(hi - lo + 1);
    }
    bool chance(unsigned num, unsigned den)
    {
        // value 0 (what shrinking tends to) means false
        return below(den) >= den - num;
    }
    bool flip() { return below(2) == 1; }
    template <class C>
    const typename C::value_type &pick(const C &c)
    {
        auto it = c.begin();
        std::advance(it, below(c.size()));
        return *it;
    }
    template <class T>
    T oneof(std::initializer_list<T> c)
    {
        return *(c.begin() + below(c.size()));
    }
    unsigned weighted(std::initializer_list<unsigned> w);
    // 64-bit value biased to boundaries of the given bit width
    uint64_t edgy(unsigned bits);
    // size in [lo,hi] biased to small, with the bounds themselves likely
    uint64_t size(uint64_t lo, uint64_t hi);
    // n bytes from one choice (deterministic expansion)
    std::string bulk(std::size_t n);
    // n bytes, one choice each (for short strings)
    std::string bytes(std::size_t n);
    // text from an alphabet
    std::string text(std::size_t n, const std::string &alphabet);

    // --- classification and verdict -------------------------------------
    void label(std::string l)
    {
        for (auto &ch : l)
            if (ch == ' ')
                ch = '_';
        labels.insert(l);
    }
    void nontrivial() { isNontrivial = true; }
    template <class... A>
    void note(const A &...a)
    {
        if (traceLines++ < 400 || verbose) {
            (trace << ... << a);
            trace << "\n";
            if (verbose)
                flushTrace();
        }
    }
    void flushTrace();
    [[noreturn]] void fail(const std::string &m) { throw Fail{m}; }
    template <class... A>
    void check(bool c, const A &...a)
    {
        if (!c) {
            std::ostringstream os;
            (os << ... << a);
            throw Fail{os.str()};
        }
    }
    // like check, for observations that no timing of the harness can explain
    template <class... A>
    void proof(bool c, const A &...a)
    {
        check(c, "[certain] ", a...);
    }
    [[noreturn]] void discard() { throw Discard{}; }
};

using Fn = std::function<void(Ctx &)>;
struct Reg {
    Reg(const char *name, Fn fn, const char *rule);
};
// Define a target.  `rule` says what makes a case non-trivial.
#define PBT_TARGET(name, rule)                                                \
    static void      name(pbt::Ctx &c);                                       \
    static pbt::Reg  reg_##name(#name, name, rule);                           \
    static void      name(pbt::Ctx &c)

std::string hex(const std::string &s, std::size_t max = 64);
std::string show(const std::string &s, std::size_t max = 80);
double      realNow();  // monotonic real seconds, unaffected by virtual time

}
#endif
