// vp.h - a small property-based testing engine
//
// Every random decision a generator makes is taken from a tape of integers (vp::Src). A case is therefore a pure
// function of its tape: shrinking edits the tape, and a replay file stores it. Cases run in forked workers, so a crash,
// a sanitizer report, an uncaught exception or a runaway loop in the code under test is a failure of that one case.

#ifndef VP_H
#define VP_H

#include <cstdint>
#include <cstddef>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <functional>

namespace vp {

struct Fail { std::string msg; };
struct Discard { };

uint64_t hash_bytes(const void* data, size_t len, uint64_t h = 1469598103934665603ULL);
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

/// The tape of choices
class Src {
public:
    static const size_t max_tape = 1u << 18;

    Src(uint64_t seed, uint32_t* tape, volatile uint32_t* len) : m_Rng(seed), m_Tape(tape), m_Len(len), m_Replay(NULL), m_Pos(0) { *m_Len = 0; }
    Src(const std::vector<uint32_t>* replay, uint32_t* tape, volatile uint32_t* len) : m_Rng(0), m_Tape(tape), m_Len(len), m_Replay(replay), m_Pos(0) { *m_Len = 0; }

    /// Value in [0, n)
    uint32_t below(uint32_t n) {
        if (n <= 1) return 0;
        uint32_t v;
        if (m_Replay) {
            v = m_Pos < m_Replay->size() ? (*m_Replay)[m_Pos] : 0;
            if (v >= n) v = n - 1;
        } else {
            v = (uint32_t)((((next() >> 32)) * (uint64_t) n) >> 32);
        }
        ++m_Pos;
        if (*m_Len >= max_tape) throw Discard();
        m_Tape[*m_Len] = v;
        *m_Len = *m_Len + 1;
        return v;
    }

    /// Value in [lo, hi]
    int range(int lo, int hi) { return lo + (int) below((uint32_t)(hi - lo + 1)); }
    /// True with probability num/den (0 on the tape is false)
    bool chance(int num, int den) { return (int) below(den) >= den - num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below((uint32_t) v.size())]; }
    /// Index chosen with the given weights (first is simplest)
    int weighted(const std::vector<int>& w) {
        int total = 0; for (size_t i = 0; i < w.size(); ++i) total += w[i];
        int v = (int) below(total);
        for (size_t i = 0; i < w.size(); ++i) { if (v < w[i]) return (int) i; v -= w[i]; }
        return 0;
    }

private:
    uint64_t next() {
        uint64_t z = (m_Rng += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }

    uint64_t m_Rng;
    uint32_t* m_Tape;
    volatile uint32_t* m_Len;
    const std::vector<uint32_t>* m_Replay;
    size_t m_Pos;
};

/// One case being run
class Ctx {
public:
    Src& s;
    int size;                           ///< Grows from 0 to 100 over a run

    Ctx(Src& src, int sz, char* noteBuf, size_t noteMax) : s(src), size(sz), m_NonTrivial(false), m_Hash(0), m_Note(noteBuf), m_NoteMax(noteMax), m_NoteLen(0) { if (m_Note) m_Note[0] = 0; }

    /// Describes the case in human readable form (goes to the replay file and the samples)
    void note(const std::string& text) {
        if (!m_Note) return;
        size_t len = text.size();
        if (m_NoteLen + len + 2 > m_NoteMax) len = m_NoteMax > m_NoteLen + 2 ? m_NoteMax - m_NoteLen - 2 : 0;
        memcpy(m_Note + m_NoteLen, text.data(), len);
        m_NoteLen += len;
        m_Note[m_NoteLen] = '\n';
        m_Note[m_NoteLen+1] = 0;
        if (len) ++m_NoteLen;
    }
    void label(const std::string& l, int n = 1) { m_Labels[l] += n; }
    /// Marks the case as non-trivial; key identifies it for the distinct count
    void nontrivial(const std::string& key) { m_NonTrivial = true; m_Hash = hash_str(key); }

    void fail(const std::string& msg) { throw Fail{msg}; }
    void check(bool ok, const std::string& msg) { if (!ok) throw Fail{msg}; }

    bool m_NonTrivial;
    uint64_t m_Hash;
    std::map<std::string, int> m_Labels;

private:
    char* m_Note; size_t m_NoteMax, m_NoteLen;
};

struct Facet {
    std::string name;
    void (*fn)(Ctx&);
    int quick;                          ///< Number of cases in the quick tier
    int thorough;                       ///< Number of cases in the thorough tier
    std::string rule;                   ///< How cases are made, and what makes one non-trivial
    int cpu_limit;                      ///< CPU seconds after which a case counts as running away
};

/// Runs the facets of one property; the command line comes from tools/run.py
int run_main(int argc, char** argv, const std::string& property, const std::vector<Facet>& facets, const std::vector<std::string>& assumptions);

/// Called once with the run's scratch directory, which is removed at the end, before any case runs
extern void (*prepare)(const std::string& dir);

// Text helpers
std::string show(const std::wstring& s);
std::string show(const std::string& s);
std::string show(const std::vector<int>& s);
std::string to_utf8(const std::wstring& s);
std::wstring widen(const std::string& s);

}

#define VP_STR(x) ([&]() -> std::string { std::ostringstream vp_o; vp_o << x; return vp_o.str(); }())
#define VP_CHECK(cond, x) do { if (!(cond)) throw vp::Fail{VP_STR(x)}; } while (0)

#endif
