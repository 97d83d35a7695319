// A reference implementation of the regular expression language of doc/manual (regexes), written independently of the
// code under test: an AST, a printer that produces the documented syntax, and a position-set matcher over UTF-16 units.

#ifndef REF_REGEX_H
#define REF_REGEX_H

#include <memory>
#include <set>
#include <map>
#include <string>
#include <vector>
#include <algorithm>
#include "vp.h"

namespace ref {

typedef std::vector<int> units;                         // UTF-16 code units

/// A set of code points as disjoint sorted inclusive ranges
struct cpset {
    std::vector<std::pair<int,int> > r;
    bool has(int c) const { for (auto& p : r) if (c >= p.first && c <= p.second) return true; return false; }
    void add(int a, int b) { r.push_back(std::make_pair(a, b)); norm(); }
    void norm() {
        std::sort(r.begin(), r.end());
        std::vector<std::pair<int,int> > o;
        for (auto& p : r) { if (!o.empty() && p.first <= o.back().second + 1) o.back().second = std::max(o.back().second, p.second); else o.push_back(p); }
        r.swap(o);
    }
    cpset inverse() const {
        cpset s; int next = 0;
        for (auto& p : r) { if (p.first > next) s.r.push_back(std::make_pair(next, p.first - 1)); next = p.second + 1; }
        if (next <= 0x10ffff) s.r.push_back(std::make_pair(next, 0x10ffff));
        return s;
    }
};

struct node;
typedef std::shared_ptr<node> re;

enum kind { k_empty, k_set, k_cat, k_alt, k_star, k_plus, k_opt, k_group };

struct node {
    kind k;
    cpset set;                  // k_set
    std::string text;           // k_set: how it is written
    std::vector<re> kids;
};

inline re mk(kind k) { re n(new node()); n->k = k; return n; }
inline re mk(kind k, re a) { re n = mk(k); n->kids.push_back(a); return n; }

typedef std::set<int> posset;

/// All the positions a match of n starting at one of from can end at
inline posset match(const re& n, const units& s, const posset& from) {
    posset out;
    switch (n->k) {
        case k_empty: return from;
        case k_set:
            for (int p : from) {
                if (p < (int) s.size() && n->set.has(s[p])) out.insert(p + 1);
                if (p + 1 < (int) s.size() && s[p] >= 0xd800 && s[p] < 0xdc00 && s[p+1] >= 0xdc00 && s[p+1] < 0xe000) {
                    int cp = 0x10000 + ((s[p] - 0xd800) << 10) + (s[p+1] - 0xdc00);
                    if (n->set.has(cp)) out.insert(p + 2);
                }
            }
            return out;
        case k_cat: { posset c = from; for (auto& k : n->kids) c = match(k, s, c); return c; }
        case k_alt: for (auto& k : n->kids) { posset c = match(k, s, from); out.insert(c.begin(), c.end()); } return out;
        case k_group: return match(n->kids[0], s, from);
        case k_opt: { out = match(n->kids[0], s, from); out.insert(from.begin(), from.end()); return out; }
        case k_star: case k_plus: {
            posset seen; posset cur = from;
            if (n->k == k_star) seen = from;
            for (;;) {
                posset nx = match(n->kids[0], s, cur); posset fresh;
                for (int p : nx) if (seen.insert(p).second) fresh.insert(p);
                if (fresh.empty()) break;
                cur = fresh;
            }
            return seen;
        }
    }
    return out;
}

inline bool matches(const re& n, const units& s) { posset f; f.insert(0); return match(n, s, f).count((int) s.size()) != 0; }

/// The concrete syntax. Alternations are only produced inside groups or at top level
inline std::string print(const re& n) {
    switch (n->k) {
        case k_empty: return "";
        case k_set: return n->text;
        case k_cat: { std::string r; for (auto& k : n->kids) r += print(k); return r; }
        case k_alt: { std::string r; for (size_t i = 0; i < n->kids.size(); ++i) r += (i ? "|" : "") + print(n->kids[i]); return r; }
        case k_group: return "(" + print(n->kids[0]) + ")";
        case k_opt: return print(n->kids[0]) + "?";
        case k_star: return print(n->kids[0]) + "*";
        case k_plus: return print(n->kids[0]) + "+";
    }
    return "";
}

/// Generates a unit string in the language of n (or close to it)
inline void sample(vp::Src& s, const re& n, units& out, int& fuel) {
    if (--fuel < 0) return;
    switch (n->k) {
        case k_empty: return;
        case k_set: {
            if (n->set.r.empty()) return;
            const std::pair<int,int>& p = n->set.r[s.below((uint32_t) n->set.r.size())];
            int cp;
            switch (s.below(4)) { case 0: cp = p.first; break; case 1: cp = p.second; break; default: cp = p.first + (int) s.below((uint32_t) std::min(p.second - p.first + 1, 1 << 21)); }
            if (cp >= 0x10000) { cp -= 0x10000; out.push_back(0xd800 + (cp >> 10)); out.push_back(0xdc00 + (cp & 0x3ff)); } else out.push_back(cp);
            return;
        }
        case k_cat: for (auto& k : n->kids) sample(s, k, out, fuel); return;
        case k_alt: sample(s, n->kids[s.below((uint32_t) n->kids.size())], out, fuel); return;
        case k_group: sample(s, n->kids[0], out, fuel); return;
        case k_opt: if (s.chance(1, 2)) sample(s, n->kids[0], out, fuel); return;
        case k_star: { int c = s.below(4); for (int i = 0; i < c; ++i) sample(s, n->kids[0], out, fuel); return; }
        case k_plus: { int c = 1 + s.below(3); for (int i = 0; i < c; ++i) sample(s, n->kids[0], out, fuel); return; }
    }
}

inline void push_cp(units& out, int cp) {
    if (cp >= 0x10000) { cp -= 0x10000; out.push_back(0xd800 + (cp >> 10)); out.push_back(0xdc00 + (cp & 0x3ff)); } else out.push_back(cp);
}

/// Collects the boundary code points of every set
inline void boundaries(const re& n, std::set<int>& b) {
    if (n->k == k_set) for (auto& p : n->set.r) {
        b.insert(p.first); b.insert(p.second);
        if (p.first > 0) b.insert(p.first - 1);
        if (p.second < 0x10ffff) b.insert(p.second + 1);
    }
    for (auto& k : n->kids) boundaries(k, b);
}

struct gen_options {
    bool wide;                  ///< Characters outside ascii
    bool astral;                ///< Characters outside the BMP
    bool escapes;
    bool empties;               ///< Empty alternatives and groups
    int alphabet;               ///< Number of letters used for plain characters
    gen_options() : wide(true), astral(false), escapes(true), empties(true), alphabet(3) { }
};

static inline std::string utf8(int cp) { std::wstring w; w += (wchar_t) cp; return vp::to_utf8(w); }

/// Text of a single character, as it can be written inside or outside a []
inline std::string char_text(vp::Src& s, const gen_options& o, int cp, bool inSet) {
    char b[32];
    bool special = cp < 128 && strchr("()[]{}|*+?.\\^-/\"'", cp) != NULL;
    bool control = cp < 32 || cp == 127;
    if (cp == 7 || cp == 0x1b || cp == 0xa || cp == 0xd || cp == 0xc || cp == 9) {
        if (s.chance(1, 2)) { const char* e = cp == 7 ? "a" : cp == 0x1b ? "e" : cp == 0xa ? "n" : cp == 0xd ? "r" : cp == 0xc ? "f" : "t"; return std::string("\\") + e; }
    }
    int style = o.escapes ? s.weighted({6, 1, 1, 1, 1}) : 0;
    if (control && style == 0) style = 1;
    // Escapes always use every digit, so that what follows cannot be read as part of them
    if (style == 1 && cp <= 0xffff) { snprintf(b, sizeof b, s.chance(1, 2) ? "\\u%04x" : "\\u%04X", cp); return b; }
    if (style == 2 && cp <= 0xff) { snprintf(b, sizeof b, s.chance(1, 2) ? "\\x%02x" : "\\x%02X", cp); return b; }
    if (style == 3 && cp <= 0xff) { snprintf(b, sizeof b, "\\%03o", cp); return b; }
    if (style == 4 && cp <= 0x3ffff) { snprintf(b, sizeof b, "\\o%06o", cp); return b; }
    if (control) { snprintf(b, sizeof b, "\\x%02x", cp); return b; }
    if (special) return std::string("\\") + (char) cp;
    return utf8(cp);
}

inline int gen_char(vp::Src& s, const gen_options& o) {
    int k = s.weighted({12, 2, o.wide ? 2 : 0, o.astral ? 3 : 0});
    if (k == 0) return 'a' + s.below(o.alphabet);
    if (k == 1) {
        static const int odd[] = { '0', '9', 'A', 'Z', 'z', ' ', '"', '.', '*', '\\', '/', '[', ']', '(', ')', '-', '^', '{', '}', '|', '+', '?', '\n', '\t', '\r', 7, 0x1b, 0xc, 1, '~', '\'', '_' };
        return odd[s.below(sizeof odd / sizeof *odd)];
    }
    if (k == 2) {
        static const int wide[] = { 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x101, 0x17f, 0x1ff, 0x200, 0x3b1, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfeff, 0xff00, 0xfffd };
        return wide[s.below(sizeof wide / sizeof *wide)];
    }
    static const int astral[] = { 0x10000, 0x10001, 0x103ff, 0x10400, 0x1f600, 0x1f64f, 0x1ffff, 0x20000, 0x2f800, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0x10428, 0x10c00, 0x1d400 };
    return astral[s.below(sizeof astral / sizeof *astral)];
}

inline re gen_atom(vp::Src& s, const gen_options& o) {
    re n = mk(k_set);
    int k = s.weighted({10, 4, 2, 1});
    if (k == 0) {
        int c = gen_char(s, o);
        n->set.add(c, c); n->text = char_text(s, o, c, false);
    } else if (k == 3) {
        n->set.add(0, 0x10ffff); n->text = ".";
    } else {
        bool neg = k == 2;
        n->text = neg ? "[^" : "[";
        int items = 1 + s.below(3);
        for (int i = 0; i < items; ++i) {
            int a = gen_char(s, o);
            std::string ta = char_text(s, o, a, true);
            // ^ only negates at the start, and is always written escaped here
            if (s.chance(1, 2)) {
                int b = s.chance(1, 2) ? a + (int) s.below(6) : gen_char(s, o);
                if (b > 0x10ffff) b = 0x10ffff;
                if (b < a) { std::swap(a, b); }
                if ((b >= 0xd800 && b < 0xe000)) b = 0xe000;
                ta = char_text(s, o, a, true);
                n->set.add(a, b); n->text += ta + "-" + char_text(s, o, b, true);
            } else { n->set.add(a, a); n->text += ta; }
        }
        n->text += "]";
        if (neg) n->set = n->set.inverse();
    }
    return n;
}

inline re gen_alt(vp::Src& s, const gen_options& o, int depth);

inline re gen_piece(vp::Src& s, const gen_options& o, int depth) {
    re a;
    if (depth > 0 && s.chance(1, 3)) a = mk(k_group, gen_alt(s, o, depth - 1)); else a = gen_atom(s, o);
    switch (s.weighted({6, 2, 2, 2})) {
        case 1: a = mk(k_star, a); break;
        case 2: a = mk(k_plus, a); break;
        case 3: a = mk(k_opt, a); break;
    }
    // A second quantifier is legal: it applies to the quantified item
    if (a->k != k_set && a->k != k_group && s.chance(1, 12)) a = mk(s.chance(1, 2) ? k_star : k_opt, a);
    return a;
}

inline re gen_cat(vp::Src& s, const gen_options& o, int depth) {
    re n = mk(k_cat);
    int c = o.empties && s.chance(1, 10) ? 0 : 1 + s.below(4);
    for (int i = 0; i < c; ++i) n->kids.push_back(gen_piece(s, o, depth));
    return n;
}

inline re gen_alt(vp::Src& s, const gen_options& o, int depth) {
    int c = s.weighted({6, 3, 1}) + 1;
    if (c == 1) return gen_cat(s, o, depth);
    re n = mk(k_alt);
    for (int i = 0; i < c; ++i) n->kids.push_back(gen_cat(s, o, depth));
    return n;
}

inline std::string show_units(const units& u) {
    std::wstring w; for (int c : u) w += (wchar_t) c;
    return vp::show(w);
}

/// Strings worth trying against n: samples of its language, mutations of them, and strings over its boundary characters
inline units gen_string(vp::Src& s, const re& n, const std::vector<int>& alphabet) {
    units u; int fuel = 60;
    int how = s.weighted({4, 4, 3});
    if (how < 2) sample(s, n, u, fuel);
    if (how == 1) {
        int edits = 1 + s.below(3);
        for (int i = 0; i < edits; ++i) {
            int c = alphabet[s.below((uint32_t) alphabet.size())];
            if (u.empty()) { push_cp(u, c); continue; }
            size_t p = s.below((uint32_t) u.size());
            switch (s.below(5)) {
                case 0: u.erase(u.begin() + p); break;
                case 1: { units t; push_cp(t, c); u.insert(u.begin() + p, t.begin(), t.end()); break; }
                case 2: { units t; push_cp(t, c); u.erase(u.begin() + p); u.insert(u.begin() + p, t.begin(), t.end()); break; }
                case 3: { units t(u.begin() + p, u.end()); u.insert(u.end(), t.begin(), t.end()); break; }
                case 4: { size_t q = s.below((uint32_t) u.size()); std::swap(u[p], u[q]); break; }
            }
        }
    }
    if (how == 2) { int l = s.below(6); for (int i = 0; i < l; ++i) push_cp(u, alphabet[s.below((uint32_t) alphabet.size())]); }
    return u;
}

}

#endif
