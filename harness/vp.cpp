#include "vp.h"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <unordered_set>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>

#if defined(__SANITIZE_ADDRESS__)
#define VP_ASAN 1
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=3500:handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=32";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }
#endif

using namespace std;

namespace vp {

uint64_t hash_bytes(const void* data, size_t len, uint64_t h) {
    const unsigned char* p = (const unsigned char*) data;
    for (size_t i = 0; i < len; ++i) { h ^= p[i]; h *= 1099511628211ULL; }
    return h;
}

static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ULL + b;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

string show(const string& s) {
    string r = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '\\') r += "\\\\";
        else if (c == '"') r += "\\\"";
        else if (c >= 32 && c < 127) r += (char) c;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r + "\"";
}

string show(const wstring& s) {
    string r = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned c = (unsigned) s[i];
        if (c == '\\') r += "\\\\";
        else if (c == '"') r += "\\\"";
        else if (c >= 32 && c < 127) r += (char) c;
        else { char b[16]; snprintf(b, sizeof b, "\\u{%x}", c); r += b; }
    }
    return r + "\"";
}

string show(const vector<int>& s) {
    ostringstream o; o << "[";
    for (size_t i = 0; i < s.size(); ++i) { if (i) o << " "; o << s[i]; }
    o << "]";
    return o.str();
}

string to_utf8(const wstring& s) {
    string r;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned c = (unsigned) s[i];
        if (c < 0x80) r += (char) c;
        else if (c < 0x800) { r += (char)(0xc0 | (c >> 6)); r += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += (char)(0xe0 | (c >> 12)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
        else { r += (char)(0xf0 | (c >> 18)); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
    }
    return r;
}

wstring widen(const string& s) { wstring r; for (size_t i = 0; i < s.size(); ++i) r += (wchar_t)(unsigned char) s[i]; return r; }

static const size_t note_max = 1 << 16;
static const size_t msg_max = 1 << 13;

struct Slot {
    volatile int32_t facet;
    volatile int32_t idx;
    volatile int32_t state;             // 0 idle, 1 running, 2 failed (message filled in), 3 passed, 4 discarded
    volatile uint32_t tape_len;
    volatile uint64_t evals, discards;
    uint32_t tape[Src::max_tape];
    char note[note_max];
    char msg[msg_max];
};

struct Shared { atomic<uint64_t> next; atomic<int> stop; };

static void* shm(size_t n) {
    void* p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return p;
}

static double now() { return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count(); }

static void set_cpu_timer(int seconds) {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, NULL);
}

static void set_msg(Slot* slot, const string& m) {
    size_t n = min(m.size(), msg_max - 1);
    memcpy(slot->msg, m.data(), n); slot->msg[n] = 0;
}

/// Runs a single case. Returns the state
static int run_case(Slot* slot, const Facet& f, Src& src, int size, Ctx** ctxOut, Ctx& ctx) {
    slot->msg[0] = 0;
    slot->state = 1;
    set_cpu_timer(f.cpu_limit);
    int st = 3;
    try {
        f.fn(ctx);
    } catch (Fail& e) {
        set_msg(slot, e.msg); st = 2;
    } catch (Discard&) {
        st = 4;
    } catch (exception& e) {
        set_msg(slot, string("uncaught exception: ") + e.what()); st = 2;
    } catch (...) {
        set_msg(slot, "uncaught exception of unknown type"); st = 2;
    }
    set_cpu_timer(0);
    slot->state = st;
    return st;
}

static void limit_resources() {
    struct rlimit r;
    r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r);
#ifndef VP_ASAN
    r.rlim_cur = r.rlim_max = 3500ULL << 20; setrlimit(RLIMIT_AS, &r);
#endif
    r.rlim_cur = r.rlim_max = 256ULL << 20; setrlimit(RLIMIT_FSIZE, &r);
}

static string describe_status(int status) {
    if (WIFSIGNALED(status)) {
        int sig = WTERMSIG(status);
        if (sig == SIGPROF) return "did not finish within its CPU limit";
        return VP_STR("killed by signal " << sig << " (" << strsignal(sig) << ")");
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 99) return "sanitizer report";
    return VP_STR("exited with status " << WEXITSTATUS(status));
}

static string errfile;

static string sanitizer_summary() {
    ifstream in(errfile.c_str());
    string line, res;
    int n = 0;
    while (getline(in, line)) {
        if (line.find("ERROR:") != string::npos || line.find("SUMMARY:") != string::npos || line.find("runtime error:") != string::npos
            || line.find("Assertion") != string::npos || line.find("assertion") != string::npos || line.find("terminate called") != string::npos
            || (line.size() > 5 && line.find("    #") == 0 && n < 14)) { res += line.substr(0, 300) + "\n"; if (++n > 24) break; }
    }
    return res;
}

/// Runs one tape in a child process. Returns true if it failed, and fills in msg
static bool run_tape(Slot* slot, const Facet& f, const vector<uint32_t>& tape, int size, string& msg, int cpu = 0) {
    fflush(NULL);
    slot->state = 1; slot->msg[0] = 0; slot->note[0] = 0;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
        limit_resources();
        Src src(&tape, slot->tape, &slot->tape_len);
        Ctx ctx(src, size, slot->note, note_max);
        Facet g = f; if (cpu) g.cpu_limit = cpu;
        run_case(slot, g, src, size, NULL, ctx);
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0) { }
    if (slot->state == 2) { msg = slot->msg; return true; }
    if (slot->state == 1) { msg = describe_status(status) + "\n" + sanitizer_summary(); return true; }
    return false;
}

static vector<uint32_t> used_tape(Slot* slot) { return vector<uint32_t>(slot->tape, slot->tape + slot->tape_len); }

static vector<uint32_t> shrink(Slot* slot, const Facet& f, vector<uint32_t> tape, int size, double budget) {
    double end = now() + budget;
    string msg;
    auto attempt = [&](const vector<uint32_t>& cand) -> bool {
        if (now() > end) return false;
        if (cand == tape) return false;
        if (!run_tape(slot, f, cand, size, msg)) return false;
        vector<uint32_t> used = used_tape(slot);
        // Prefer what was actually consumed when it is no longer than the candidate
        tape = used.size() <= cand.size() ? used : cand;
        return true;
    };
    bool changed = true;
    while (changed && now() < end) {
        changed = false;
        // Delete blocks
        for (size_t k = max<size_t>(1, min<size_t>(tape.size() / 2, 256)); k >= 1; k /= 2) {
            for (size_t i = tape.size(); i-- > 0 && now() < end; ) {
                if (i + k > tape.size()) continue;
                vector<uint32_t> c(tape); c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) { changed = true; if (i > tape.size()) i = tape.size(); }
                else {
                    // Delete together with decrementing an earlier count
                    if (k <= 8 && i > 0 && c[i-1] > 0) { --c[i-1]; if (attempt(c)) { changed = true; if (i > tape.size()) i = tape.size(); } }
                }
            }
            if (k == 1) break;
        }
        // Zero blocks
        for (size_t k = 8; k >= 1; k /= 2) {
            for (size_t i = 0; i + k <= tape.size() && now() < end; i += k) {
                vector<uint32_t> c(tape); bool any = false;
                for (size_t j = i; j < i + k; ++j) { if (c[j]) any = true; c[j] = 0; }
                if (any && attempt(c)) changed = true;
            }
            if (k == 1) break;
        }
        // Reduce values
        for (size_t i = 0; i < tape.size() && now() < end; ++i) {
            uint32_t lo = 0;
            while (i < tape.size() && tape[i] > lo && now() < end) {
                uint32_t mid = lo + (tape[i] - lo) / 2;
                vector<uint32_t> c(tape); c[i] = mid;
                if (attempt(c)) { changed = true; } else { lo = mid + 1; }
            }
        }
    }
    return tape;
}

static string json_str(const string& s) {
    string r = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char) c;
    }
    return r + "\"";
}

struct Stats {
    uint64_t evals, nontrivial, discards;
    unordered_set<uint64_t> distinct;
    map<string, uint64_t> labels;
    vector<string> samples;
    Stats() : evals(0), nontrivial(0), discards(0) { }
};

static void write_stats(const string& file, const vector<Stats>& st) {
    ofstream o(file.c_str(), ios::binary);
    for (size_t f = 0; f < st.size(); ++f) {
        o << "F " << f << " " << st[f].evals << " " << st[f].nontrivial << " " << st[f].discards << "\n";
        for (uint64_t h : st[f].distinct) o << "D " << h << "\n";
        for (auto& l : st[f].labels) o << "L " << l.second << " " << l.first << "\n";
        for (auto& s : st[f].samples) o << "S " << s.size() << " " << s << "\n";
    }
    o << "E\n";
}

static void read_stats(const string& file, vector<Stats>& st) {
    ifstream in(file.c_str(), ios::binary);
    string tag; size_t f = 0;
    while (in >> tag) {
        if (tag == "F") { uint64_t a, b, c; in >> f >> a >> b >> c; st[f].evals += a; st[f].nontrivial += b; st[f].discards += c; }
        else if (tag == "D") { uint64_t h; in >> h; st[f].distinct.insert(h); }
        else if (tag == "L") { uint64_t n; string l; in >> n; in.get(); getline(in, l); st[f].labels[l] += n; }
        else if (tag == "S") { size_t n; in >> n; in.get(); string s(n, 0); in.read(&s[0], n); st[f].samples.push_back(s); }
        else break;
    }
}

static int size_for(uint64_t idx, uint64_t n) { return (int) min<uint64_t>(100, 5 + (idx * 120) / max<uint64_t>(1, n)); }

void (*prepare)(const string&) = NULL;

int run_main(int argc, char** argv, const string& property, const vector<Facet>& facets, const vector<string>& assumptions) {
    string tier = "quick", evidence, replayDir = ".", replayFile, only;
    uint64_t seed = 1; int workers = 8; double cap = 0; double scale = 1;
    for (int i = 1; i < argc; ++i) {
        string a = argv[i];
        auto val = [&]() -> string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--tier") tier = val(); else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--evidence") evidence = val(); else if (a == "--replay-dir") replayDir = val();
        else if (a == "--replay") replayFile = val(); else if (a == "--workers") workers = atoi(val().c_str());
        else if (a == "--cap") cap = atof(val().c_str()); else if (a == "--only") only = val();
        else if (a == "--scale") scale = atof(val().c_str());
    }
    char tmpl[] = "/tmp/vp.XXXXXX";
    char* tmpd = mkdtemp(tmpl);
    if (!tmpd) { perror("mkdtemp"); return 3; }
    string tmp = tmpd;
    errfile = tmp + "/err";
    struct Cleanup { string d; ~Cleanup() { string c = "rm -rf -- '" + d + "'"; if (d.find("/tmp/vp.") == 0) { int r = system(c.c_str()); (void) r; } } } cleanup{tmp};

    if (prepare) prepare(tmp);

    if (!replayFile.empty()) {
        ifstream in(replayFile.c_str()); string line, facet; int size = 0; vector<uint32_t> tape;
        while (getline(in, line)) {
            istringstream ls(line); string k; ls >> k;
            if (k == "facet:") ls >> facet;
            else if (k == "size:") ls >> size;
            else if (k == "tape:") { uint32_t v; while (ls >> v) tape.push_back(v); }
        }
        Slot* slot = (Slot*) shm(sizeof(Slot));
        for (auto& f : facets) if (f.name == facet) {
            string msg;
            bool failed = run_tape(slot, f, tape, size, msg);
            cout << slot->note << (failed ? "FAILED: " : "passed") << msg << endl;
            return failed ? 1 : 0;
        }
        cerr << "no facet " << facet << endl;
        return 3;
    }

    double start = now();
    if (cap <= 0) cap = tier == "quick" ? 400 : 780;
    // The schedule interleaves the facets in proportion
    vector<int> counts;
    struct Job { double key; int f, i; };
    vector<Job> jobs;
    for (size_t f = 0; f < facets.size(); ++f) {
        int n = (int)((tier == "quick" ? facets[f].quick : facets[f].thorough) * scale);
        if (!only.empty() && facets[f].name.find(only) == string::npos) n = 0;
        counts.push_back(n);
        for (int i = 0; i < n; ++i) jobs.push_back(Job{(i + 0.5) / n, (int) f, i});
    }
    stable_sort(jobs.begin(), jobs.end(), [](const Job& a, const Job& b) { return a.key < b.key; });

    Shared* sh = new (shm(sizeof(Shared))) Shared();
    sh->next = 0; sh->stop = 0;
    vector<Slot*> slots;
    for (int w = 0; w < workers; ++w) slots.push_back((Slot*) shm(sizeof(Slot)));
    Slot* mine = (Slot*) shm(sizeof(Slot));

    struct Failure { int f, i; vector<uint32_t> tape; int size; string msg; };
    vector<Failure> failures;
    map<pid_t, int> pids;
    int gen = 0;
    vector<string> statFiles;
    bool capped = false;

    auto launch = [&](int w) {
        string file = VP_STR(tmp << "/stats." << gen++);
        statFiles.push_back(file);
        fflush(NULL);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(3); }
        if (pid == 0) {
            int fd = open(VP_STR(tmp << "/out." << w).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
            limit_resources();
            Slot* slot = slots[w];
            slot->state = 0;
            vector<Stats> st(facets.size());
            for (;;) {
                if (sh->stop) break;
                if (now() - start > cap) { break; }
                uint64_t j = sh->next++;
                if (j >= jobs.size()) break;
                const Job& job = jobs[j];
                const Facet& f = facets[job.f];
                slot->facet = job.f; slot->idx = job.i;
                uint64_t cs = mix(mix(mix(seed, hash_str(property)), hash_str(f.name)), job.i);
                Src src(cs, slot->tape, &slot->tape_len);
                int size = size_for(job.i, counts[job.f]);
                Ctx ctx(src, size, slot->note, note_max);
                int r = run_case(slot, f, src, size, NULL, ctx);
                if (r == 2) { write_stats(file, st); _exit(1); }
                Stats& s = st[job.f];
                if (r == 4) { ++s.discards; continue; }
                ++s.evals;
                for (auto& l : ctx.m_Labels) s.labels[l.first] += l.second;
                if (ctx.m_NonTrivial) {
                    ++s.nontrivial;
                    s.distinct.insert(ctx.m_Hash);
                    if (s.samples.size() < 2 && (job.i > counts[job.f] / 4)) { string t = slot->note; if (t.size() > 900) t = t.substr(0, 900) + "..."; s.samples.push_back(t); }
                }
                slot->state = 0;
            }
            write_stats(file, st);
            _exit(0);
        }
        pids[pid] = w;
    };
    for (int w = 0; w < workers; ++w) launch(w);

    int unreproduced = 0;
    vector<Failure> confirmed;
    while (!pids.empty()) {
        int status;
        pid_t p = waitpid(-1, &status, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        if (!pids.count(p)) continue;
        int w = pids[p]; pids.erase(p);
        Slot* slot = slots[w];
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
        if (slot->state == 0) { cerr << "worker died outside a case: " << describe_status(status) << endl; launch(w); if (gen > 2000) return 3; continue; }
        Failure fl; fl.f = slot->facet; fl.i = slot->idx; fl.size = size_for(fl.i, counts[fl.f]);
        fl.tape.assign(slot->tape, slot->tape + slot->tape_len);
        fl.msg = slot->state == 2 ? string(slot->msg) : describe_status(status);
        // Reproduce it three times in a fresh process before believing it
        bool solid = true; string msg;
        for (int k = 0; k < 3 && solid; ++k) solid = run_tape(mine, facets[fl.f], fl.tape, fl.size, msg);
        if (solid) { fl.msg = msg; sh->stop = 1; confirmed.push_back(fl); }
        else {
            ++unreproduced;
            cerr << "not reproduced: " << facets[fl.f].name << " case " << fl.i << ": " << fl.msg << endl;
            if (unreproduced < 50) launch(w);
        }
    }
    if (now() - start > cap) capped = true;

    vector<Stats> total(facets.size());
    for (auto& f : statFiles) read_stats(f, total);

    int violations = 0;
    string violationLines;
    if (!confirmed.empty()) {
        // Shrink the first by schedule order
        Failure fl = confirmed[0];
        for (auto& c : confirmed) if (c.tape.size() < fl.tape.size()) fl = c;
        const Facet& f = facets[fl.f];
        vector<uint32_t> small = shrink(mine, f, fl.tape, fl.size, tier == "quick" ? 60 : 180);
        string msg; bool solid = true;
        for (int k = 0; k < 3 && solid; ++k) solid = run_tape(mine, f, small, fl.size, msg);
        if (!solid) { small = fl.tape; run_tape(mine, f, small, fl.size, msg); }
        string path = VP_STR(replayDir << "/" << property << "-" << f.name << ".replay");
        ofstream o(path.c_str());
        o << "property: " << property << "\nfacet: " << f.name << "\nsize: " << fl.size << "\nseed: " << seed << "\ncase: " << fl.i << "\ntape:";
        for (uint32_t v : small) o << " " << v;
        o << "\n--- case\n" << mine->note << "\n--- failure\n" << msg << "\n--- originally\n" << fl.msg << "\n";
        o.close();
        ++violations;
        cout << "case:\n" << mine->note << "\nfailure: " << msg << "\n";
        cout << "VIOLATION property=" << property << " replay=" << path << endl;
    }

    uint64_t evals = 0, distinct = 0, discards = 0; string rule; vector<string> samples;
    ostringstream fj;
    for (size_t f = 0; f < facets.size(); ++f) {
        evals += total[f].evals; distinct += total[f].distinct.size(); discards += total[f].discards;
        rule += (f ? " | " : "") + facets[f].name + ": " + facets[f].rule;
        for (size_t i = 0; i < total[f].samples.size() && i < 3; ++i) samples.push_back("[" + facets[f].name + "] " + total[f].samples[i]);
        fj << (f ? "," : "") << "\n   " << json_str(facets[f].name) << ": {\"evaluations\": " << total[f].evals << ", \"nontrivial\": " << total[f].nontrivial
           << ", \"distinct_nontrivial\": " << total[f].distinct.size() << ", \"discarded\": " << total[f].discards << ", \"scheduled\": " << counts[f] << ", \"classes\": {";
        bool first = true;
        for (auto& l : total[f].labels) { fj << (first ? "" : ", ") << json_str(l.first) << ": " << l.second; first = false; }
        fj << "}}";
    }
    if (!evidence.empty()) {
        ofstream o(evidence.c_str());
        o << "{\n \"property\": " << json_str(property) << ",\n \"tier\": " << json_str(tier) << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
          << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct << ",\n  \"discarded\": " << discards << ",\n  \"unreproduced\": " << unreproduced
          << ",\n  \"stopped_by_time_cap\": " << (capped ? "true" : "false") << ",\n  \"rule\": " << json_str(rule) << ",\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << "\n   " << json_str(samples[i]);
        o << "\n  ],\n  \"facets\": {" << fj.str() << "\n  }\n },\n \"assumptions\": [";
        for (size_t i = 0; i < assumptions.size(); ++i) o << (i ? ", " : "") << json_str(assumptions[i]);
        o << "],\n \"wall_s\": " << (now() - start) << ",\n \"violations\": " << violations << "\n}\n";
    }
    cout << property << " " << tier << " seed " << seed << ": " << evals << " cases, " << distinct << " distinct non-trivial, " << discards << " discarded, "
         << (now() - start) << " s" << (capped ? " (time cap)" : "") << endl;
    if (getenv("VP_VERBOSE")) cout << fj.str() << endl;
    return violations ? 1 : 0;
}

}
