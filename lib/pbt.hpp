#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
/*
 * A small property-based testing engine (choice sequences, as in Hypothesis):
 *   - every random decision of a case is one recorded integer choice; a case is
 *     a pure function of its choices, and the choices of case i are a pure
 *     function of (seed, suite name, i);
 *   - cases run in forked worker processes, so that a crash, an abort or a hang
 *     of the code under test is a result like any other;
 *   - a failure is confirmed by re-running it in fresh processes, then shrunk by
 *     deleting and reducing choices, and saved as a replay file.
 */
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <string>
#include <vector>
#include <algorithm>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>

namespace pbt {

struct Fail : public std::runtime_error {
    explicit Fail(const std::string& m) : std::runtime_error(m) {}
};
struct Discard {};

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return mix(h);
}

static const size_t MAX_CHOICES = 1 << 16;

/** Where the choices of the running case are recorded (shared memory in workers). */
struct ChoiceLog {
    volatile uint64_t n;
    uint64_t v[MAX_CHOICES];
};

class Gen {
    ChoiceLog* log_;
    bool replay_;
    std::vector<uint64_t> in_;
    size_t pos_ = 0;
    uint64_t state_;
public:
    Gen(ChoiceLog* log, uint64_t seed) : log_(log), replay_(false), state_(seed) { log_->n = 0; }
    Gen(ChoiceLog* log, const std::vector<uint64_t>& in) : log_(log), replay_(true), in_(in), state_(0) { log_->n = 0; }
    /** uniform in [0, n) ; shrinks to 0 */
    uint64_t below(uint64_t n) {
        if (n == 0) n = 1;
        uint64_t v;
        if (replay_) {
            v = pos_ < in_.size() ? in_[pos_] % n : 0;
        } else {
            state_ = mix(state_ + 0x632be59bd9b4e019ULL);
            v = (n == 1) ? 0 : (uint64_t) (((unsigned __int128) state_ * n) >> 64);
        }
        pos_++;
        if (log_->n >= MAX_CHOICES) throw Discard();
        log_->v[log_->n] = v;
        log_->n = log_->n + 1;
        return v;
    }
    /** uniform in [lo, hi] ; shrinks to lo */
    long range(long lo, long hi) { return lo + (long) below((uint64_t) (hi - lo + 1)); }
    size_t size(size_t lo, size_t hi) { return (size_t) range((long) lo, (long) hi); }
    bool flip() { return below(2) == 1; }
    /** true with pct % ; shrinks to false */
    bool chance(int pct) { return (int) below(100) >= 100 - pct; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    /** an index with the given relative weights (index 0 is the simplest) */
    size_t weighted(const std::vector<size_t>& w) {
        size_t t = 0;
        for (size_t v : w) t += v;
        size_t r = below(t);
        for (size_t i = 0; i < w.size(); ++i) { if (r < w[i]) return i; r -= w[i]; }
        return 0;
    }
    /** a real in [lo, hi], on a grid with a small irrational-ish offset so that coincidences are rare */
    double real(double lo, double hi) {
        uint64_t k = below(4096);
        double t = (k + 0.318309886) / 4097.0;
        return lo + (hi - lo) * t;
    }
    size_t used() const { return pos_; }
};

class Case {
public:
    Gen& g;
    bool nontriv = false;
    std::string keyText;
    std::string sampleText;
    std::vector<std::string> labels;
    unsigned long evals = 0;   // individual oracle comparisons
    bool verbose = false;
    std::string scratch;       // a private, existing, empty-at-start folder
    explicit Case(Gen& g_) : g(g_) {}
    void label(const std::string& s) { labels.push_back(s); }
    void labelIf(bool b, const std::string& s) { if (b) labels.push_back(s); }
    void nontrivial(bool b = true) { if (b) nontriv = true; }
    void key(const std::string& s) { keyText = s; }
    void sample(const std::string& s) {
        sampleText = s;
        if (shared) snprintf(shared, 4096, "%s", s.c_str());
    }
    char* shared = nullptr;    // the description survives a crash of the process
    void check(bool ok, const std::string& m) { ++evals; if (!ok) throw Fail(m); }
    template<class F> void checkf(bool ok, F f) { ++evals; if (!ok) throw Fail(f()); }
    [[noreturn]] void fail(const std::string& m) { throw Fail(m); }
    [[noreturn]] void discard() { throw Discard(); }
};

typedef void (*CaseFn)(Case&);

struct Suite {
    std::string name;
    CaseFn fn;
    long quick;       // number of cases
    long thorough;
    double timeout;   // per case, wall seconds (a hang is a failure only when it repeats)
    bool racy;        // depends on thread schedules: a failure counts without an exact replay
    std::string rule; // what is generated and what makes a case non-trivial
    bool single;      // run with one worker only (the case uses several threads itself)
};

/** A fixed input that shows a recorded finding; reports whether it still fails. */
struct Probe {
    std::string id;
    CaseFn fn;
};

inline double now() {
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

inline std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

inline void rmTree(const std::string& d) {
    DIR* dir = opendir(d.c_str());
    if (dir) {
        while (dirent* e = readdir(dir)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            std::string p = d + "/" + n;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(p);
            else unlink(p.c_str());
        }
        closedir(dir);
    }
    rmdir(d.c_str());
}

struct Slot {  // shared between the parent and one worker
    volatile double started;   // 0 when idle
    volatile long index;
    volatile int failed;       // 1: failure recorded
    char message[8192];
    char sample[4096];
    ChoiceLog log;
};

struct Outcome {
    enum Kind { OK, DISCARD, FAIL, CRASH, HANG } kind = OK;
    std::string message;
    std::vector<uint64_t> choices;
    long evals = 0;
};

class Runner {
public:
    std::string scratchRoot;
    bool verbose = false;
    uint64_t seed = 1;
    bool survey = false;
    std::map<std::string, std::pair<long, std::vector<uint64_t>>> kinds;
    std::string keepCategory;

    static std::string category(const std::string& m) {
        std::string r;
        for (char ch : m) { if (isdigit(ch)) { if (r.empty() || r.back() != '#') r += '#'; } else if (ch != '\n') r += ch; }
        for (const char* cut : {" for ", " at x=", " is ", "; case:", "{"}) { size_t p = r.find(cut); if (p != std::string::npos && p > 20) r = r.substr(0, p); }
        return r.substr(0, 160);
    }

    static std::string describe(const std::exception& e) { return e.what(); }

    /** runs the case in this process; returns kind OK/DISCARD/FAIL and a message */
    Outcome runHere(const Suite& s, Gen& g, Case& c) {
        Outcome o;
        try {
            s.fn(c);
        } catch (const Discard&) {
            o.kind = Outcome::DISCARD;
        } catch (const Fail& f) {
            o.kind = Outcome::FAIL;
            o.message = f.what();
        } catch (const std::exception& e) {
            o.kind = Outcome::FAIL;
            o.message = std::string("unexpected exception: ") + e.what();
        } catch (...) {
            o.kind = Outcome::FAIL;
            o.message = "unexpected exception of unknown type";
        }
        return o;
    }

    /** what the code under test prints to the error stream goes to a file */
    static void quiet(const std::string& path) {
        int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
    }

    std::string newScratch(const std::string& tag) {
        std::string d = scratchRoot + "/" + tag;
        rmTree(d);
        mkdir(d.c_str(), 0755);
        return d;
    }

    /** runs given choices in a fresh child */
    Outcome runIsolated(const Suite& s, const std::vector<uint64_t>& choices, bool verb = false, double tmo = -1) {
        Slot* slot = newSlot();
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0);
            std::string sc = newScratch("iso" + std::to_string(getpid()));
            if (chdir(sc.c_str()) != 0) _exit(98);
            if (!verb) quiet(sc + ".err");
            Gen g(&slot->log, choices);
            Case c(g);
            c.verbose = verb;
            c.scratch = sc;
            slot->sample[0] = 0;
            c.shared = slot->sample;
            Outcome o = runHere(s, g, c);
            if (verb) {
                if (!c.sampleText.empty()) std::cout << "CASE: " << c.sampleText << std::endl;
                std::cout << "LABELS:"; for (auto& l : c.labels) std::cout << " " << l; std::cout << std::endl;
            }
            slot->failed = (int) o.kind;
            snprintf(slot->message, sizeof slot->message, "%s", o.message.c_str());
            if (chdir("/") != 0) _exit(98);
            rmTree(sc);
            fflush(stdout);
            _exit(0);
        }
        if (tmo < 0) tmo = s.timeout;
        double t0 = now();
        int st = 0;
        Outcome o;
        for (;;) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            if (now() - t0 > tmo) {
                kill(-pid, SIGKILL); kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                o.kind = Outcome::HANG;
                o.message = "did not finish within " + std::to_string((long) tmo) + " s";
                break;
            }
            usleep(now() - t0 < 0.05 ? 500 : 5000);
        }
        if (o.kind != Outcome::HANG) {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                o.kind = (Outcome::Kind) slot->failed;
                o.message = slot->message;
            } else {
                o.kind = Outcome::CRASH;
                o.message = WIFSIGNALED(st) ? std::string("process ended by signal ") + strsignal(WTERMSIG(st))
                                            : "process exited with status " + std::to_string(WEXITSTATUS(st));
                std::ifstream err(scratchRoot + "/iso" + std::to_string(pid) + ".err");
                std::string et((std::istreambuf_iterator<char>(err)), std::istreambuf_iterator<char>());
                size_t ep = et.find("Assertion");
                if (ep == std::string::npos) ep = et.find("ERROR: ");
                if (ep == std::string::npos) ep = et.find("runtime error");
                if (ep == std::string::npos) ep = et.find("terminate called");
                if (ep != std::string::npos) o.message += "; " + et.substr(ep, 500);
                if (slot->sample[0]) o.message += std::string("; case: ") + slot->sample;
            }
        }
        kill(-pid, SIGKILL);
        unlink((scratchRoot + "/iso" + std::to_string(pid) + ".err").c_str());
        rmTree(scratchRoot + "/iso" + std::to_string(pid));
        size_t n = slot->log.n;
        o.choices.assign(slot->log.v, slot->log.v + n);
        freeSlot(slot);
        return o;
    }

    static bool bad(const Outcome& o) { return o.kind == Outcome::FAIL || o.kind == Outcome::CRASH || o.kind == Outcome::HANG; }

    static Slot* newSlot() {
        void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); exit(2); }
        return (Slot*) p;
    }
    static void freeSlot(Slot* s) { munmap(s, sizeof(Slot)); }

    struct Summary {
        long cases = 0, discarded = 0, nontrivial = 0, evals = 0, skipped = 0;
        std::map<std::string, long> labels;
        std::vector<std::string> samples;
        std::unordered_set<uint64_t> distinct;
        bool cutByBudget = false;
        bool violated = false;
        std::string message;
        std::string kind;
        std::vector<uint64_t> choices;
        long unconfirmed = 0;
        std::string unconfirmedMsg;
        double wall = 0;
    };

    Summary run(const Suite& s, long cases, int workers, double budget) {
        Summary sum;
        double t0 = now();
        if (s.single) workers = 1;
        if ((long) workers > cases) workers = (int) std::max(1L, cases);
        std::vector<Slot*> slots(workers);
        std::vector<pid_t> pids(workers, -1);
        std::vector<int> restarts(workers, 0);
        std::vector<std::string> outFiles(workers);
        std::vector<long> next(workers);
        for (int w = 0; w < workers; ++w) {
            slots[w] = newSlot();
            outFiles[w] = scratchRoot + "/out." + s.name + "." + std::to_string(w);
            unlink(outFiles[w].c_str());
            next[w] = w;
        }
        uint64_t base = mix(seed ^ hashStr(s.name));
        auto startWorker = [&](int w) {
            fflush(stdout); fflush(stderr);
            slots[w]->started = 0;
            slots[w]->failed = 0;
            pid_t pid = fork();
            if (pid == 0) {
                setpgid(0, 0);
                quiet("/dev/null");
                FILE* out = fopen(outFiles[w].c_str(), "a");
                std::string tag = "w" + std::to_string(getpid());
                for (long i = next[w]; i < cases; i += workers) {
                    if (now() - t0 > budget) { fprintf(out, "B\n"); break; }
                    std::string sc = newScratch(tag);
                    if (chdir(sc.c_str()) != 0) _exit(98);
                    slots[w]->index = i;
                    slots[w]->started = now();
                    Gen g(&slots[w]->log, mix(base + (uint64_t) i * 0x9e3779b97f4a7c15ULL));
                    Case c(g);
                    c.scratch = sc;
                    Outcome o = runHere(s, g, c);
                    slots[w]->started = 0;
                    if (bad(o)) {
                        snprintf(slots[w]->message, sizeof slots[w]->message, "%s", o.message.c_str());
                        slots[w]->failed = 1;
                        fclose(out);
                        if (chdir("/") != 0) _exit(98);
                        rmTree(sc);
                        _exit(0);
                    }
                    uint64_t h;
                    if (!c.keyText.empty()) h = hashStr(c.keyText);
                    else {
                        h = 7;
                        for (size_t k = 0; k < slots[w]->log.n; ++k) h = mix(h ^ slots[w]->log.v[k]);
                    }
                    fprintf(out, "C %d %d %llx %lu", (int) (o.kind == Outcome::DISCARD), (int) c.nontriv, (unsigned long long) h, c.evals);
                    for (auto& l : c.labels) fprintf(out, " %s", l.c_str());
                    fprintf(out, "\n");
                    if (c.nontriv && !c.sampleText.empty() && i < 40) {
                        std::string t = c.sampleText.substr(0, 1500);
                        for (char& ch : t) if (ch == '\n') ch = '\x01';
                        fprintf(out, "S %s\n", t.c_str());
                    }
                    fflush(out);
                }
                if (chdir("/") != 0) _exit(98);
                rmTree(scratchRoot + "/" + tag);
                fclose(out);
                _exit(0);
            }
            pids[w] = pid;
        };
        for (int w = 0; w < workers; ++w) startWorker(w);
        int live = workers;
        auto killAll = [&]() {
            for (int w = 0; w < workers; ++w) if (pids[w] > 0) {
                kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL);
                int st; waitpid(pids[w], &st, 0);
                rmTree(scratchRoot + "/w" + std::to_string(pids[w]));
                pids[w] = -1;
            }
            live = 0;
        };
        while (live > 0) {
            bool any = false;
            for (int w = 0; w < workers && live > 0; ++w) {
                if (pids[w] <= 0) continue;
                int st = 0;
                double began = slots[w]->started;   // read once: the worker changes it
                pid_t r = waitpid(pids[w], &st, WNOHANG);
                Outcome o;
                bool ended = false;
                if (r == pids[w]) {
                    ended = true;
                    kill(-pids[w], SIGKILL);
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                        if (slots[w]->failed) { o.kind = Outcome::FAIL; o.message = slots[w]->message; }
                    } else if (slots[w]->started > 0) {
                        o.kind = Outcome::CRASH;
                        o.message = WIFSIGNALED(st) ? std::string("process ended by signal ") + strsignal(WTERMSIG(st))
                                                    : "process exited with status " + std::to_string(WEXITSTATUS(st));
                    } else {
                        fprintf(stderr, "worker of suite %s ended between cases (status %d)\n", s.name.c_str(), st);
                        killAll();
                        exit(2);
                    }
                } else if (began > 0 && now() - began > s.timeout) {
                    kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL);
                    waitpid(pids[w], &st, 0);
                    ended = true;
                    o.kind = Outcome::HANG;
                    o.message = "did not finish within " + std::to_string((long) s.timeout) + " s";
                }
                if (!ended) continue;
                any = true;
                rmTree(scratchRoot + "/w" + std::to_string(pids[w]));
                pids[w] = -1;
                if (!bad(o)) { --live; continue; }
                // a failure: confirm it in fresh processes
                std::vector<uint64_t> ch(slots[w]->log.v, slots[w]->log.v + slots[w]->log.n);
                long idx = slots[w]->index;
                if (survey) {  // development: go on and collect the kinds of failures
                    if (o.kind == Outcome::CRASH) { Outcome o2 = runIsolated(s, ch, false, 2 * s.timeout); if (bad(o2)) o = o2; }
                    auto& e = kinds[category(o.message)];
                    if (e.first++ == 0 || ch.size() < e.second.size()) e.second = ch;
                    next[w] = idx + workers;
                    startWorker(w);
                    continue;
                }
                int tries = s.racy ? 10 : 3, hits = 0;
                Outcome rep;
                for (int t = 0; t < tries; ++t) {
                    Outcome o2 = runIsolated(s, ch, false, 2 * s.timeout);
                    if (bad(o2)) { ++hits; rep = o2; }
                    if (s.racy && hits > 0) break;
                }
                bool confirmed = s.racy ? (hits > 0 || o.kind == Outcome::FAIL) : hits == tries;
                if (confirmed) {
                    sum.violated = true;
                    sum.message = hits ? rep.message : o.message;
                    sum.kind = o.kind == Outcome::FAIL ? "fail" : o.kind == Outcome::CRASH ? "crash" : "hang";
                    sum.choices = ch;
                    killAll();
                    break;
                }
                // not reproducible: noted, and the search goes on after this case
                ++sum.unconfirmed;
                sum.unconfirmedMsg = o.message + " (case " + std::to_string(idx) + ", reproduced " + std::to_string(hits) + " of " + std::to_string(tries) + ")";
                next[w] = idx + workers;
                if (++restarts[w] > 20) { --live; continue; }
                startWorker(w);
            }
            if (!any && live > 0) usleep(3000);
        }
        // collect
        for (int w = 0; w < workers; ++w) {
            std::ifstream in(outFiles[w]);
            std::string line;
            while (std::getline(in, line)) {
                if (line[0] == 'B') sum.cutByBudget = true;
                else if (line[0] == 'S') {
                    std::string t = line.substr(2);
                    for (char& ch : t) if (ch == '\x01') ch = '\n';
                    if (sum.samples.size() < 6) sum.samples.push_back(t);
                } else if (line[0] == 'C') {
                    std::istringstream is(line.substr(2));
                    int disc, nt; std::string h; long ev;
                    is >> disc >> nt >> h >> ev;
                    sum.cases++;
                    sum.evals += ev;
                    if (disc) sum.discarded++;
                    else if (nt) { sum.nontrivial++; sum.distinct.insert(strtoull(h.c_str(), nullptr, 16)); }
                    std::string l;
                    while (is >> l) sum.labels[l]++;
                }
            }
            unlink(outFiles[w].c_str());
            freeSlot(slots[w]);
        }
        sum.wall = now() - t0;
        return sum;
    }

    /** reduces the failing choices */
    void shrink(const Suite& s, std::vector<uint64_t>& best, std::string& msg, double budget, int maxRuns) {
        double t0 = now();
        int runs = 0;
        auto attempt = [&](const std::vector<uint64_t>& cand) -> bool {
            if (runs >= maxRuns || now() - t0 > budget) return false;
            ++runs;
            Outcome o = runIsolated(s, cand);
            if (!bad(o)) return false;
            if (!keepCategory.empty() && category(o.message) != keepCategory) return false;
            auto ch = o.choices;
            if (ch.size() > best.size()) ch = cand;
            if (ch.size() < best.size() || ch < best) { best = ch; msg = o.message; return true; }
            return false;
        };
        bool progress = true;
        while (progress && runs < maxRuns && now() - t0 < budget) {
            progress = false;
            for (size_t len = std::max<size_t>(1, best.size() / 2); ; len /= 2) {
                for (size_t k = best.size(); k >= len && k > 0;) {
                    size_t b = k - len;
                    std::vector<uint64_t> c = best;
                    if (b + len > c.size()) { k = c.size(); if (k < len) break; continue; }
                    c.erase(c.begin() + b, c.begin() + b + len);
                    if (attempt(c)) { progress = true; k = std::min(b, best.size()); }
                    else k = (b < 1) ? 0 : b;
                    if (runs >= maxRuns || now() - t0 > budget) break;
                }
                if (len <= 1 || runs >= maxRuns || now() - t0 > budget) break;
            }
            for (size_t k = 0; k < best.size() && runs < maxRuns; ++k) {
                if (best[k] == 0) continue;
                std::vector<uint64_t> c = best;
                c[k] = 0;
                if (attempt(c)) { progress = true; continue; }
                if (k >= best.size()) break;
                uint64_t v = best[k];
                while (v > 1) {
                    v /= 2;
                    if (k >= best.size() || v >= best[k]) break;
                    c = best; c[k] = v;
                    if (!attempt(c)) break;
                    progress = true;
                }
            }
        }
    }
};

/** --suite NAME|all --seed N --tier quick|thorough --scale F --workers N --budget S --json FILE --replaydir D --property ID
 *  --replay FILE   --probes FILE */
inline int mainRun(int argc, char** argv, const std::vector<Suite>& suites, const std::vector<Probe>& probes = {}) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    setvbuf(stdout, nullptr, _IOLBF, 0);
    Runner R;
    const char* ss = getenv("VERIF_SCRATCH");
    std::string sroot = ss ? ss : "/tmp";
    std::string tmpl = sroot + "/pbt.XXXXXX";
    std::vector<char> buf(tmpl.begin(), tmpl.end()); buf.push_back(0);
    if (!mkdtemp(buf.data())) { perror("mkdtemp"); return 2; }
    R.scratchRoot = buf.data();
    struct Cleanup { std::string d; pid_t p; ~Cleanup() { if (getpid() == p) rmTree(d); } } cleanup{R.scratchRoot, getpid()};

    if (a.count("--replay")) {
        std::ifstream in(a["--replay"]);
        std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        auto field = [&](const std::string& k) {
            size_t p = all.find("\"" + k + "\":");
            if (p == std::string::npos) return std::string();
            p = all.find('"', p + k.size() + 3);
            size_t e = all.find('"', p + 1);
            return all.substr(p + 1, e - p - 1);
        };
        std::string sn = field("suite");
        std::vector<uint64_t> ch;
        size_t p = all.find("\"choices\":");
        p = all.find('[', p);
        size_t e = all.find(']', p);
        std::string nums = all.substr(p + 1, e - p - 1);
        for (char& c : nums) if (c == ',') c = ' ';
        std::istringstream is(nums);
        uint64_t v;
        while (is >> v) ch.push_back(v);
        for (const Suite& s : suites) if (s.name == sn && a.count("--here")) {  // for a debugger
            std::string sc = R.newScratch("here");
            Slot* slot = Runner::newSlot();
            Gen g(&slot->log, ch);
            Case c(g);
            c.scratch = sc;
            Outcome o = R.runHere(s, g, c);
            std::cout << o.message << std::endl;
            return Runner::bad(o);
        }
        for (const Suite& s : suites) if (s.name == sn) {
            int n = s.racy ? 10 : 1;
            for (int i = 0; i < n; ++i) {
                Outcome o = R.runIsolated(s, ch, i == 0, 3 * s.timeout);
                if (Runner::bad(o)) { std::cout << "REPLAY FAILS: " << o.message << std::endl; return 1; }
            }
            std::cout << "REPLAY PASSES" << std::endl;
            return 0;
        }
        std::cerr << "no suite " << sn << std::endl;
        return 2;
    }

    std::string tier = a.count("--tier") ? a["--tier"] : "quick";
    double scale = a.count("--scale") ? atof(a["--scale"].c_str()) : 1.0;
    int workers = a.count("--workers") ? atoi(a["--workers"].c_str()) : 8;
    double budget = a.count("--budget") ? atof(a["--budget"].c_str()) : 300;
    R.seed = a.count("--seed") ? strtoull(a["--seed"].c_str(), nullptr, 10) : 1;
    std::string which = a.count("--suite") ? a["--suite"] : "all";
    std::string prop = a["--property"];
    std::string replayDir = a.count("--replaydir") ? a["--replaydir"] : ".";
    std::ostringstream js;
    js << "{\"suites\":[";
    bool first = true, violated = false;
    double tStart = now();
    size_t ns = 0, is = 0;
    for (const Suite& s : suites) if (which == "all" || which == s.name) ++ns;
    for (const Suite& s : suites) {
        if (which != "all" && which != s.name) continue;
        long n = (long) ((tier == "quick" ? s.quick : s.thorough) * scale);
        if (n < 1) n = 1;
        double left = budget - (now() - tStart);
        double share = std::max(5.0, left / (double) (ns - is));
        ++is;
        R.survey = getenv("PBT_SURVEY") != nullptr;
        Runner::Summary r = R.run(s, n, workers, share);
        int sk = 0;
        for (auto& e : R.kinds) {
            std::string msg = e.first;
            R.keepCategory = e.first;
            if (atoi(getenv("PBT_SURVEY")) > 0) R.shrink(s, e.second.second, msg, atoi(getenv("PBT_SURVEY")), 600);
            std::string path = replayDir + "/survey-" + s.name + "-" + std::to_string(sk++) + ".json";
            std::ofstream f(path);
            f << "{\"property\":" << jstr(prop) << ",\"suite\":" << jstr(s.name) << ",\"seed\":" << R.seed << ",\"message\":" << jstr(msg) << ",\"choices\":[";
            for (size_t i = 0; i < e.second.second.size(); ++i) f << (i ? "," : "") << e.second.second[i];
            f << "]}\n";
            std::cout << "SURVEY " << e.second.first << " x " << e.first << "\n   " << path << "\n   " << msg.substr(0, 1200) << std::endl;
        }
        R.kinds.clear();
        R.keepCategory.clear();
        if (r.violated) {
            violated = true;
            std::cout << "suite " << s.name << ": failing case found (" << r.kind << "): " << r.message.substr(0, 600) << std::endl;
            if (!s.racy && r.kind != "hang") R.shrink(s, r.choices, r.message, 90, 600);
            std::string path = replayDir + "/" + prop + "-" + s.name + ".json";
            std::ofstream f(path);
            f << "{\"property\":" << jstr(prop) << ",\"suite\":" << jstr(s.name) << ",\"seed\":" << R.seed << ",\"message\":" << jstr(r.message) << ",\"choices\":[";
            for (size_t i = 0; i < r.choices.size(); ++i) f << (i ? "," : "") << r.choices[i];
            f << "]}\n";
            f.close();
            std::cout << "shrunk to " << r.choices.size() << " choices: " << r.message.substr(0, 1500) << std::endl;
            std::cout << "FAILED-SUITE " << s.name << " " << path << std::endl;
        }
        if (!first) js << ",";
        first = false;
        js << "{\"name\":" << jstr(s.name) << ",\"rule\":" << jstr(s.rule) << ",\"planned\":" << n << ",\"cases\":" << r.cases << ",\"discarded\":" << r.discarded
           << ",\"nontrivial\":" << r.nontrivial << ",\"distinct_nontrivial\":" << r.distinct.size() << ",\"comparisons\":" << r.evals
           << ",\"cut_by_budget\":" << (r.cutByBudget ? "true" : "false") << ",\"violated\":" << (r.violated ? "true" : "false")
           << ",\"unconfirmed\":" << r.unconfirmed << ",\"unconfirmed_message\":" << jstr(r.unconfirmedMsg)
           << ",\"message\":" << jstr(r.message) << ",\"wall_s\":" << r.wall << ",\"labels\":{";
        bool f2 = true;
        for (auto& l : r.labels) { js << (f2 ? "" : ",") << jstr(l.first) << ":" << l.second; f2 = false; }
        js << "},\"samples\":[";
        f2 = true;
        for (auto& t : r.samples) { js << (f2 ? "" : ",") << jstr(t); f2 = false; }
        js << "]}";
        std::cout << "suite " << s.name << ": " << r.cases << " cases, " << r.distinct.size() << " distinct non-trivial, " << r.discarded << " discarded, "
                  << r.evals << " comparisons, " << r.unconfirmed << " unconfirmed, " << r.wall << " s" << (r.cutByBudget ? " (time budget)" : "") << (r.violated ? " VIOLATED" : "") << std::endl;
        if (r.violated) break;
    }
    js << "],\"probes\":[";
    first = true;
    for (const Probe& p : probes) {
        Suite s{p.id, p.fn, 1, 1, 120, false, "", true};
        Outcome o = R.runIsolated(s, {});
        if (!first) js << ",";
        first = false;
        js << "{\"id\":" << jstr(p.id) << ",\"fails\":" << (Runner::bad(o) ? "true" : "false") << ",\"message\":" << jstr(o.message) << "}";
    }
    js << "]}";
    if (a.count("--json")) { std::ofstream f(a["--json"]); f << js.str() << std::endl; }
    return violated ? 1 : 0;
}

// ---- small helpers -------------------------------------------------------
inline std::string str(double d) { std::ostringstream o; o.precision(17); o << d; return o.str(); }
template<class V> std::string strv(const V& v) {
    std::ostringstream o; o.precision(17); o << "[";
    for (size_t i = 0; i < (size_t) v.size(); ++i) o << (i ? "," : "") << v[i];
    o << "]"; return o.str();
}

}
#endif
