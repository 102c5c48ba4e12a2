// Property-based testing core used by every harness in this directory.
//
// A test case is a function of a recorded sequence of choices (pbt::Gen).  Every choice of a case is
// derived from VERIF_SEED, the name of the test and the index of the case, so a run is reproducible and
// does not depend on the number of workers.  A failure is shrunk on the choice sequence (removing and
// lowering choices), replayed three times, and written to a replay file holding the choices.
//
// Cases run in forked workers: a crash, an abort, an uncaught exception or exhausting the CPU budget of a
// case is a failure of that case and shrinks like any other.
#pragma once

#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace pbt {

    inline std::uint64_t splitmix(std::uint64_t &x) {
        std::uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }

    inline std::uint64_t hash_str(const std::string &s) {
        std::uint64_t h = 1469598103934665603ULL;
        for (unsigned char c : s) {
            h = (h ^ c) * 1099511628211ULL;
        }
        return h;
    }

    struct failure {
        std::string what;
    };
    struct discard { };

    static const std::size_t MAX_CHOICES = 1 << 18;
    static const std::size_t NOTE_SIZE = 1 << 15;

    // Shared between a worker and the parent, so that a dying worker still tells which case it was running.
    struct shared_case {
        std::uint64_t index;
        std::uint64_t count;
        char message[4096];
        char note[NOTE_SIZE];
        std::uint64_t choices[MAX_CHOICES];
    };

    class Gen {
    public:
        Gen(std::uint64_t seed, shared_case *sh) : state(seed), replaying(false), shm(sh) {
            begin();
        }
        Gen(const std::vector<std::uint64_t> &choices, shared_case *sh) :
            state(0), replaying(true), recorded(choices), shm(sh) {
            begin();
        }

        // uniform in [0, n)
        std::uint64_t below(std::uint64_t n) {
            if (n <= 1) {
                return 0;
            }
            return draw(n);
        }
        // any 64-bit value
        std::uint64_t bits64() {
            return draw(0);
        }
        std::int64_t range(std::int64_t lo, std::int64_t hi) {
            return lo + std::int64_t(below(std::uint64_t(hi - lo) + 1));
        }
        bool chance(unsigned num, unsigned den) {
            // shrinks towards false
            return below(den) >= den - num;
        }
        bool flag() {
            return below(2) == 1;
        }
        template<typename C>
        const typename C::value_type &pick(const C &c) {
            return *std::next(c.begin(), below(c.size()));
        }
        template<typename T>
        T pick(std::initializer_list<T> c) {
            return *std::next(c.begin(), below(c.size()));
        }

        // Human readable description of the case; goes to the samples and the replay file.
        std::ostream &note() {
            return notes;
        }
        void nontrivial(bool b = true) {
            is_nontrivial = is_nontrivial || b;
        }
        void label(const std::string &l) {
            labels.insert(l);
        }
        // number of oracle comparisons made inside the case
        void checked(std::uint64_t n = 1) {
            oracle_checks += n;
        }

        void flush_note() {
            if (shm) {
                std::string s = notes.str();
                std::size_t n = std::min(s.size(), NOTE_SIZE - 1);
                std::memcpy(shm->note, s.data(), n);
                shm->note[n] = 0;
            }
        }

        std::ostringstream notes;
        std::set<std::string> labels;
        bool is_nontrivial = false;
        std::uint64_t oracle_checks = 0;
        std::uint64_t choice_hash = 1469598103934665603ULL;
        std::vector<std::uint64_t> taken;

    private:
        void begin() {
            if (shm) {
                shm->count = 0;
                shm->note[0] = 0;
                shm->message[0] = 0;
            }
        }
        std::uint64_t draw(std::uint64_t n) {
            std::uint64_t v;
            if (replaying) {
                v = pos < recorded.size() ? recorded[pos] : 0;
                if (n) {
                    v %= n;
                }
            } else {
                v = splitmix(state);
                if (n) {
                    v = std::uint64_t((__uint128_t(v) * n) >> 64);
                }
            }
            pos++;
            taken.push_back(v);
            choice_hash = (choice_hash ^ v) * 1099511628211ULL;
            choice_hash ^= choice_hash >> 29;
            if (shm && shm->count < MAX_CHOICES) {
                shm->choices[shm->count++] = v;
            }
            return v;
        }

        std::uint64_t state;
        bool replaying;
        std::size_t pos = 0;
        std::vector<std::uint64_t> recorded;
        shared_case *shm;
    };

    [[noreturn]] inline void fail(const std::string &what) {
        throw failure {what};
    }

    // Findings listed in the committed file of known findings, by key; the driver passes them in PBT_KNOWN.
    inline const std::set<std::string> &known_findings() {
        static const std::set<std::string> k = [] {
            std::set<std::string> r;
            if (const char *s = std::getenv("PBT_KNOWN")) {
                std::istringstream is(s);
                std::string l;
                while (std::getline(is, l, ',')) {
                    r.insert(l);
                }
            }
            return r;
        }();
        return k;
    }
    // For the specific inputs of a listed finding: true if the deviation is the listed one.
    inline bool known(Gen &g, const std::string &key) {
        if (known_findings().count(key)) {
            g.label("known:" + key);
            return true;
        }
        return false;
    }

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define REQUIRE(cond, msg)                       \
    do {                                         \
        if (!(cond)) {                           \
            std::ostringstream pbt_os_;          \
            pbt_os_ << msg;                      \
            ::pbt::fail(pbt_os_.str());          \
        }                                        \
    } while (0)

    struct test_def {
        std::string name;
        std::uint64_t quick;
        std::uint64_t thorough;
        unsigned cpu_seconds;    // CPU budget of one case
        std::function<void(Gen &)> fn;
        bool exhaustive = false;    // the index of the case is an enumeration, not a seed
    };

    inline std::vector<test_def> &registry() {
        static std::vector<test_def> r;
        return r;
    }

    struct registrar {
        registrar(const std::string &name, std::uint64_t q, std::uint64_t t, unsigned cpu, std::function<void(Gen &)> fn) {
            registry().push_back({name, q, t, cpu, fn});
        }
    };

#define PBT_TEST(name, quick, thorough)                                                     \
    static void pbt_fn_##name(::pbt::Gen &);                                                \
    static ::pbt::registrar pbt_reg_##name(#name, quick, thorough, 60, pbt_fn_##name);      \
    static void pbt_fn_##name(::pbt::Gen &g)

    inline std::string json_escape(const std::string &s) {
        std::string r;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                r += '\\';
                r += char(c);
            } else if (c == '\n') {
                r += "\\n";
            } else if (c < 0x20 || c >= 0x7f) {
                char b[8];
                std::snprintf(b, sizeof b, "\\u%04x", c);
                r += b;
            } else {
                r += char(c);
            }
        }
        return r;
    }

    enum exit_kind { PASS = 0, FAILED = 10, DISCARDED = 11 };

    struct outcome {
        bool failed = false;
        std::string message;
    };

    inline Gen *&current_case() {
        static Gen *g = nullptr;
        return g;
    }
    inline void flush_current() {
        if (current_case()) {
            current_case()->flush_note();
        }
    }
    inline void on_fatal(int sig) {
        flush_current();
        signal(sig, SIG_DFL);
        raise(sig);
    }

    class runner {
    public:
        std::uint64_t seed = 1;
        bool thorough = false;
        unsigned workers = 8;
        double scale = 1.0;
        std::string only;    // name of a test, or * and the end of names

        bool selected(const std::string &name) const {
            if (only.empty()) {
                return true;
            }
            if (only[0] != '*') {
                return name == only;
            }
            const std::string end = only.substr(1);
            return name.size() >= end.size() && name.compare(name.size() - end.size(), end.size(), end) == 0;
        }
        std::string property = "C00";
        std::string replay_dir = ".";
        std::string summary_path;

        static int one_case(const test_def &t, Gen &g, shared_case *shm) {
            current_case() = &g;
            struct leave {
                ~leave() { current_case() = nullptr; }
            } leave_;
            try {
                t.fn(g);
                g.flush_note();
                return PASS;
            } catch (const failure &f) {
                std::snprintf(shm->message, sizeof shm->message, "%s", f.what.c_str());
            } catch (const discard &) {
                return DISCARDED;
            } catch (const std::exception &e) {
                std::snprintf(shm->message, sizeof shm->message, "uncaught exception: %s", e.what());
            } catch (...) {
                std::snprintf(shm->message, sizeof shm->message, "uncaught exception");
            }
            g.flush_note();
            return FAILED;
        }

        static void arm(const test_def &t, unsigned limit = 0) {
            itimerval tv {};
            tv.it_value.tv_sec = limit ? std::min(limit, t.cpu_seconds) : t.cpu_seconds;
            setitimer(ITIMER_PROF, &tv, nullptr);
        }

        static shared_case *new_shared() {
            void *p = mmap(nullptr, sizeof(shared_case), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            if (p == MAP_FAILED) {
                std::perror("mmap");
                std::exit(2);
            }
            return static_cast<shared_case *>(p);
        }

        static void quiet_child() {
            // diagnostics of code under test are not part of the verdict
            FILE *f = std::freopen("/dev/null", "w", stdout);
            f = std::freopen("/dev/null", "w", stderr);
            (void)f;
            rlimit rl {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__)
            rlimit memory {rlim_t(7) << 29, rlim_t(7) << 29};
            setrlimit(RLIMIT_AS, &memory);
#endif
            signal(SIGABRT, on_fatal);
            signal(SIGPROF, on_fatal);
#if defined(__SANITIZE_ADDRESS__)
            __sanitizer_set_death_callback(flush_current);
#else
            signal(SIGSEGV, on_fatal);
            signal(SIGFPE, on_fatal);
#endif
        }

        static const char *endless() {
            return "no termination within the CPU budget of a case";
        }
        static std::string describe_death(int status, const shared_case *shm) {
            if (WIFSIGNALED(status)) {
                int s = WTERMSIG(status);
                if (s == SIGPROF) {
                    return endless();
                }
                return std::string("crash: ") + strsignal(s);
            }
            if (WIFEXITED(status) && WEXITSTATUS(status) == FAILED) {
                return shm->message;
            }
            if (WIFEXITED(status)) {
                return "crash: process exited with status " + std::to_string(WEXITSTATUS(status));
            }
            return "crash";
        }

        // Runs one case with the given choices in its own process.
        pid_t start(const test_def &t, const std::vector<std::uint64_t> &choices, shared_case *shm, unsigned limit = 0) {
            pid_t pid = fork();
            if (pid == 0) {
                quiet_child();
                arm(t, limit);
                Gen g(choices, shm);
                _exit(one_case(t, g, shm));
            }
            return pid;
        }
        outcome result(pid_t pid, shared_case *shm) {
            int status = 0;
            waitpid(pid, &status, 0);
            outcome o;
            if (WIFEXITED(status) && (WEXITSTATUS(status) == PASS || WEXITSTATUS(status) == DISCARDED)) {
                return o;
            }
            o.failed = true;
            o.message = describe_death(status, shm);
            return o;
        }
        outcome probe(const test_def &t, const std::vector<std::uint64_t> &choices, shared_case *shm, unsigned limit = 0) {
            return result(start(t, choices, shm, limit), shm);
        }
        // how many of three runs, which take place at the same time, fail
        int confirm(const test_def &t, const std::vector<std::uint64_t> &choices, shared_case *shm, outcome &last) {
            shared_case *others[2] = {new_shared(), new_shared()};
            const pid_t a = start(t, choices, others[0]), b = start(t, choices, others[1]), c = start(t, choices, shm);
            int failed = result(a, others[0]).failed;
            failed += result(b, others[1]).failed;
            last = result(c, shm);
            for (auto *o : others) {
                munmap(o, sizeof(shared_case));
            }
            return failed + last.failed;
        }

        std::vector<std::uint64_t> shrink(const test_def &t, std::vector<std::uint64_t> cur, shared_case *shm,
                                          double budget_s) {
            auto t0 = std::chrono::steady_clock::now();
            auto expired = [&] {
                return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget_s;
            };
            auto tryit = [&](const std::vector<std::uint64_t> &cand) {
                const outcome o = probe(t, cand, shm, 10);
                if (o.failed && o.message != endless()) {
                    // keep the canonical form: the choices which were really drawn
                    std::vector<std::uint64_t> drawn(shm->choices, shm->choices + shm->count);
                    auto smaller = [](const std::vector<std::uint64_t> &a, const std::vector<std::uint64_t> &b) {
                        return a.size() != b.size() ? a.size() < b.size() : a < b;
                    };
                    if (smaller(drawn, cur)) {
                        cur = drawn;
                        return true;
                    }
                    if (smaller(cand, cur)) {
                        cur = cand;
                        return true;
                    }
                }
                return false;
            };
            bool progress = true;
            while (progress && !expired()) {
                progress = false;
                for (std::size_t len = std::max<std::size_t>(cur.size() / 2, 1); len >= 1 && !expired(); len /= 2) {
                    for (std::size_t i = 0; i + len <= cur.size() && !expired();) {
                        std::vector<std::uint64_t> cand(cur);
                        cand.erase(cand.begin() + i, cand.begin() + i + len);
                        if (tryit(cand)) {
                            progress = true;
                        } else {
                            i += len;
                        }
                    }
                    if (len == 1) {
                        break;
                    }
                }
                for (std::size_t i = 0; i < cur.size() && !expired(); i++) {
                    if (cur[i] == 0) {
                        continue;
                    }
                    std::vector<std::uint64_t> cand(cur);
                    cand[i] = 0;
                    if (tryit(cand)) {
                        progress = true;
                        continue;
                    }
                    // binary search for a small value
                    std::uint64_t lo = 0;
                    while (i < cur.size() && cur[i] - lo > 1 && !expired()) {
                        cand = cur;
                        cand[i] = lo + (cur[i] - lo) / 2;
                        std::uint64_t mid = cand[i];
                        if (tryit(cand)) {
                            progress = true;
                            if (i >= cur.size() || cur[i] > mid) {
                                break;
                            }
                        } else {
                            lo = mid;
                        }
                    }
                }
                // lower a choice together with one deletion (length prefixes)
                for (std::size_t i = 0; i < cur.size() && cur.size() < 200 && !expired(); i++) {
                    if (cur[i] == 0) {
                        continue;
                    }
                    for (std::size_t j = i + 1; j < cur.size() && j < i + 24 && !expired(); j++) {
                        if (i >= cur.size() || cur[i] == 0) {
                            break;
                        }
                        std::vector<std::uint64_t> cand(cur);
                        cand[i]--;
                        cand.erase(cand.begin() + j);
                        if (tryit(cand)) {
                            progress = true;
                            break;
                        }
                    }
                }
            }
            return cur;
        }

        struct stats {
            std::uint64_t evaluations = 0;
            std::uint64_t discarded = 0;
            std::uint64_t checks = 0;
            std::unordered_set<std::uint64_t> distinct;
            std::map<std::string, std::uint64_t> labels;
            std::vector<std::string> samples;
        };

        // binary records from workers
        static void put_u64(std::string &b, std::uint64_t v) {
            b.append(reinterpret_cast<const char *>(&v), 8);
        }
        static void put_str(std::string &b, const std::string &s) {
            put_u64(b, s.size());
            b += s;
        }

        int run() {
            auto t0 = std::chrono::steady_clock::now();
            stats all;
            std::map<std::string, std::uint64_t> per_test;
            int violations = 0;
            std::ostringstream lines;
            std::set<std::string> known_hit;
            bool any_exhaustive = false;
            for (auto &t : registry()) {
                if (!selected(t.name)) {
                    continue;
                }
                // one violation is enough for the verdict; the others are listed as long as this does not take long
                if (violations && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 100) {
                    lines << "  (" << t.name << " was not run any more)\n";
                    continue;
                }
                any_exhaustive = any_exhaustive || t.exhaustive;
                std::uint64_t n = thorough ? t.thorough : t.quick;
                if (!t.exhaustive) {
                    n = std::max<std::uint64_t>(1, std::uint64_t(n * scale));
                }
                run_test(t, n, all, per_test, violations, lines, known_hit);
            }
            double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            std::cout << lines.str();
            if (!summary_path.empty()) {
                std::ofstream f(summary_path);
                f << "{\"evaluations\":" << all.evaluations << ",\"discarded\":" << all.discarded
                  << ",\"oracle_checks\":" << all.checks << ",\"distinct_nontrivial\":" << all.distinct.size()
                  << ",\"violations\":" << violations << ",\"wall_s\":" << wall << ",\"per_test\":{";
                bool first = true;
                for (auto &p : per_test) {
                    f << (first ? "" : ",") << "\"" << json_escape(p.first) << "\":" << p.second;
                    first = false;
                }
                f << "},\"labels\":{";
                first = true;
                for (auto &p : all.labels) {
                    f << (first ? "" : ",") << "\"" << json_escape(p.first) << "\":" << p.second;
                    first = false;
                }
                f << "},\"samples\":[";
                first = true;
                for (auto &s : all.samples) {
                    f << (first ? "" : ",") << "\"" << json_escape(s) << "\"";
                    first = false;
                }
                f << "]}\n";
            }
            return violations ? 1 : 0;
        }

        void run_test(const test_def &t, std::uint64_t n, stats &all, std::map<std::string, std::uint64_t> &per_test,
                      int &violations, std::ostringstream &lines, std::set<std::string> &known_hit) {
            unsigned w = std::max(1u, std::min<unsigned>(workers, unsigned(std::min<std::uint64_t>(n, 64))));
            struct worker {
                pid_t pid;
                int fd;
                shared_case *shm;
                std::string buf;
                std::uint64_t first;
                unsigned respawns = 0;
                bool dead_failed = false;
            };
            std::vector<worker> ws;
            std::string outdir = "/tmp";
            auto spawn = [&](worker &wk, std::uint64_t start) {
                int p[2];
                if (pipe(p) != 0) {
                    std::perror("pipe");
                    std::exit(2);
                }
                std::cout.flush();
                pid_t pid = fork();
                if (pid == 0) {
                    close(p[0]);
                    quiet_child();
                    std::string b;
                    int samples = 0;
                    std::uint64_t evaluated = 0, discarded = 0, checks = 0;
                    std::unordered_set<std::uint64_t> distinct;
                    std::map<std::string, std::uint64_t> labels;
                    std::vector<std::string> smp;
                    auto send = [&] {
                        put_u64(b, evaluated);
                        put_u64(b, discarded);
                        put_u64(b, checks);
                        put_u64(b, distinct.size());
                        for (auto h : distinct) {
                            put_u64(b, h);
                        }
                        put_u64(b, labels.size());
                        for (auto &l : labels) {
                            put_str(b, l.first);
                            put_u64(b, l.second);
                        }
                        put_u64(b, smp.size());
                        for (auto &s : smp) {
                            put_str(b, s);
                        }
                        std::size_t off = 0;
                        while (off < b.size()) {
                            ssize_t r = write(p[1], b.data() + off, b.size() - off);
                            if (r <= 0) {
                                break;
                            }
                            off += r;
                        }
                        close(p[1]);
                    };
                    for (std::uint64_t i = start; i < n; i += w) {
                        wk.shm->index = i;
                        std::uint64_t s = seed * 0x9e3779b97f4a7c15ULL ^ hash_str(t.name) ^ (i * 0xd1342543de82ef95ULL);
                        splitmix(s);
                        arm(t);
                        Gen g = t.exhaustive ? Gen(std::vector<std::uint64_t> {i}, wk.shm) : Gen(s, wk.shm);
                        int r = one_case(t, g, wk.shm);
                        if (r == FAILED) {
                            send();
                            _exit(FAILED);
                        }
                        evaluated++;
                        if (r == DISCARDED) {
                            discarded++;
                            continue;
                        }
                        checks += g.oracle_checks;
                        for (auto &l : g.labels) {
                            labels[l]++;
                        }
                        if (g.is_nontrivial) {
                            distinct.insert(g.choice_hash ^ hash_str(t.name));
                            if (samples < 1) {
                                samples++;
                                std::string note = g.notes.str();
                                if (note.size() > 600) {
                                    note = note.substr(0, 600) + "...";
                                }
                                smp.push_back(t.name + ": " + note);
                            }
                        }
                    }
                    send();
                    _exit(0);
                }
                close(p[1]);
                wk.pid = pid;
                wk.fd = p[0];
                wk.buf.clear();
                wk.first = start;
            };
            for (unsigned i = 0; i < w; i++) {
                worker wk {};
                wk.shm = new_shared();
                ws.push_back(wk);
                spawn(ws.back(), i);
            }
            std::uint64_t best = ~0ULL;
            std::vector<std::uint64_t> best_choices;
            std::string best_message;
            for (auto &wk : ws) {
                char tmp[65536];
                ssize_t r;
                while ((r = read(wk.fd, tmp, sizeof tmp)) > 0) {
                    wk.buf.append(tmp, r);
                }
                close(wk.fd);
                int status = 0;
                waitpid(wk.pid, &status, 0);
                parse(wk.buf, t, all, per_test);
                if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
                    if (wk.shm->index < best) {
                        best = wk.shm->index;
                        best_choices.assign(wk.shm->choices, wk.shm->choices + wk.shm->count);
                        best_message = describe_death(status, wk.shm);
                    }
                }
            }
            if (best != ~0ULL) {
                report(t, best, best_choices, best_message, ws[0].shm, violations, lines);
            }
            for (auto &wk : ws) {
                munmap(wk.shm, sizeof(shared_case));
            }
        }

        void parse(const std::string &b, const test_def &t, stats &all, std::map<std::string, std::uint64_t> &per_test) {
            std::size_t o = 0;
            bool ok = true;
            auto u64 = [&]() -> std::uint64_t {
                if (o + 8 > b.size()) {
                    ok = false;
                    return 0;
                }
                std::uint64_t v;
                std::memcpy(&v, b.data() + o, 8);
                o += 8;
                return v;
            };
            auto str = [&]() {
                std::uint64_t n = u64();
                if (!ok || o + n > b.size()) {
                    ok = false;
                    return std::string();
                }
                std::string s = b.substr(o, n);
                o += n;
                return s;
            };
            if (b.empty()) {
                return;
            }
            std::uint64_t ev = u64();
            all.evaluations += ev;
            per_test[t.name] += ev;
            all.discarded += u64();
            all.checks += u64();
            std::uint64_t n = u64();
            for (std::uint64_t i = 0; i < n && ok; i++) {
                all.distinct.insert(u64());
            }
            n = u64();
            for (std::uint64_t i = 0; i < n && ok; i++) {
                std::string l = str();
                all.labels[t.name + "/" + l] += u64();
            }
            n = u64();
            for (std::uint64_t i = 0; i < n && ok; i++) {
                std::string s = str();
                std::size_t cnt = 0;
                for (auto &x : all.samples) {
                    if (x.compare(0, t.name.size() + 1, t.name + ":") == 0) {
                        cnt++;
                    }
                }
                if (cnt < 2) {
                    all.samples.push_back(s);
                }
            }
        }

        void report(const test_def &t, std::uint64_t index, std::vector<std::uint64_t> choices, const std::string &message,
                    shared_case *shm, int &violations, std::ostringstream &lines) {
            // confirm in fresh processes before shrinking
            outcome last;
            const int again = confirm(t, choices, shm, last);
            if (again == 0) {
                // only reproducible after the preceding cases of the worker; not reported as a violation of the
                // property, but not silent either
                std::cerr << "harness: case " << index << " of " << t.name << " failed once (" << message
                          << ") and did not fail again in isolation\n";
                std::exit(3);
            }
            std::vector<std::uint64_t> small = choices;
            if (message != endless()) {
                small = shrink(t, choices, shm, thorough ? 120 : 30);
                if (confirm(t, small, shm, last) < 3) {
                    small = choices;
                    last = probe(t, small, shm);
                }
            }
            std::string path = replay_dir + "/" + property + "-" + t.name + ".replay";
            std::ofstream f(path);
            f << "test " << t.name << "\n";
            f << "seed " << seed << " case " << index << "\n";
            f << "choices";
            for (auto c : small) {
                f << " " << c;
            }
            f << "\n";
            std::string msg = last.failed ? last.message : message;
            f << "# " << one_line(msg) << "\n";
            std::string note = shm->note;
            std::istringstream is(note);
            std::string l;
            while (std::getline(is, l)) {
                f << "# case: " << l << "\n";
            }
            f.close();
            violations++;
            lines << "VIOLATION property=" << property << " replay=" << path << "\n";
            lines << "  " << t.name << ": " << one_line(msg) << "\n";
            lines << "  case: " << one_line(note).substr(0, 800) << "\n";
        }

        static std::string one_line(std::string s) {
            for (auto &c : s) {
                if (c == '\n') {
                    c = ' ';
                }
            }
            return s;
        }

        int replay(const std::string &path) {
            std::ifstream f(path);
            std::string line, test;
            std::vector<std::uint64_t> choices;
            while (std::getline(f, line)) {
                std::istringstream is(line);
                std::string k;
                is >> k;
                if (k == "test") {
                    is >> test;
                } else if (k == "choices") {
                    std::uint64_t v;
                    while (is >> v) {
                        choices.push_back(v);
                    }
                }
            }
            for (auto &t : registry()) {
                if (t.name == test) {
                    shared_case *shm = new_shared();
                    outcome o = probe(t, choices, shm);
                    std::cout << "case: " << shm->note << "\n";
                    if (o.failed) {
                        std::cout << "FAILS: " << o.message << "\n";
                        return 1;
                    }
                    std::cout << "passes\n";
                    return 0;
                }
            }
            std::cerr << "no test named " << test << "\n";
            return 2;
        }
    };

    inline int main_impl(int argc, char **argv) {
        runner r;
        if (const char *s = std::getenv("VERIF_SEED")) {
            r.seed = std::strtoull(s, nullptr, 10);
        }
        if (const char *s = std::getenv("VERIF_TIER")) {
            r.thorough = std::string(s) == "thorough";
        }
        std::string replay_file;
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--property") {
                r.property = next();
            } else if (a == "--replay-dir") {
                r.replay_dir = next();
            } else if (a == "--summary") {
                r.summary_path = next();
            } else if (a == "--only") {
                r.only = next();
            } else if (a == "--workers") {
                r.workers = unsigned(std::strtoul(next().c_str(), nullptr, 10));
            } else if (a == "--scale") {
                r.scale = std::strtod(next().c_str(), nullptr);
            } else if (a == "--replay") {
                replay_file = next();
            } else if (a == "--list") {
                for (auto &t : registry()) {
                    std::cout << t.name << " " << t.quick << " " << t.thorough << "\n";
                }
                return 0;
            }
        }
        if (!replay_file.empty()) {
            return r.replay(replay_file);
        }
        return r.run();
    }
}    // namespace pbt

#define PBT_MAIN                            \
    int main(int argc, char **argv) {       \
        return pbt::main_impl(argc, argv);  \
    }
