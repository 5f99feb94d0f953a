// -*- c++ -*-
// A small property-based testing engine for the mito checks.
//
// * every random decision of a case is one entry of a CHOICE SEQUENCE (small value = simple value),
//   drawn from a generator that is a pure function of (seed, property, case index);
// * cases run in forked workers: a crash, an assertion or a sanitizer report of the code under test
//   ends the worker, not the search, and is a failure of the case that was running;
// * a failing choice sequence is shrunk (delete blocks, zero blocks, lower entries), each candidate
//   in its own forked child, and written to a replay file; --replay re-runs exactly that sequence.
#pragma once

#include <algorithm>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_set>
#include <variant>
#include <vector>

#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

    inline uint64_t splitmix(uint64_t & s)
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    inline uint64_t hash_bytes(const void * p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
    {
        auto c = static_cast<const unsigned char *>(p);
        for (size_t i = 0; i < n; ++i) {
            h ^= c[i];
            h *= 0x100000001b3ull;
        }
        return h;
    }

    // thrown by {check} when an expectation is not met
    struct Failure {
        std::string message;
    };
    // thrown when a generated case turns out to be outside of the domain
    struct Discard {};

    constexpr size_t MAX_CHOICES = 1 << 16;
    constexpr size_t MAX_TEXT = 1 << 15;

    // shared between the parent and the worker that runs the cases
    struct Shared {
        volatile uint64_t current;     // index of the case being run (1-based; 0 = none yet)
        volatile uint64_t heartbeat;
        volatile uint64_t n_choices;
        uint64_t choices[MAX_CHOICES];
        volatile int failed;           // 0 ok, 1 failed check, 2 discarded
        volatile int running;          // a case is being run
        char message[MAX_TEXT];
        char notes[MAX_TEXT];
    };

    class Gen {
      public:
        Gen(Shared * sh, uint64_t seed, const std::vector<uint64_t> * replay, int size) :
            _sh(sh), _state(seed), _replay(replay), _size(size)
        {
            if (_sh) {
                _sh->n_choices = 0;
                _sh->notes[0] = 0;
            }
        }

        // a choice in [0, bound)
        uint64_t draw(uint64_t bound)
        {
            uint64_t v = 0;
            if (_replay) {
                v = _pos < _replay->size() ? (*_replay)[_pos] : 0;
                if (bound && v >= bound)
                    v = bound - 1;
            } else {
                v = bound ? splitmix(_state) % bound : splitmix(_state);
            }
            ++_pos;
            if (_sh && _sh->n_choices < MAX_CHOICES) {
                _sh->choices[_sh->n_choices] = v;
                _sh->n_choices = _sh->n_choices + 1;
            }
            return v;
        }

        // the size hint of the case (grows along a run)
        int size() const { return _size; }

        int below(int n) { return n <= 1 ? 0 : int(draw(uint64_t(n))); }
        // [lo, hi], lo is the simplest
        int range(int lo, int hi) { return lo + below(hi - lo + 1); }
        bool flip() { return draw(2) == 1; }
        // true with probability num/den, false is the simplest
        bool chance(int num, int den) { return int(draw(uint64_t(den))) >= den - num; }
        template <class C>
        auto & pick(C & c)
        {
            return c[size_t(below(int(c.size())))];
        }
        template <class T>
        T pick(std::vector<T> && c)
        {
            return c[size_t(below(int(c.size())))];
        }
        template <class T>
        T pick(std::initializer_list<T> c)
        {
            return *(c.begin() + below(int(c.size())));
        }
        // index chosen with the given integer weights, index 0 the simplest
        int weighted(std::initializer_list<int> w)
        {
            int tot = 0;
            for (auto x : w)
                tot += x;
            int v = int(draw(uint64_t(tot)));
            int i = 0;
            for (auto x : w) {
                if (v < x)
                    return i;
                v -= x;
                ++i;
            }
            return 0;
        }
        // a real number in [lo, hi]: 0 is the simplest one when it is inside
        double real(double lo, double hi)
        {
            int mode = weighted({ 2, 3, 5 });
            double x;
            if (mode == 0) {
                // an integer close to the bottom of the range in magnitude
                double a = std::ceil(lo), b = std::floor(hi);
                if (b < a)
                    x = lo + (hi - lo) * (double(draw(17)) / 16.0);
                else {
                    int n = int(std::min(b - a + 1.0, 41.0));
                    double base = (a <= 0 && b >= 0) ? 0.0 : (a > 0 ? a : b);
                    int k = int(draw(uint64_t(n)));
                    // alternate around base
                    double off = (k % 2 ? 1.0 : -1.0) * ((k + 1) / 2);
                    x = base + off;
                    if (x < a || x > b)
                        x = base - off;
                    if (x < a || x > b)
                        x = base;
                }
            } else if (mode == 1) {
                // coarse grid of the range
                x = lo + (hi - lo) * (double(draw(65)) / 64.0);
            } else {
                x = lo + (hi - lo) * (double(draw(1ull << 53)) / double((1ull << 53) - 1));
            }
            return std::min(hi, std::max(lo, x));
        }
        // a real number in +-[lo, hi]
        double signed_real(double lo, double hi)
        {
            double x = real(lo, hi);
            return flip() ? -x : x;
        }
        template <class T>
        void shuffle(std::vector<T> & v)
        {
            for (size_t i = v.size(); i > 1; --i)
                std::swap(v[i - 1], v[i - 1 - size_t(below(int(i)))]);
        }

        uint64_t fingerprint() const
        {
            return hash_bytes(_sh->choices, sizeof(uint64_t) * _sh->n_choices);
        }

      private:
        Shared * _sh;
        uint64_t _state;
        const std::vector<uint64_t> * _replay;
        size_t _pos = 0;
        int _size;
    };

    // what a case reports
    class Ctx {
      public:
        explicit Ctx(Shared * sh) : _sh(sh) {}
        // the case exercises the property in a way that counts (the rule is stated per property)
        void nontrivial() { _nontrivial = true; }
        void label(const std::string & l) { _labels.insert(l); }
        // append to the description of the case
        template <class... A>
        void note(const A &... a)
        {
            std::ostringstream os;
            os << std::setprecision(17);
            (os << ... << a);
            os << "\n";
            std::string s = os.str();
            size_t used = _notes_len;
            if (used + s.size() + 1 < MAX_TEXT) {
                std::memcpy(_sh->notes + used, s.c_str(), s.size() + 1);
                _notes_len += s.size();
            }
        }
        template <class... A>
        void check(bool ok, const A &... a)
        {
            ++_checks;
            if (ok)
                return;
            std::ostringstream os;
            os << std::setprecision(17);
            (os << ... << a);
            throw Failure{ os.str() };
        }
        // |a - b| <= tol * max(1, scale)
        template <class... A>
        void near(double a, double b, double tol, const A &... msg)
        {
            ++_checks;
            if (std::abs(a - b) <= tol)
                return;    // NaN falls through
            std::ostringstream os;
            os << std::setprecision(17);
            (os << ... << msg);
            os << ": got " << a << ", expected " << b << " (difference " << (a - b)
               << ", tolerance " << tol << ")";
            throw Failure{ os.str() };
        }
        [[noreturn]] void discard() { throw Discard{}; }

        bool is_nontrivial() const { return _nontrivial; }
        const std::set<std::string> & labels() const { return _labels; }
        uint64_t checks() const { return _checks; }

      private:
        Shared * _sh;
        size_t _notes_len = 0;
        bool _nontrivial = false;
        std::set<std::string> _labels;
        uint64_t _checks = 0;
    };

    using prop_fn = std::function<void(Gen &, Ctx &)>;
    struct Property {
        std::string name;
        int weight;
        prop_fn fn;
        int budget;    // upper bound for the number of cases per unit of scale (0 = none)
    };
    inline std::vector<Property> & registry()
    {
        static std::vector<Property> r;
        return r;
    }
    struct Register {
        Register(const char * name, int weight, prop_fn fn, int budget = 0)
        {
            registry().push_back({ name, weight, std::move(fn), budget });
        }
    };

// PROP(name, weight) { body with Gen & g, Ctx & c }
#define PROP(NAME, WEIGHT)                                                       \
    static void prop_##NAME(pbt::Gen & g, pbt::Ctx & c);                         \
    static pbt::Register reg_##NAME(#NAME, WEIGHT, prop_##NAME);                 \
    static void prop_##NAME([[maybe_unused]] pbt::Gen & g, [[maybe_unused]] pbt::Ctx & c)

    inline std::string jstr(const std::string & s)
    {
        std::string o = "\"";
        for (unsigned char ch : s) {
            if (ch == '"')
                o += "\\\"";
            else if (ch == '\\')
                o += "\\\\";
            else if (ch == '\n')
                o += "\\n";
            else if (ch == '\t')
                o += "\\t";
            else if (ch < 0x20 || ch >= 0x7f) {
                char b[8];
                std::snprintf(b, sizeof b, "\\u%04x", ch);
                o += b;
            } else
                o += char(ch);
        }
        return o + "\"";
    }

    struct Outcome {
        enum Kind { OK, FAIL, CRASH, HANG, DISCARD } kind = OK;
        std::string message;
        std::string notes;
        std::vector<uint64_t> choices;
        bool bad() const { return kind == FAIL || kind == CRASH || kind == HANG; }
    };

    inline double now()
    {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
    }

    inline int & case_timeout()
    {
        static int t = 120;
        return t;
    }

    class Runner {
      public:
        Runner()
        {
            void * m = mmap(
                nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            if (m == MAP_FAILED) {
                std::perror("mmap");
                std::exit(3);
            }
            _sh = static_cast<Shared *>(m);
        }

        static uint64_t case_seed(uint64_t seed, const std::string & name, uint64_t idx)
        {
            uint64_t s = seed * 0x9e3779b97f4a7c15ull ^ hash_bytes(name.data(), name.size());
            splitmix(s);
            s += idx * 0xd1342543de82ef95ull;
            return splitmix(s);
        }

        // run one case in this process; true = fine
        bool run_here(
            const Property & p, uint64_t seed, const std::vector<uint64_t> * replay, int size,
            Ctx & ctx)
        {
            Gen g(_sh, seed, replay, size);
            _sh->failed = 0;
            _sh->message[0] = 0;
            _sh->running = 1;
            try {
                p.fn(g, ctx);
            } catch (const Failure & f) {
                _sh->failed = 1;
                std::snprintf(_sh->message, MAX_TEXT, "%s", f.message.c_str());
            } catch (const Discard &) {
                _sh->failed = 2;
            } catch (const std::exception & e) {
                _sh->failed = 1;
                std::snprintf(_sh->message, MAX_TEXT, "uncaught exception: %s", e.what());
            }
            _sh->running = 0;
            return _sh->failed != 1;
        }

        // run one choice sequence in a child of its own
        Outcome run_isolated(
            const Property & p, const std::vector<uint64_t> & choices, int size, int timeout)
        {
            Outcome out;
            int ep[2];
            if (pipe(ep)) {
                std::perror("pipe");
                std::exit(3);
            }
            _sh->failed = 0;
            _sh->message[0] = 0;
            _sh->notes[0] = 0;
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                setpgid(0, 0);
                dup2(ep[1], 2);
                dup2(ep[1], 1);
                close(ep[0]);
                close(ep[1]);
                Ctx ctx(_sh);
                bool ok = run_here(p, 0, &choices, size, ctx);
                _exit(ok ? (_sh->failed == 2 ? 12 : 10) : 11);
            }
            close(ep[1]);
            std::string err;
            bool timed_out = false;
            int status = collect(pid, ep[0], err, timed_out, timeout);
            close(ep[0]);
            fill(out, status, timed_out, err);
            return out;
        }

        int collect(pid_t pid, int fd, std::string & err, bool & timed_out, int timeout)
        {
            double t0 = now();
            int status = 0;
            char buf[4096];
            bool eof = false;
            while (true) {
                if (!eof) {
                    pollfd pf{ fd, POLLIN, 0 };
                    int r = poll(&pf, 1, 200);
                    if (r > 0) {
                        ssize_t n = read(fd, buf, sizeof buf);
                        if (n <= 0)
                            eof = true;
                        else if (err.size() < (1 << 16))
                            err.append(buf, size_t(n));
                    }
                } else {
                    usleep(500);
                }
                if (eof || now() - t0 > timeout) {
                    int w = waitpid(pid, &status, WNOHANG);
                    if (w == pid)
                        return status;
                    if (now() - t0 > timeout) {
                        timed_out = true;
                        kill(pid, SIGKILL);
                        waitpid(pid, &status, 0);
                        return status;
                    }
                }
            }
        }

        void fill(Outcome & out, int status, bool timed_out, const std::string & err)
        {
            out.choices.assign(_sh->choices, _sh->choices + _sh->n_choices);
            out.notes = _sh->notes;
            if (timed_out) {
                out.kind = Outcome::HANG;
                out.message = "the case did not terminate";
                return;
            }
            if (WIFEXITED(status) && WEXITSTATUS(status) == 10) {
                out.kind = Outcome::OK;
                return;
            }
            if (WIFEXITED(status) && WEXITSTATUS(status) == 12) {
                out.kind = Outcome::DISCARD;
                return;
            }
            if (WIFEXITED(status) && WEXITSTATUS(status) == 11) {
                out.kind = Outcome::FAIL;
                out.message = _sh->message;
                return;
            }
            out.kind = Outcome::CRASH;
            std::ostringstream os;
            if (WIFSIGNALED(status))
                os << "crashed with signal " << WTERMSIG(status) << " ("
                   << strsignal(WTERMSIG(status)) << ")";
            else
                os << "exited with status " << WEXITSTATUS(status);
            // keep the informative lines
            std::istringstream is(err);
            std::string line;
            int kept = 0;
            while (std::getline(is, line) && kept < 12) {
                if (line.find("ERROR") != std::string::npos
                    || line.find("runtime error") != std::string::npos
                    || line.find("Assertion") != std::string::npos
                    || line.find("SUMMARY") != std::string::npos
                    || line.find("terminate") != std::string::npos
                    || line.find("what()") != std::string::npos
                    || line.find("free()") != std::string::npos
                    || line.find("corrupt") != std::string::npos) {
                    os << "\n" << line;
                    ++kept;
                }
            }
            out.message = os.str();
        }

        // shrink a failing choice sequence
        Outcome shrink(const Property & p, Outcome best, int size, double budget)
        {
            double t0 = now();
            auto simpler = [](const std::vector<uint64_t> & a, const std::vector<uint64_t> & b) {
                if (a.size() != b.size())
                    return a.size() < b.size();
                return a < b;
            };
            auto attempt = [&](std::vector<uint64_t> cand) {
                if (now() - t0 > budget)
                    return false;
                auto o = run_isolated(p, cand, size, 20);
                if (!o.bad() || o.kind == Outcome::HANG)
                    return false;
                if (simpler(o.choices, best.choices)) {
                    best = o;
                    return true;
                }
                return false;
            };
            if (best.kind == Outcome::HANG)
                return best;
            bool progress = true;
            while (progress && now() - t0 < budget) {
                progress = false;
                // delete blocks
                for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len >= 1; len /= 2) {
                    for (size_t i = 0; i + len <= best.choices.size();) {
                        auto cand = best.choices;
                        cand.erase(cand.begin() + long(i), cand.begin() + long(i + len));
                        if (attempt(cand))
                            progress = true;
                        else
                            i += std::max<size_t>(1, len);
                        if (now() - t0 > budget)
                            return best;
                    }
                    if (len == 1)
                        break;
                }
                // zero blocks
                for (size_t len : { 8, 4, 2, 1 }) {
                    for (size_t i = 0; i + len <= best.choices.size(); i += len) {
                        auto cand = best.choices;
                        bool any = false;
                        for (size_t k = i; k < i + len; ++k)
                            any |= cand[k] != 0, cand[k] = 0;
                        if (any && attempt(cand))
                            progress = true;
                    }
                }
                // lower entries
                for (size_t i = 0; i < best.choices.size(); ++i) {
                    uint64_t lo = 0, hi = best.choices[i];
                    for (int it = 0; it < 12 && lo < hi; ++it) {
                        uint64_t mid = lo + (hi - lo) / 2;
                        auto cand = best.choices;
                        if (i >= cand.size())
                            break;
                        cand[i] = mid;
                        if (attempt(cand)) {
                            progress = true;
                            hi = i < best.choices.size() ? best.choices[i] : 0;
                        } else
                            lo = mid + 1;
                    }
                }
            }
            return best;
        }

        Shared * shared() { return _sh; }

      private:
        Shared * _sh;
    };

    struct Stats {
        uint64_t evaluations = 0, nontrivial = 0, discarded = 0, checks = 0;
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, uint64_t> labels;
        std::vector<std::string> samples;
    };

    inline void put_u64(std::string & s, uint64_t v) { s.append(reinterpret_cast<char *>(&v), 8); }

    inline int pbt_main(int argc, char ** argv)
    {
        // the library identifies simplices by their address: run with a fixed address space layout,
        // so that a case depends on nothing but its choices
        int pers = personality(0xffffffff);
        if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !std::getenv("PBT_REEXEC")) {
            if (personality((unsigned long) pers | ADDR_NO_RANDOMIZE) != -1) {
                setenv("PBT_REEXEC", "1", 1);
                execv("/proc/self/exe", argv);
            }
        }
        uint64_t seed = 1;
        uint64_t cases = 1000;
        double time_budget = 60;
        int shard = 0, shards = 1, batch = 200;
        std::string out_path, replay_path, only;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--seed")
                seed = std::strtoull(next().c_str(), nullptr, 10);
            else if (a == "--cases")
                cases = std::strtoull(next().c_str(), nullptr, 10);
            else if (a == "--time")
                time_budget = std::atof(next().c_str());
            else if (a == "--shard") {
                auto s = next();
                std::sscanf(s.c_str(), "%d/%d", &shard, &shards);
            } else if (a == "--batch")
                batch = std::atoi(next().c_str());
            else if (a == "--out")
                out_path = next();
            else if (a == "--replay")
                replay_path = next();
            else if (a == "--only")
                only = next();
            else if (a == "--case-timeout")
                case_timeout() = std::atoi(next().c_str());
            else if (a == "--list") {
                for (auto & p : registry())
                    std::printf("%s\n", p.name.c_str());
                return 0;
            }
        }
        signal(SIGPIPE, SIG_IGN);
        Runner runner;

        if (!replay_path.empty()) {
            // text file: lines "property NAME", "size N", "choices a b c ..."
            std::ifstream in(replay_path);
            std::string line, name;
            int size = 50;
            std::vector<uint64_t> choices;
            bool batchmode = false;
            uint64_t b_seed = 0, b_from = 0, b_to = 0, b_cases = 0;
            while (std::getline(in, line)) {
                std::istringstream is(line);
                std::string k;
                is >> k;
                if (k == "property")
                    is >> name;
                else if (k == "size")
                    is >> size;
                else if (k == "choices") {
                    uint64_t v;
                    while (is >> v)
                        choices.push_back(v);
                } else if (k == "history") {
                    batchmode = true;
                    is >> b_seed >> b_from >> b_to >> b_cases;
                }
            }
            for (auto & p : registry()) {
                if (p.name != name)
                    continue;
                if (!batchmode) {
                    auto o = runner.run_isolated(p, choices, size, case_timeout());
                    if (o.bad()) {
                        std::printf("REPRODUCED %s\n%s\n--- case\n%s\n", name.c_str(),
                                    o.message.c_str(), o.notes.c_str());
                        return 1;
                    }
                    std::printf("NOT REPRODUCED\n");
                    return 0;
                }
                // run the cases of a worker up to the failing one, in one child
                fflush(nullptr);
                pid_t pid = fork();
                if (pid == 0) {
                    for (uint64_t i = b_from; i <= b_to; ++i) {
                        Ctx ctx(runner.shared());
                        int sz = int(5 + 95 * double(i) / double(std::max<uint64_t>(1, b_cases)));
                        if (!runner.run_here(
                                p, Runner::case_seed(b_seed, p.name, i), nullptr, sz, ctx))
                            _exit(11);
                    }
                    _exit(10);
                }
                int st = 0;
                waitpid(pid, &st, 0);
                bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 10);
                std::printf("%s %s (history)\n%s\n--- case\n%s\n",
                            bad ? "REPRODUCED" : "NOT REPRODUCED", name.c_str(),
                            runner.shared()->message, runner.shared()->notes);
                return bad ? 1 : 0;
            }
            std::printf("no such property: %s\n", name.c_str());
            return 3;
        }

        uint64_t total_weight = 0;
        for (auto & p : registry())
            total_weight += uint64_t(p.weight);

        double t_start = now();
        std::map<std::string, Stats> stats;
        struct Bad {
            std::string prop, message, notes, mode;
            std::vector<uint64_t> choices;
            int size;
            uint64_t from, to, cases;
        };
        std::vector<Bad> failures;
        bool exhausted_time = false;
        double shrink_budget = 25;    // for all failures of this process

        for (auto & p : registry()) {
            if (!only.empty() && p.name != only)
                continue;
            auto & st = stats[p.name];
            uint64_t n = std::max<uint64_t>(1, cases * uint64_t(p.weight) / total_weight);
            // the share of the wall clock that this property may use
            double t_prop = time_budget * double(p.weight) / double(total_weight);
            double t0 = now();
            uint64_t lo = n * uint64_t(shard) / uint64_t(shards);
            uint64_t hi = n * uint64_t(shard + 1) / uint64_t(shards);
            if (hi == lo && shard == 0)
                hi = lo + 1;
            uint64_t idx = lo;
            int worker_failures = 0;
            while (idx < hi && worker_failures < 3) {
                // the time budget only cuts the search short once a minimum of cases has been run
                if (now() - t0 > t_prop && idx > lo) {
                    exhausted_time = true;
                    break;
                }
                uint64_t end = std::min<uint64_t>(hi, idx + uint64_t(batch));
                int pp[2], ep[2];
                if (pipe(pp) || pipe(ep)) {
                    std::perror("pipe");
                    return 3;
                }
                auto * sh = runner.shared();
                sh->current = 0;
                sh->failed = 0;
                sh->running = 0;
                fflush(nullptr);
                pid_t pid = fork();
                if (pid == 0) {
                    close(pp[0]);
                    close(ep[0]);
                    dup2(ep[1], 2);
                    dup2(ep[1], 1);
                    double w0 = now();
                    for (uint64_t i = idx; i < end; ++i) {
                        sh->current = i + 1;
                        Ctx ctx(sh);
                        int sz = int(5 + 95 * double(i) / double(std::max<uint64_t>(1, n)));
                        bool ok = runner.run_here(
                            p, Runner::case_seed(seed, p.name, i), nullptr, sz, ctx);
                        sh->heartbeat = sh->heartbeat + 1;
                        if (!ok)
                            _exit(11);
                        std::string rec;
                        put_u64(rec, sh->failed == 2 ? 1 : 0);
                        put_u64(rec, ctx.is_nontrivial() ? 1 : 0);
                        put_u64(rec, ctx.checks());
                        put_u64(rec, hash_bytes(sh->choices, 8 * sh->n_choices));
                        std::string labels;
                        for (auto & l : ctx.labels())
                            labels += l + "\n";
                        // keep the description of some of the cases as samples
                        std::string sample;
                        if (ctx.is_nontrivial() && (i % 97 == 0 || i - lo < 3)) {
                            sample = sh->notes;
                            if (sample.size() > 600)
                                sample = sample.substr(0, 600) + " ...";
                        }
                        put_u64(rec, labels.size());
                        put_u64(rec, sample.size());
                        rec += labels + sample;
                        size_t off = 0;
                        while (off < rec.size()) {
                            ssize_t w = write(pp[1], rec.data() + off, rec.size() - off);
                            if (w <= 0)
                                _exit(13);
                            off += size_t(w);
                        }
                        if (now() - w0 > t_prop && i + 1 < end)
                            _exit(14);
                    }
                    _exit(10);
                }
                close(pp[1]);
                close(ep[1]);
                std::string data, err;
                char buf[65536];
                bool p_open = true, e_open = true, hang = false;
                uint64_t beat = sh->heartbeat;
                double beat_t = now();
                while (p_open || e_open) {
                    pollfd pf[2] = { { p_open ? pp[0] : -1, POLLIN, 0 },
                                     { e_open ? ep[0] : -1, POLLIN, 0 } };
                    poll(pf, 2, 500);
                    if (p_open && (pf[0].revents & (POLLIN | POLLHUP))) {
                        ssize_t r = read(pp[0], buf, sizeof buf);
                        if (r <= 0)
                            p_open = false;
                        else
                            data.append(buf, size_t(r));
                    }
                    if (e_open && (pf[1].revents & (POLLIN | POLLHUP))) {
                        ssize_t r = read(ep[0], buf, sizeof buf);
                        if (r <= 0)
                            e_open = false;
                        else if (err.size() < (1 << 16))
                            err.append(buf, size_t(r));
                    }
                    if (sh->heartbeat != beat) {
                        beat = sh->heartbeat;
                        beat_t = now();
                    } else if (sh->running && now() - beat_t > case_timeout()) {
                        hang = true;
                        kill(pid, SIGKILL);
                    }
                }
                close(pp[0]);
                close(ep[0]);
                int status = 0;
                waitpid(pid, &status, 0);
                // take the records
                size_t off = 0;
                uint64_t done = 0;
                auto get = [&]() {
                    uint64_t v;
                    std::memcpy(&v, data.data() + off, 8);
                    off += 8;
                    return v;
                };
                while (off + 48 <= data.size()) {
                    uint64_t disc = get(), nt = get(), ck = get(), fp = get(), ll = get(),
                             sl = get();
                    if (off + ll + sl > data.size())
                        break;
                    std::string labels = data.substr(off, ll), sample = data.substr(off + ll, sl);
                    off += ll + sl;
                    ++done;
                    st.evaluations++;
                    st.discarded += disc;
                    st.checks += ck;
                    if (nt && !disc) {
                        st.nontrivial++;
                        st.distinct.insert(fp);
                    }
                    std::istringstream is(labels);
                    std::string l;
                    while (std::getline(is, l))
                        st.labels[l]++;
                    if (!sample.empty() && st.samples.size() < 4)
                        st.samples.push_back(sample);
                }
                bool clean = WIFEXITED(status)
                          && (WEXITSTATUS(status) == 10 || WEXITSTATUS(status) == 14) && !hang;
                if (clean) {
                    idx += done;
                    continue;
                }
                if (sh->current == 0) {
                    std::fprintf(stderr, "worker died before its first case:\n%s\n", err.c_str());
                    return 3;
                }
                // the case that failed
                uint64_t bad = sh->current - 1;
                int sz = int(5 + 95 * double(bad) / double(std::max<uint64_t>(1, n)));
                Outcome o;
                runner.fill(o, status, hang, err);
                if (!o.bad()) {
                    // e.g. a crash in between two cases
                    o.kind = Outcome::CRASH;
                }
                ++worker_failures;
                Bad b{ p.name, o.message, o.notes, "case", o.choices, sz, idx, bad, n };
                bool repro = true;
                for (int k = 0; k < 2 && repro; ++k) {
                    auto r = runner.run_isolated(p, o.choices, sz, case_timeout());
                    repro = r.bad();
                }
                if (repro) {
                    double t_shrink = now();
                    auto s = runner.shrink(p, o, sz, std::max(2.0, shrink_budget));
                    shrink_budget -= now() - t_shrink;
                    b.message = s.message;
                    b.notes = s.notes;
                    b.choices = s.choices;
                } else {
                    b.mode = "history";
                }
                failures.push_back(b);
                idx = bad + 1;
            }
            if (!failures.empty() && now() - t_start > 1.2 * time_budget)
                break;
        }

        // report
        std::ostringstream os;
        os << "{\n  \"seed\": " << seed << ",\n  \"wall_s\": " << (now() - t_start)
           << ",\n  \"time_exhausted\": " << (exhausted_time ? "true" : "false")
           << ",\n  \"properties\": [\n";
        bool first = true;
        for (auto & p : registry()) {
            if (!stats.count(p.name))
                continue;
            auto & st = stats[p.name];
            if (!first)
                os << ",\n";
            first = false;
            os << "    {\"name\": " << jstr(p.name) << ", \"evaluations\": " << st.evaluations
               << ", \"nontrivial\": " << st.nontrivial << ", \"discarded\": " << st.discarded
               << ", \"checks\": " << st.checks << ", \"labels\": {";
            bool f2 = true;
            for (auto & [l, k] : st.labels) {
                os << (f2 ? "" : ", ") << jstr(l) << ": " << k;
                f2 = false;
            }
            os << "}, \"fingerprints\": [";
            f2 = true;
            for (auto v : st.distinct) {
                os << (f2 ? "" : ",") << v;
                f2 = false;
            }
            os << "], \"samples\": [";
            f2 = true;
            for (auto & s : st.samples) {
                os << (f2 ? "" : ", ") << jstr(s);
                f2 = false;
            }
            os << "]}";
        }
        os << "\n  ],\n  \"failures\": [\n";
        for (size_t k = 0; k < failures.size(); ++k) {
            auto & b = failures[k];
            os << (k ? ",\n" : "") << "    {\"property\": " << jstr(b.prop) << ", \"message\": "
               << jstr(b.message) << ", \"notes\": " << jstr(b.notes) << ", \"mode\": "
               << jstr(b.mode) << ", \"size\": " << b.size << ", \"from\": " << b.from
               << ", \"to\": " << b.to << ", \"cases\": " << b.cases << ", \"choices\": [";
            for (size_t i = 0; i < b.choices.size(); ++i)
                os << (i ? "," : "") << b.choices[i];
            os << "]}";
        }
        os << "\n  ]\n}\n";
        if (out_path.empty())
            std::cout << os.str();
        else {
            std::ofstream f(out_path);
            f << os.str();
        }
        return failures.empty() ? 0 : 1;
    }
}    // namespace pbt
