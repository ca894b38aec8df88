// Minimal property-based-testing engine: choice tapes, sharded runs, fork-based shrinking, replay, libFuzzer entry.
//
// A case is a sequence of choices ("tape").  Random generation appends choices drawn from a PRNG seeded by
// (VERIF_SEED, property, case index); a replay feeds a stored tape (missing choices read as 0 = "simplest").
// The tape of the running case lives in a memory-mapped file, so that it survives a crash of the code under test.
#pragma once
#include <algorithm>
#include <cinttypes>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pb {
    struct Failure: std::exception {
        std::string msg;
        explicit Failure(std::string m):
            msg(std::move(m)) {}
        [[nodiscard]] const char* what() const noexcept override { return msg.c_str(); }
    };
    // thrown by a check when a case turns out to lie outside the domain of the property
    struct Discard {};

    inline std::uint64_t splitmix(std::uint64_t& s) {
        std::uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z               = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z               = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }

    struct Shared { // memory-mapped: state of the running case
        std::uint64_t index;
        std::uint64_t running; // 1 while a case runs
        std::uint64_t len;
        std::uint64_t values[(1U << 19)];
    };

    class Gen {
    public:
        // generation
        explicit Gen(std::uint64_t seed, Shared* sh):
            rng(seed), shared(sh) {}
        // replay
        Gen(const std::vector<std::uint64_t>* t, Shared* sh):
            tape(t), shared(sh) {}
        // bytes
        Gen(const std::uint8_t* d, std::size_t n, Shared* sh):
            bytes(d), nbytes(n), shared(sh) {}

        // uniform choice from {0, ..., n-1}; 0 is the simplest one
        std::uint64_t below(std::uint64_t n) {
            std::uint64_t v = 0;
            if (n <= 1) {
                return 0;
            }
            if (tape != nullptr) {
                v = pos < tape->size() ? (*tape)[pos] : 0;
                v %= n;
            } else if (bytes != nullptr) {
                std::uint64_t span = n - 1;
                while (span > 0) {
                    v = (v << 8U) | (bpos < nbytes ? bytes[bpos++] : 0U);
                    span >>= 8U;
                }
                v %= n;
            } else {
                v = splitmix(rng) % n;
            }
            ++pos;
            if (shared != nullptr && shared->len < (sizeof(shared->values) / sizeof(std::uint64_t))) {
                shared->values[shared->len] = v;
                ++shared->len;
            }
            hash = (hash ^ v) * 0x100000001b3ULL;
            hash ^= hash >> 29U;
            return v;
        }
        std::int64_t range(std::int64_t lo, std::int64_t hi) { // inclusive; lo is the simplest
            return lo + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(hi - lo) + 1U));
        }
        int         irange(int lo, int hi) { return static_cast<int>(range(lo, hi)); }
        bool        flip() { return below(2) == 1; }
        bool        oneIn(std::uint64_t n) { return below(n) == n - 1; } // rarely true
        bool        mostly(std::uint64_t n) { return below(n) != n - 1; }
        double      unit() { return static_cast<double>(below(1ULL << 53U)) / 9007199254740992.0; }
        double      real(double lo, double hi) { return lo + (hi - lo) * unit(); }
        template<class T>
        const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
        template<class T>
        T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
        // index chosen with the given weights
        std::size_t weighted(std::initializer_list<unsigned> w) {
            std::uint64_t sum = 0;
            for (auto x: w) {
                sum += x;
            }
            auto        r = below(sum);
            std::size_t i = 0;
            for (auto x: w) {
                if (r < x) {
                    return i;
                }
                r -= x;
                ++i;
            }
            return 0;
        }
        std::vector<int> permutation(int n) {
            std::vector<int> p(static_cast<std::size_t>(n));
            for (int i = 0; i < n; ++i) {
                p[static_cast<std::size_t>(i)] = i;
            }
            for (int i = 0; i + 1 < n; ++i) {
                std::swap(p[static_cast<std::size_t>(i)], p[static_cast<std::size_t>(i) + below(static_cast<std::uint64_t>(n - i))]);
            }
            return p;
        }

        // classification
        void nontrivial() { nontriv = true; }
        void tag(const std::string& t) { tags.insert(t); }
        // description of the case (only stored when somebody will read it)
        bool tracing = false;
        template<class... A>
        void note(const A&... a) {
            if (tracing) {
                std::ostringstream os;
                os.precision(17);
                (os << ... << a);
                notes += os.str();
                notes += '\n';
                if (echo) {
                    std::fputs((os.str() + "\n").c_str(), stdout);
                    std::fflush(stdout);
                }
            }
        }
        bool                  echo = false;
        std::string           notes;
        bool                  nontriv = false;
        std::set<std::string> tags;
        std::uint64_t         hash = 0xcbf29ce484222325ULL;

    private:
        std::uint64_t                     rng = 0;
        const std::vector<std::uint64_t>* tape   = nullptr;
        const std::uint8_t*               bytes  = nullptr;
        std::size_t                       nbytes = 0;
        std::size_t                       bpos   = 0;
        std::size_t                       pos    = 0;
        Shared*                           shared = nullptr;
    };

    template<class... A>
    [[noreturn]] void fail(const A&... a) {
        std::ostringstream os;
        os.precision(17);
        (os << ... << a);
        throw Failure(os.str());
    }
#define PB_CHECK(cond, ...)              \
    do {                                 \
        if (!(cond)) {                   \
            ::pb::fail(__VA_ARGS__);     \
        }                                \
    } while (false)

    struct Sub {
        std::string                name;
        unsigned                   weight;
        std::function<void(Gen&)>  fn;
    };
    struct Property {
        std::string      id;
        std::string      rule;
        std::vector<Sub> subs;
    };
    Property& property(); // defined by each property file

    inline std::uint64_t hashStr(const std::string& s) {
        std::uint64_t h = 0xcbf29ce484222325ULL;
        for (unsigned char c: s) {
            h = (h ^ c) * 0x100000001b3ULL;
        }
        return h;
    }

    // 0 = ok, 1 = failure, 2 = discarded
    inline int runCase(Gen& g, std::string& msg, std::size_t& subIdx) {
        auto&    p   = property();
        unsigned sum = 0;
        for (auto& s: p.subs) {
            sum += s.weight;
        }
        auto r = g.below(sum);
        subIdx = 0;
        for (std::size_t i = 0; i < p.subs.size(); ++i) {
            if (r < p.subs[i].weight) {
                subIdx = i;
                break;
            }
            r -= p.subs[i].weight;
        }
        g.note("[", p.id, "/", p.subs[subIdx].name, "]");
        try {
            p.subs[subIdx].fn(g);
        } catch (const Discard&) {
            return 2;
        } catch (const Failure& f) {
            msg = "[" + p.subs[subIdx].name + "] " + f.msg;
            return 1;
        } catch (const std::exception& e) {
            msg = "[" + p.subs[subIdx].name + "] unexpected exception: " + e.what();
            return 1;
        }
        return 0;
    }

    inline std::vector<std::uint64_t> readTape(const std::string& f) {
        std::ifstream              is(f);
        std::vector<std::uint64_t> t;
        std::string                w;
        while (is >> w) {
            t.push_back(std::strtoull(w.c_str(), nullptr, 10));
        }
        return t;
    }
    inline void writeTape(const std::string& f, const std::vector<std::uint64_t>& t) {
        std::ofstream os(f);
        for (auto v: t) {
            os << v << "\n";
        }
    }

    static constexpr int EXIT_FAIL = 42;
    static constexpr int EXIT_HANG = 44;
    inline long          hangSeconds() {
        const char* e = std::getenv("PBT_HANG_S");
        return e != nullptr ? std::atol(e) : 40;
    }
    inline void armTimer() {
        // CPU time of this process: independent of the load of the machine
        itimerval t{};
        t.it_value.tv_sec = hangSeconds();
        setitimer(ITIMER_PROF, &t, nullptr);
    }
    inline void onHang(int) {
        const char m[] = "HANG: a single case used up its CPU-time allowance\n";
        [[maybe_unused]] auto r = write(1, m, sizeof(m) - 1);
        _exit(EXIT_HANG);
    }

    inline std::string jsonEscape(const std::string& s) {
        std::string o;
        for (unsigned char c: s) {
            if (c == '"' || c == '\\') {
                o += '\\';
                o += static_cast<char>(c);
            } else if (c == '\n') {
                o += "\\n";
            } else if (c < 0x20) {
                char b[8];
                std::snprintf(b, sizeof(b), "\\u%04x", c);
                o += b;
            } else {
                o += static_cast<char>(c);
            }
        }
        return o;
    }

    inline Shared* mapShared(const std::string& file) {
        int fd = open(file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) {
            std::perror("shared");
            std::exit(3);
        }
        void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) {
            std::perror("mmap");
            std::exit(3);
        }
        close(fd);
        return static_cast<Shared*>(m);
    }

    // runs a tape in a forked child; returns true if it fails (in any way)
    inline int tryTape(const std::vector<std::uint64_t>& t, Shared* sh, std::vector<std::uint64_t>* consumed) {
        std::fflush(stdout);
        sh->len        = 0;
        const auto pid = fork();
        if (pid == 0) {
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            dup2(nul, 2);
            armTimer();
            Gen         g(&t, sh);
            std::string msg;
            std::size_t sub = 0;
            const int   r   = runCase(g, msg, sub);
            _exit(r == 1 ? EXIT_FAIL : 0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        if (consumed != nullptr) {
            consumed->assign(sh->values, sh->values + std::min<std::uint64_t>(sh->len, t.size()));
        }
        if (WIFEXITED(status)) {
            return WEXITSTATUS(status);
        }
        return 128 + WTERMSIG(status);
    }

    inline std::vector<std::uint64_t> shrink(std::vector<std::uint64_t> t, Shared* sh, double budget) {
        timeval t0{};
        gettimeofday(&t0, nullptr);
        auto left = [&] {
            timeval t1{};
            gettimeofday(&t1, nullptr);
            return budget - (static_cast<double>(t1.tv_sec - t0.tv_sec) + 1e-6 * static_cast<double>(t1.tv_usec - t0.tv_usec));
        };
        std::vector<std::uint64_t> c;
        auto                       bad = [&](const std::vector<std::uint64_t>& cand) {
            const int r = tryTape(cand, sh, &c);
            return r != 0 && r != EXIT_HANG && r != 3;
        };
        if (!bad(t)) {
            return t;
        }
        t             = c.size() <= t.size() ? c : t;
        bool progress = true;
        while (progress && left() > 0) {
            progress = false;
            // delete blocks (the first element selects the sub-check and stays)
            for (std::size_t k = std::max<std::size_t>(1, t.size() / 2); k >= 1 && left() > 0; k /= 2) {
                for (std::size_t i = 1; i + k <= t.size() && left() > 0;) {
                    auto cand = t;
                    cand.erase(cand.begin() + static_cast<long>(i), cand.begin() + static_cast<long>(i + k));
                    if (bad(cand)) {
                        t        = c.size() <= cand.size() ? c : cand;
                        progress = true;
                    } else {
                        i += k;
                    }
                }
                if (k == 1) {
                    break;
                }
            }
            // zero blocks
            for (std::size_t k = std::max<std::size_t>(1, t.size() / 4); k >= 1 && left() > 0; k /= 2) {
                for (std::size_t i = 1; i + k <= t.size() && left() > 0; i += k) {
                    if (std::all_of(t.begin() + static_cast<long>(i), t.begin() + static_cast<long>(i + k), [](auto v) { return v == 0; })) {
                        continue;
                    }
                    auto cand = t;
                    std::fill(cand.begin() + static_cast<long>(i), cand.begin() + static_cast<long>(i + k), 0U);
                    if (bad(cand)) {
                        t        = c.size() <= cand.size() ? c : cand;
                        progress = true;
                    }
                }
                if (k == 1) {
                    break;
                }
            }
            // lower single values
            for (std::size_t i = 1; i < t.size() && left() > 0; ++i) {
                std::uint64_t lo = 0;
                std::uint64_t hi = t[i];
                int           it = 0;
                while (lo < hi && it++ < 24 && left() > 0) {
                    const auto mid  = lo + (hi - lo) / 2;
                    auto       cand = t;
                    cand[i]         = mid;
                    if (bad(cand)) {
                        t = cand;
                        hi = mid;
                        progress = true;
                    } else {
                        lo = mid + 1;
                    }
                }
            }
        }
        return t;
    }

    inline int pbtMain(int argc, char** argv) {
        std::map<std::string, std::string> a;
        for (int i = 1; i + 1 < argc; i += 2) {
            a[argv[i]] = argv[i + 1];
        }
        // the same memory layout in every run, because hashes of pointers select the buckets; --layout asks for other ones
        if (!a.count("--layout") || a["--layout"] == "0") {
            const auto pers = personality(0xffffffffUL);
            if (pers != -1 && (static_cast<unsigned>(pers) & ADDR_NO_RANDOMIZE) == 0U && std::getenv("PBT_REEXEC") == nullptr) {
                setenv("PBT_REEXEC", "1", 1);
                if (personality(static_cast<unsigned>(pers) | ADDR_NO_RANDOMIZE) != -1) {
                    execv("/proc/self/exe", argv);
                }
            }
        } else if (std::malloc(static_cast<std::size_t>(std::atoi(a["--layout"].c_str())) * 4112U) == nullptr) {
            return 3;
        }
        std::signal(SIGPROF, onHang);
#if !defined(__SANITIZE_ADDRESS__) && !__has_feature(address_sanitizer) && !__has_feature(thread_sanitizer)
        {
            rlimit rl{6ULL << 30U, 6ULL << 30U};
            setrlimit(RLIMIT_AS, &rl);
        }
#endif
        {
            rlimit rl{0, 0};
            setrlimit(RLIMIT_CORE, &rl);
        }
        auto& p  = property();
        auto* sh = mapShared(a.count("--shared") ? a["--shared"] : "/dev/shm/pbt-shared-" + std::to_string(getpid()));
        if (!a.count("--shared")) {
            unlink(("/dev/shm/pbt-shared-" + std::to_string(getpid())).c_str());
        }

        if (a.count("--replay")) {
            const auto t = readTape(a["--replay"]);
            Gen        g(&t, sh);
            g.tracing = true;
            g.echo    = true;
            std::string msg;
            std::size_t sub = 0;
            armTimer();
            const int r = runCase(g, msg, sub);
            if (r == 1) {
                std::cout << "FAILURE: " << msg << std::endl;
                return EXIT_FAIL;
            }
            std::cout << (r == 2 ? "discarded" : "passed") << std::endl;
            return 0;
        }
        if (a.count("--shrink")) {
            auto t = shrink(readTape(a["--shrink"]), sh, std::atof(a["--budget"].c_str()));
            writeTape(a["--out"], t);
            return 0;
        }

        const auto    seed   = std::strtoull(a["--seed"].c_str(), nullptr, 10);
        const auto    shard  = std::strtoull(a["--shard"].c_str(), nullptr, 10);
        const auto    shards = std::strtoull(a["--shards"].c_str(), nullptr, 10);
        const auto    from   = a.count("--from") ? std::strtoull(a["--from"].c_str(), nullptr, 10) : shard;
        const auto    cases  = std::strtoull(a["--cases"].c_str(), nullptr, 10);
        const double  maxSec = a.count("--maxsec") ? std::atof(a["--maxsec"].c_str()) : 1e9;
        const auto    base   = hashStr(p.id + (a.count("--salt") ? a["--salt"] : "")) ^ (seed * 0x2545f4914f6cdd1dULL);
        std::uint64_t done = 0, discarded = 0;
        std::unordered_set<std::uint64_t>    distinct;
        std::map<std::string, std::uint64_t> tags;
        std::map<std::string, std::uint64_t> subs;
        std::vector<std::string>             samples;
        int                                  ret = 0;
        std::string                          failMsg;
        timeval                              t0{};
        gettimeofday(&t0, nullptr);
        for (std::uint64_t i = from; i < cases; i += shards) {
            std::uint64_t s = base + i * 0x9e3779b97f4a7c15ULL;
            splitmix(s);
            sh->index   = i;
            sh->len     = 0;
            sh->running = 1;
            Gen g(s, sh);
            g.tracing = samples.size() < 2;
            std::string msg;
            std::size_t sub = 0;
            armTimer();
            const int r = runCase(g, msg, sub);
            sh->running = 0;
            ++done;
            if (r == 2) {
                ++discarded;
            } else {
                ++subs[p.subs[sub].name];
                for (auto& t: g.tags) {
                    ++tags[t];
                }
                if (g.nontriv) {
                    distinct.insert(g.hash);
                    if (samples.size() < 2) {
                        samples.push_back(g.notes.substr(0, 1500));
                    }
                }
            }
            if (r == 1) {
                writeTape(a["--out"] + ".tape", std::vector<std::uint64_t>(sh->values, sh->values + sh->len));
                failMsg = msg;
                ret     = EXIT_FAIL;
                break;
            }
            if ((done & 15U) == 0) {
                timeval t1{};
                gettimeofday(&t1, nullptr);
                if (static_cast<double>(t1.tv_sec - t0.tv_sec) > maxSec) {
                    break;
                }
            }
        }
        itimerval off{};
        setitimer(ITIMER_PROF, &off, nullptr);
        std::ofstream os(a["--out"]);
        os << "{\"done\": " << done << ", \"discarded\": " << discarded << ", \"msg\": \"" << jsonEscape(failMsg) << "\", \"tags\": {";
        bool first = true;
        for (auto& [k, v]: tags) {
            os << (first ? "" : ", ") << '"' << jsonEscape(k) << "\": " << v;
            first = false;
        }
        os << "}, \"subs\": {";
        first = true;
        for (auto& [k, v]: subs) {
            os << (first ? "" : ", ") << '"' << jsonEscape(k) << "\": " << v;
            first = false;
        }
        os << "}, \"samples\": [";
        first = true;
        for (auto& v: samples) {
            os << (first ? "" : ", ") << '"' << jsonEscape(v) << '"';
            first = false;
        }
        os << "], \"rule\": \"" << jsonEscape(p.rule) << "\"}\n";
        os.close();
        std::ofstream hs(a["--out"] + ".hashes", std::ios::binary);
        for (auto h: distinct) {
            hs.write(reinterpret_cast<const char*>(&h), sizeof(h));
        }
        return ret;
    }
} // namespace pb

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {
    static pb::Shared* sh = pb::mapShared(std::getenv("PBT_SHARED") != nullptr ? std::getenv("PBT_SHARED") : "/dev/shm/pbt-fuzz-shared");
    sh->len     = 0;
    sh->running = 1;
    ++sh->index;
    pb::Gen     g(data, size, sh);
    std::string msg;
    std::size_t sub = 0;
    const int   r   = pb::runCase(g, msg, sub);
    if (r == 1) {
        std::fprintf(stderr, "PBT-FAILURE: %s\n", msg.c_str());
        std::fflush(stderr);
        __builtin_trap();
    }
    sh->running = 0;
    return r == 2 ? -1 : 0;
}
#else
int main(int argc, char** argv) { return pb::pbtMain(argc, argv); }
#endif
