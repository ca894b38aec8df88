// C38: packages used by different threads at the same time do not disturb each other.
#include "extras.hpp"

#include <atomic>
#include <exception>
#include <locale>
#include <thread>
using namespace rf;

namespace {
    struct Job {
        int             n;
        std::vector<Op> ops;
        std::vector<int> extras; // one further operation after each step
        std::vector<Gate> noise;
    };
    void runJob(const Job& j, Outcome& o) {
        try {
            auto pkg = makePkg(2 * j.n);
            Exec ex(*pkg, j.n);
            for (std::size_t i = 0; i < j.ops.size(); ++i) {
                ex.step(j.ops[i]);
                extra(*pkg, ex, {j.n, j.noise}, j.extras[i], o);
            }
            ex.audit("in its thread");
            ex.release();
            o.out.insert(o.out.end(), ex.out.begin(), ex.out.end());
        } catch (...) {
            o.error = std::current_exception();
        }
    }
    // the standard library fills its tables of narrowed and widened characters lazily and unsynchronised (with the same values whoever does it)
    bool warmUp() {
        const auto& f = std::use_facet<std::ctype<char>>(std::locale());
        for (int c = 0; c < 256; ++c) {
            f.narrow(static_cast<char>(c), '\0');
            f.widen(static_cast<char>(c));
        }
        return true;
    }
    void threads(Gen& g) {
        static const bool warm = warmUp();
        (void)warm;
        std::vector<Job> jobs;
        const auto       k = g.irange(2, 4);
        for (int i = 0; i < k; ++i) {
            Job j;
            if (i > 0 && g.oneIn(3)) {
                j = jobs[0];
            } else {
                j.n   = g.irange(1, 3);
                j.ops = genProgram(g, j.n, g.irange(2, 10));
                for (std::size_t s = 0; s < j.ops.size(); ++s) {
                    j.extras.push_back(g.irange(0, 175));
                }
                for (int s = g.irange(0, 3); s > 0; --s) {
                    j.noise.push_back(genGate(g, j.n));
                }
            }
            g.note("thread ", i, " (", j.n, " qubits): ", brief(j.ops));
            jobs.push_back(j);
        }
        std::vector<Outcome> alone(jobs.size());
        std::vector<Outcome> together(jobs.size());
        const auto           order = g.irange(0, 1);
        const auto           sequential = [&] {
            for (std::size_t i = 0; i < jobs.size(); ++i) {
                runJob(jobs[i], alone[i]);
                if (alone[i].error) {
                    std::rethrow_exception(alone[i].error);
                }
            }
        };
        if (order == 0) {
            sequential();
        }
        std::atomic<std::size_t> ready{0};
        std::vector<std::thread> ts;
        ts.reserve(jobs.size());
        for (std::size_t i = 0; i < jobs.size(); ++i) {
            ts.emplace_back([&, i] {
                ++ready;
                while (ready.load() < jobs.size()) {
                    std::this_thread::yield();
                }
                runJob(jobs[i], together[i]);
            });
        }
        for (auto& t: ts) {
            t.join();
        }
        if (order == 1) {
            sequential();
        }
        std::size_t busy = 0;
        for (std::size_t i = 0; i < jobs.size(); ++i) {
            if (together[i].error) {
                std::rethrow_exception(together[i].error);
            }
            sameResults(together[i].out, alone[i].out, "thread " + std::to_string(i) + " next to others and alone");
            if (together[i].text != alone[i].text) {
                fail("thread ", i, " printed other numbers next to others than alone");
            }
            busy += alone[i].out.size() > 2 ? 1U : 0U;
        }
        if (busy > 1) {
            g.nontrivial();
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C38",
                      "two to four threads, each running a random program (all kinds of operations, sizes, exports, reading back, measurements, density matrices) in a package of its own, "
                      "against the same programs one after the other; with ThreadSanitizer watching in one variant; non-trivial: at least two threads produced three results",
                      {{"threads", 1, threads}}};
    return p;
}
