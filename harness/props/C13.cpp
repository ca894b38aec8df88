// C13: measuring all qubits.
#include "inv.hpp"
#include <random>
using namespace rf;

namespace {
    struct Quiet { // swallows the warnings of the package
        std::ostringstream os;
        std::streambuf*    old;
        Quiet():
            old(std::cerr.rdbuf(os.rdbuf())) {}
        ~Quiet() { std::cerr.rdbuf(old); }
    };
    std::size_t index(const std::string& s) {
        std::size_t i = 0;
        for (const char c: s) {
            i = 2 * i + (c == '1' ? 1U : 0U);
        }
        return i;
    }
    void outcome(Gen& g) {
        const int n   = anySize(g, 1, 6, 9);
        auto      pkg = makePkg(n);
        dd::vEdge e{};
        if (g.oneIn(3)) {
            std::vector<Gate> c;
            for (auto k = 1 + g.irange(0, 10); k > 0; --k) {
                c.push_back(genGate(g, n));
            }
            e = runCircuit(*pkg, c, n);
        } else {
            e = vecDD(*pkg, genState(g, n));
        }
        pkg->incRef(e);
        const auto v = readVec(e, n);
        g.note("state ", str(v));
        std::mt19937_64 mt(g.below(1ULL << 20U));
        const auto      reps = 1 + g.irange(0, 3);
        const bool pressed = g.oneIn(12); // collections become due, for want of space in the table of numbers
        if (pressed) {
            lowerCollectionLimit(*pkg);
        }
        for (int k = 0; k < reps; ++k) {
            const auto before = e;
            const auto r      = pkg->measureAll(e, false, mt);
            g.note("outcome ", r);
            if (r.size() != static_cast<std::size_t>(n) || r.find_first_not_of("01") != std::string::npos) {
                fail("outcome is \"", r, "\"");
            }
            if (!(std::norm(v[index(r)]) > 1e-13)) {
                fail("outcome ", r, " has amplitude ", v[index(r)]);
            }
            if (e.p != before.p || e.w != before.w) {
                fail("measuring without collapse replaced the state");
            }
            expectVec(readVec(e, n), v, 1e-9, "measuring without collapse changed the state");
        }
        if (nonTrivialVec(v)) {
            g.nontrivial();
        }
        if (pressed) {
            makeCollectionDue(*pkg);
        }
        const auto r = pkg->measureAll(e, true, mt);
        g.note("collapsed to ", r);
        if (r.size() != static_cast<std::size_t>(n) || !(std::norm(v[index(r)]) > 1e-13)) {
            fail("outcome ", r, " has amplitude ", r.size() == static_cast<std::size_t>(n) ? v[index(r)] : C{});
        }
        if (g.flip()) {
            pkg->garbageCollect(true);
        }
        if (g.flip()) { // other work, which may use what has been collected
            vecDD(*pkg, genState(g, n));
            vecDD(*pkg, genState(g, n));
        }
        checkNodesStored(*pkg, e, "collapsed state");
        checkNumbersStored(*pkg);
        Vec want(v.size(), C{});
        want[index(r)] = 1.;
        expectVec(readVec(e, n), want, 1e-9, "state after collapsing to ", r);
        for (int k = 0; k < 2; ++k) {
            const auto r2 = pkg->measureAll(e, g.flip(), mt);
            if (r2 != r) {
                fail("measured ", r2, " right after collapsing to ", r);
            }
        }
        pkg->decRef(e);
        pkg->garbageCollect(true);
        if (pkg->vUniqueTable.getNodeCount() != 0) {
            fail("after releasing the collapsed state, ", pkg->vUniqueTable.getNodeCount(), " nodes stay referenced");
        }
        if (pkg->cn.complexTable.getCount() > 1) {
            fail("after releasing the collapsed state, ", pkg->cn.complexTable.getCount() - 1, " numbers stay referenced");
        }
    }
    void frequency(Gen& g) {
        const int       n   = g.irange(1, 4);
        auto            pkg = makePkg(n);
        auto            e   = vecDD(*pkg, genState(g, n));
        const auto      v   = readVec(e, n);
        std::mt19937_64 mt(g.below(1ULL << 32U));
        const int       shots = 3000;
        std::vector<int> cnt(v.size(), 0);
        g.note("state ", str(v));
        for (int s = 0; s < shots; ++s) {
            ++cnt[index(pkg->measureAll(e, false, mt))];
        }
        for (std::size_t i = 0; i < v.size(); ++i) {
            const double p = std::norm(v[i]);
            const double f = static_cast<double>(cnt[i]) / shots;
            if (std::abs(f - p) > 7 * std::sqrt(p * std::max(1 - p, 0.) / shots) + 8. / shots) {
                fail("outcome ", i, " in ", cnt[i], " of ", shots, " measurements; its probability is ", p);
            }
        }
        if (nonTrivialVec(v)) {
            g.nontrivial();
        }
    }
    // zero vectors are rejected, other norms only warn
    void norms(Gen& g) {
        Quiet           quiet;
        const int       n   = g.irange(1, 4);
        auto            pkg = makePkg(n);
        const auto      f   = g.pick({0., 0., 0.3, 0.999, 1., 1.5});
        auto            e   = vecDD(*pkg, scale(genState(g, n), f));
        const auto      v   = readVec(e, n);
        std::mt19937_64 mt(g.below(1ULL << 20U));
        bool            thrown = false;
        std::string     r;
        try {
            r = pkg->measureAll(e, false, mt);
        } catch (const std::runtime_error&) {
            thrown = true;
        }
        if (thrown != (f == 0.)) {
            fail("state scaled by ", f, thrown ? " rejected" : " accepted");
        }
        if (!thrown && !(std::norm(v[index(r)]) > 1e-13)) {
            fail("outcome ", r, " has amplitude ", v[index(r)]);
        }
        const double d = std::abs(norm(v) * norm(v) - 1);
        if (!thrown && std::abs(d - 0.001) > 1e-6 && (d > 0.001) != !quiet.os.str().empty()) {
            fail("a state with | |v|^2 - 1 | = ", d, d > 0.001 ? " is measured without a warning" : " leads to a warning");
        }
        g.nontrivial();
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C13",
                      "random vectors and circuit states of 1-6 qubits measured repeatedly with and without collapse; 3000-shot outcome frequencies (7 sigma); zero and non-normalised states; "
                      "non-trivial: at least two outcomes are possible (or the norm differs from one)",
                      {{"outcome", 12, outcome}, {"frequency", 1, frequency}, {"norms", 1, norms}}};
    return p;
}
