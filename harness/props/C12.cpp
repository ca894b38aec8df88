// C12: measurement probabilities and collapsing measurement of one qubit.
#include "inv.hpp"
#include <random>
using namespace rf;

namespace {
    std::pair<double, double> probs(const Vec& v, int q) {
        double p0 = 0;
        double p1 = 0;
        for (std::size_t i = 0; i < v.size(); ++i) {
            (((i >> q) & 1U) != 0U ? p1 : p0) += std::norm(v[i]);
        }
        return {p0, p1};
    }
    // any vector DD (normalised or not): the probabilities are the sums of squared magnitudes
    void probabilities(Gen& g) {
        const int n   = anySize(g, 1, 6, 9);
        auto      pkg = makePkg(n);
        Vec       v;
        dd::vEdge e{};
        if (g.oneIn(4)) {
            std::vector<Gate> c;
            for (auto k = 1 + g.irange(0, 10); k > 0; --k) {
                c.push_back(genGate(g, n));
                g.note(str(c.back()));
            }
            e = runCircuit(*pkg, c, n);
            v = runCircuitRef(c, n);
        } else {
            v = genVec(g, n, g.oneIn(3));
            e = vecDD(*pkg, v);
            v = readVec(e, n);
        }
        g.note("state ", str(v));
        if (e.isTerminal()) {
            throw pb::Discard{};
        }
        const double s = norm(v) * norm(v);
        for (int q = 0; q < n; ++q) {
            const auto want = probs(v, q);
            for (const bool normalised: {false, true}) {
                const auto got = pkg->determineMeasurementProbabilities(e, static_cast<dd::Qubit>(q), normalised);
                if (!(std::abs(got.first - want.first) <= 1e-9 * std::max(s, 1.)) || !(std::abs(got.second - want.second) <= 1e-9 * std::max(s, 1.))) {
                    fail("probabilities of qubit ", q, " (normalisation ", normalised ? "assumed" : "not assumed", ") are ", got.first, ", ", got.second, "; expected ", want.first, ", ", want.second);
                }
            }
            if (want.first > 1e-6 * s && want.second > 1e-6 * s) {
                g.nontrivial();
            }
        }
        expectVec(readVec(e, n), v, tolFor(norm(v)), "state changed by determining probabilities");
    }

    // collapsing: the outcome is possible, the state becomes the normalised projection, refs stay balanced
    void collapse(Gen& g) {
        const int n   = anySize(g, 1, 5, 8);
        auto      pkg = makePkg(n);
        auto      v   = genState(g, n);
        auto      e   = vecDD(*pkg, v);
        pkg->incRef(e);
        v = readVec(e, n);
        g.note("state ", str(v));
        std::mt19937_64 mt(g.below(1ULL << 20U));
        auto            other = genState(g, n);
        const auto      keep  = vecDD(*pkg, other);
        pkg->incRef(keep);
        other = readVec(keep, n);
        std::map<int, char> seen;
        const bool pressed = g.oneIn(12); // collections become due, for want of space in the table of numbers
        if (pressed) {
            lowerCollectionLimit(*pkg);
        }
        const auto          steps = 1 + g.irange(0, 2 * n);
        for (int s = 0; s < steps; ++s) {
            const int  q = g.irange(0, n - 1);
            const bool a = g.flip();
            const auto p = probs(v, q);
            g.note("measure qubit ", q, " p0=", p.first, " p1=", p.second);
            if (pressed) {
                makeCollectionDue(*pkg);
            }
            const char r = pkg->measureOneCollapsing(e, static_cast<dd::Qubit>(q), a, mt);
            if (r != '0' && r != '1') {
                fail("outcome is '", r, "'");
            }
            const double pr = r == '0' ? p.first : p.second;
            if (!(pr > 1e-12)) {
                fail("outcome ", r, " of qubit ", q, " has probability ", pr);
            }
            if (pr < 1e-6) { // the projection is amplified beyond the accuracy of the comparison
                throw pb::Discard{};
            }
            if (seen.count(q) != 0 && seen[q] != r) {
                fail("measuring qubit ", q, " again gave another outcome");
            }
            seen[q] = r;
            Vec want(v.size(), C{});
            for (std::size_t i = 0; i < v.size(); ++i) {
                if ((((i >> q) & 1U) != 0U) == (r == '1')) {
                    want[i] = v[i] / std::sqrt(pr);
                }
            }
            if (p.first > 1e-6 && p.second > 1e-6) {
                g.nontrivial();
            }
            if (g.flip()) {
                pkg->garbageCollect(true);
            }
            if (g.oneIn(4)) { // other work, which may use what has been collected
                vecDD(*pkg, genState(g, n));
                vecDD(*pkg, genState(g, n));
            }
            checkNodesStored(*pkg, e, "collapsed state");
            checkNumbersStored(*pkg);
            const auto got = readVec(e, n);
            expectVec(got, want, 1e-9 + 1e-10 / pr, "state after outcome ", r, " of qubit ", q);
            v = got;
        }
        expectVec(readVec(keep, n), other, 1e-9, "another referenced state changed by a measurement");
        pkg->decRef(e);
        pkg->decRef(keep);
        pkg->garbageCollect(true);
        if (pkg->vUniqueTable.getNodeCount() != 0) {
            fail("after releasing all states, ", pkg->vUniqueTable.getNodeCount(), " vector nodes stay referenced");
        }
    }

    // outcomes of many measurements are distributed as the probabilities say
    void frequency(Gen& g) {
        const int n   = g.irange(1, 3);
        auto      pkg = makePkg(n);
        const auto v0 = genState(g, n);
        const auto e  = vecDD(*pkg, v0);
        const auto v  = readVec(e, n);
        const int  q  = g.irange(0, n - 1);
        const auto p  = probs(v, q);
        g.note("state ", str(v), " qubit ", q);
        std::mt19937_64 mt(g.below(1ULL << 32U));
        const int       shots = 400;
        int             ones  = 0;
        for (int s = 0; s < shots; ++s) {
            auto f = e;
            pkg->incRef(f);
            ones += pkg->measureOneCollapsing(f, static_cast<dd::Qubit>(q), true, mt) == '1' ? 1 : 0;
            pkg->decRef(f);
        }
        const double f   = static_cast<double>(ones) / shots;
        const double dev = 7 * std::sqrt(std::max(p.first * p.second, 0.) / shots) + 6. / shots;
        if (std::abs(f - p.second) > dev) {
            fail("outcome 1 in ", ones, " of ", shots, " measurements; its probability is ", p.second);
        }
        if (p.first > 1e-6 && p.second > 1e-6) {
            g.nontrivial();
        }
    }

    // states whose norm is not one (beyond epsilon) are rejected and stay as they are
    void rejected(Gen& g) {
        const int  n   = g.irange(1, 4);
        auto       pkg = makePkg(n);
        const auto f   = g.pick({0., 0.5, 0.9, 0.99, 0.999, 1., 1.001, 1.01, 1.1, 2.});
        auto       e   = vecDD(*pkg, scale(genState(g, n), f));
        pkg->incRef(e);
        const auto      v = readVec(e, n);
        std::mt19937_64 mt(g.below(1ULL << 20U));
        const int       q   = g.irange(0, n - 1);
        const double    eps = g.pick({0.001, 0.01, 0.5});
        const double    d   = std::abs(norm(v) * norm(v) - 1);
        g.note("norm^2 - 1 = ", d, ", epsilon ", eps);
        if (std::abs(d - eps) < 1e-9) {
            throw pb::Discard{};
        }
        if (g.oneIn(4)) { // a qubit the state doesn't have
            const auto p = pkg->determineMeasurementProbabilities(e, static_cast<dd::Qubit>(n + g.irange(0, 2)), g.flip());
            if (p.first != 0. || p.second != 0.) {
                fail("a qubit that the state doesn't have is measured with probabilities ", p.first, " and ", p.second);
            }
        }
        if (e.isTerminal()) {
            const auto p = pkg->determineMeasurementProbabilities(e, static_cast<dd::Qubit>(q), g.flip());
            if (p.first != 0. || p.second != 0.) {
                fail("a qubit of the zero vector is measured with probabilities ", p.first, " and ", p.second);
            }
        }
        bool thrown = false;
        try {
            pkg->measureOneCollapsing(e, static_cast<dd::Qubit>(q), g.flip(), mt, eps);
        } catch (const std::runtime_error&) {
            thrown = true;
        }
        if (thrown != (d > eps)) {
            fail("state with | |v|^2 - 1 | = ", d, thrown ? " rejected" : " accepted", " with epsilon ", eps);
        }
        if (thrown) {
            g.nontrivial();
            expectVec(readVec(e, n), v, 1e-12, "rejected state changed");
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C12",
                      "random vectors and circuit states of 1-6 qubits, all qubits and both normalisation modes; sequences of collapsing measurements with forced collections; 400-shot frequencies (7 sigma); wrong norms; "
                      "non-trivial: both outcomes of the measured qubit are possible, or the state is rejected",
                      {{"probabilities", 8, probabilities}, {"collapse", 8, collapse}, {"frequency", 1, frequency}, {"rejected", 2, rejected}}};
    return p;
}
