// C11: inner product, fidelity, expectation value, overlap with measured outcomes.
#include "inv.hpp"
using namespace rf;

namespace {
    void inner1(Gen& g) {
        const int              n   = anySize(g, 1, 6, 10);
        auto                   pkg = makePkg(n);
        std::vector<dd::vEdge> es;
        std::vector<Vec>       vs;
        const int              k = 2 + g.irange(0, 1);
        for (int i = 0; i < k; ++i) {
            auto v = g.oneIn(3) ? genVec(g, n) : genState(g, n);
            if (i > 0 && g.oneIn(5)) { // related state
                v = scale(vs[0], genExact(g));
            }
            g.note("v", i, " = ", str(v));
            es.push_back(vecDD(*pkg, v));
            vs.push_back(readVec(es.back(), n));
        }
        const int steps = 1 + g.irange(0, 4);
        for (int s = 0; s < steps; ++s) {
            const auto a   = g.below(es.size());
            const auto b   = g.below(es.size());
            const auto ip  = inner(vs[a], vs[b]);
            const auto sc  = (1 + norm(vs[a])) * (1 + norm(vs[b]));
            const auto tol = tolFor(4 * sc);
            g.note("<v", a, "|v", b, ">");
            const auto got = val(pkg->innerProduct(es[a], es[b]));
            if (!close(got, ip, tol)) {
                fail("inner product of v", a, " and v", b, " is ", got, ", expected ", ip);
            }
            const auto f = pkg->fidelity(es[a], es[b]);
            if (!close(f, std::norm(ip), tol * (1 + sc))) {
                fail("fidelity of v", a, " and v", b, " is ", f, ", expected ", std::norm(ip));
            }
            if (std::abs(ip.imag()) > 1e-6 && a != b) {
                g.nontrivial();
            }
            expectVec(readVec(es[a], n), vs[a], tolFor(norm(vs[a])), "operand changed");
            if (g.oneIn(4)) { // new operand from a gate
                const auto x = genGate(g, n);
                es.push_back(pkg->multiply(gateDD(*pkg, x, n), es[b]));
                vs.push_back(readVec(es.back(), n));
            }
        }
    }
    void expectation(Gen& g) {
        const int  n   = anySize(g, 1, 4, 6);
        auto       pkg = makePkg(n + 1);
        const auto ob  = matDD(*pkg, genHermitian(g, n));
        const auto v   = vecDD(*pkg, genState(g, n));
        if (ob.isTerminal()) {
            throw pb::Discard{};
        }
        const auto m = readMat(ob, n);
        const auto r = readVec(v, n);
        g.note("O = ", str(m));
        g.note("v = ", str(r));
        pkg->incRef(ob);
        pkg->incRef(v);
        const auto want = inner(r, mul(m, r)).real();
        const auto tol  = tolFor(8 * (1 + norm(m)));
        const bool pressed = g.oneIn(10); // collections become due, for want of space in the table of numbers
        if (pressed) {
            lowerCollectionLimit(*pkg);
        }
        for (int k = 0; k < 2; ++k) {
            if (pressed) {
                makeCollectionDue(*pkg);
            }
            const auto got = pkg->expectationValue(ob, v);
            if (!close(got, want, tol)) {
                fail("expectation value is ", got, ", expected ", want, k > 0 ? " (second evaluation)" : "");
            }
        }
        expectVec(readVec(v, n), r, 1e-9, "state changed by the expectation value");
        expectMat(readMat(ob, n), m, tol, "observable changed by the expectation value");
        if (maxAbs(add(m, scale(Mat::ident(m.n), -m(0, 0)))) > 1e-6) {
            g.nontrivial();
        }
        // an observable on another number of qubits is rejected
        const auto big = pkg->makeIdent(static_cast<dd::QubitCount>(n + 1));
        bool       thrown = false;
        try {
            pkg->expectationValue(big, v);
        } catch (const std::invalid_argument&) {
            thrown = true;
        }
        if (!thrown) {
            fail("expectation value of an observable on ", n + 1, " qubits in a state of ", n, " qubits was accepted");
        }
    }
    void outcomes(Gen& g) {
        const int             n   = anySize(g, 1, 6, 9);
        auto                  pkg = makePkg(n);
        const auto            v   = vecDD(*pkg, g.oneIn(4) ? genVec(g, n, false) : genState(g, n));
        const auto            r   = readVec(v, n);
        dd::ProbabilityVector p{};
        double                want = 0.;
        const auto            k    = g.below(r.size() + 1);
        for (std::size_t j = 0; j < k; ++j) {
            const auto i = g.below(r.size());
            if (p.find(i) != p.end()) {
                continue;
            }
            const double w = g.flip() ? g.unit() : 0.5;
            p[i]           = w;
            want += std::abs(r[i]) * std::sqrt(w);
        }
        g.note("v = ", str(r), ", ", p.size(), " outcomes");
        const auto got = pkg->fidelityOfMeasurementOutcomes(v, p);
        if (!close(got, want, tolFor(static_cast<double>(r.size()) * norm(r)))) {
            fail("overlap with the measured outcomes is ", got, ", expected ", want);
        }
        if (p.size() > 1 && nonTrivialVec(r)) {
            g.nontrivial();
        }
    }
    // a sum of a few basis states of many qubits (more than fit in a 32-bit index)
    void wideOutcomes(Gen& g) {
        const int  n   = g.irange(20, 64);
        auto       pkg = makePkg(n);
        const auto k   = 1 + g.below(5);
        g.note(n, " qubits");
        std::map<std::uint64_t, C> amp;
        auto bits = [&] { return (g.below(1ULL << 32U) << 32U) | g.below(1ULL << 32U); };
        const auto                 base = bits();
        for (std::uint64_t j = 0; j < k; ++j) {
            auto i = g.flip() ? bits() : base ^ (1ULL << g.below(64)); // unrelated ones, and ones that differ in a single bit
            i &= n == 64 ? ~0ULL : (1ULL << n) - 1U;
            amp[i] = g.pick<C>({{1., 0.}, {0.6, 0.}, {0., -0.8}, {0.5, 0.5}, {-0.3, 0.4}});
        }
        dd::vEdge e = dd::vEdge::zero;
        for (const auto& [i, a]: amp) {
            std::vector<bool> b01(static_cast<std::size_t>(n));
            for (int q = 0; q < n; ++q) {
                b01[static_cast<std::size_t>(q)] = ((i >> q) & 1U) != 0U;
            }
            auto b = pkg->makeBasisState(static_cast<dd::QubitCount>(n), b01);
            b.w    = pkg->cn.lookup(a);
            g.note("|", i, "> * ", a);
            e = e.p == nullptr || e.w.exactlyZero() ? b : pkg->add(e, b);
        }
        dd::ProbabilityVector p{};
        double                want = 0.;
        for (const auto& [i, a]: amp) {
            if (g.oneIn(4)) {
                continue;
            }
            const double w = g.flip() ? g.unit() : 0.5;
            p[i]           = w;
            want += std::abs(a) * std::sqrt(w);
        }
        for (auto j = g.below(4); j > 0; --j) { // outcomes that are not in the state
            const auto i = amp.begin()->first ^ (1ULL << g.below(static_cast<std::uint64_t>(n)));
            if (amp.find(i) == amp.end()) {
                p[i] = 0.25;
            }
        }
        const auto got = pkg->fidelityOfMeasurementOutcomes(e, p);
        if (!close(got, want, 1e-9)) {
            fail("overlap of a state of ", n, " qubits with the measured outcomes is ", got, ", expected ", want);
        }
        double nn = 0.;
        for (const auto& [i, a]: amp) {
            nn += std::norm(a);
        }
        const auto ip = val(pkg->innerProduct(e, e));
        if (!close(ip, nn, 1e-9)) {
            fail("inner product of a state of ", n, " qubits with itself is ", ip, ", expected ", nn);
        }
        if (n > 32 && amp.size() > 1 && !p.empty()) {
            g.nontrivial();
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C11",
                      "inner products and fidelities over pools of related and unrelated vectors, expectation values of random Hermitian observables, overlaps with random outcome distributions, for states of up to 64 qubits; "
                      "non-trivial: an inner product with an imaginary part, an observable other than a multiple of the identity, or at least two outcomes",
                      {{"inner", 4, inner1}, {"expectation", 3, expectation}, {"outcomes", 1, outcomes}, {"wideOutcomes", 1, wideOutcomes}}};
    return p;
}
