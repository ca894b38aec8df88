// C27: simulating on density matrices: applying an operation maps rho to U rho U^dagger.
#include "inv.hpp"
using namespace rf;

namespace {
    struct DMConfig: public dd::DDPackageConfig {
#ifdef PBT_TINY
        static constexpr std::size_t UT_DM_NBUCKET                 = 16U;
        static constexpr std::size_t UT_DM_INITIAL_ALLOCATION_SIZE = 4U;
        static constexpr std::size_t CT_DM_DM_MULT_NBUCKET         = 16U;
        static constexpr std::size_t CT_DM_ADD_NBUCKET             = 16U;
        static constexpr std::size_t CT_DM_NOISE_NBUCKET           = 4U;
        static constexpr std::size_t UT_MAT_NBUCKET                = 16U;
        static constexpr std::size_t CT_MAT_CONJ_TRANS_NBUCKET     = 8U;
        static constexpr std::size_t CT_MAT_ADD_NBUCKET            = 16U;
#else
        static constexpr std::size_t UT_DM_NBUCKET                 = 65536U;
        static constexpr std::size_t UT_DM_INITIAL_ALLOCATION_SIZE = 4096U;
        static constexpr std::size_t CT_DM_DM_MULT_NBUCKET         = 256U;
        static constexpr std::size_t CT_DM_ADD_NBUCKET             = 16384U;
        static constexpr std::size_t CT_DM_NOISE_NBUCKET           = 4096U;
        static constexpr std::size_t UT_MAT_NBUCKET                = 16384U;
        static constexpr std::size_t CT_MAT_CONJ_TRANS_NBUCKET     = 4096U;
        static constexpr std::size_t CT_MAT_ADD_NBUCKET            = 4096U;
#endif
        static constexpr std::size_t CT_VEC_ADD_NBUCKET             = 64U;
        static constexpr std::size_t CT_MAT_TRANS_NBUCKET           = 64U;
        static constexpr std::size_t CT_MAT_MAT_MULT_NBUCKET        = 64U;
        static constexpr std::size_t CT_MAT_VEC_MULT_NBUCKET        = 64U;
        static constexpr std::size_t UT_VEC_NBUCKET                 = 64U;
        static constexpr std::size_t UT_VEC_INITIAL_ALLOCATION_SIZE = 16U;
        static constexpr std::size_t UT_MAT_INITIAL_ALLOCATION_SIZE = 16U;
        static constexpr std::size_t CT_VEC_KRON_NBUCKET            = 64U;
        static constexpr std::size_t CT_MAT_KRON_NBUCKET            = 64U;
        static constexpr std::size_t CT_VEC_INNER_PROD_NBUCKET      = 64U;
        static constexpr std::size_t STOCHASTIC_CACHE_OPS           = 1U;
    };
    using DPkg = dd::Package<DMConfig>;

    // temporary markers must not stay behind in stored nodes
    void checkStoredNodes(DPkg& p) {
        for (const auto* x: storedNodes<dd::dNode>(p)) {
            const auto* n = static_cast<const dd::dNode*>(x);
            if ((n->flags & 7U) != 0U) {
                fail("a stored node carries the temporary flags ", static_cast<int>(n->flags & 7U));
            }
            for (const auto& c: n->e) {
                if ((reinterpret_cast<std::uintptr_t>(c.p) & 7U) != 0U) {
                    fail("a stored node refers to a successor through a marked pointer");
                }
            }
        }
    }
    void checkProbabilities(DPkg& p, const dd::dEdge& s, const Mat& rho, int n, double threshold) {
        const auto probs = p.getProbVectorFromDensityMatrix(s, threshold);
        for (std::size_t i = 0; i < rho.n; ++i) {
            std::string key; // qubit 0 first
            for (int q = 0; q < n; ++q) {
                key += ((i >> q) & 1U) != 0U ? '1' : '0';
            }
            const auto it = probs.find(key);
            const auto pr = rho(i, i).real();
            if (it == probs.end()) {
                if (pr > threshold + 1e-9) {
                    fail("outcome ", key, " of probability ", pr, " is missing");
                }
            } else if (std::abs(it->second - pr) > 1e-9) {
                fail("outcome ", key, " has probability ", it->second, " instead of ", pr);
            }
        }
        for (const auto& [k, v]: probs) {
            if (static_cast<int>(k.size()) != n) {
                fail("outcome ", k, " for ", n, " qubits");
            }
        }
    }
    // a forced collection reports whether it removed anything
    void collect(DPkg& p) {
        const auto count  = [&p]() { return std::array{p.vUniqueTable.getNodeCount(), p.mUniqueTable.getNodeCount(), p.dUniqueTable.getNodeCount(), p.cn.complexTable.getCount()}; };
        const auto before = count();
        const bool r      = p.garbageCollect(true);
        const bool real   = count() != before;
        if (r != real) {
            fail("a collection reports ", r ? "success" : "that nothing was collected", ", but ", real ? "removed" : "didn't remove", " something: ", before[0], "/", before[1], "/", before[2], "/", before[3], " -> ", count()[0], "/", count()[1], "/", count()[2], "/", count()[3]);
        }
    }
    struct State {
        dd::dEdge e{};
        Mat       rho;
    };
    void simulate(Gen& g) {
        const int          n      = g.irange(1, 4);
        auto               pkg    = std::make_unique<DPkg>(static_cast<std::size_t>(n));
        auto&              p      = *pkg;
        const bool         reduce = g.mostly(4); // store only half of the Hermitian matrix
        const bool         mixed  = g.oneIn(4); // change between both forms
        std::vector<State> states;
        for (auto k = g.oneIn(3) ? 2 : 1; k > 0; --k) {
            State s;
            s.e = p.makeZeroDensityOperator(static_cast<dd::QubitCount>(n));
            p.incRef(s.e);
            s.rho       = Mat(1ULL << n);
            s.rho(0, 0) = 1.;
            expectMat(fromCMat(p.getDensityMatrix(s.e)), s.rho, 0., "initial density matrix");
            states.push_back(s);
        }
        const auto steps    = 1 + g.below(10);
        const bool everyOne = g.flip();
        for (std::uint64_t k = 0; k < steps; ++k) {
            auto& s = states[g.below(states.size())];
            Mat   u;
            dd::mEdge op{};
            switch (g.weighted({8, 2, 2})) {
                case 0: {
                    const auto x = genGate(g, n);
                    g.note(str(x));
                    u  = matOf(x, n);
                    op = gateDD(p, x, n);
                    break;
                }
                case 1: // unitary
                    u  = genUnitary(g, n);
                    op = matDD(p, u);
                    g.note("unitary ", str(u));
                    break;
                default: { // one branch of a noise channel
                    Gate x;
                    x.name = "K";
                    x.t0   = g.irange(0, n - 1);
                    const auto pr = g.pick({0.5, 0.25, 0.1, 0.9});
                    switch (g.below(3)) {
                        case 0: x.u = {C{1.}, C{}, C{}, C{std::sqrt(1 - pr)}}; break;
                        case 1: x.u = {C{}, C{std::sqrt(pr)}, C{}, C{}}; break;
                        default: x.u = {C{std::sqrt(1 - pr)}, C{}, C{}, C{std::sqrt(1 - pr)}}; break;
                    }
                    g.note("noise branch on ", x.t0, ", probability ", pr);
                    u  = matOf(x, n);
                    op = gateDD(p, x, n);
                    break;
                }
            }
            const auto next = mul(mul(u, s.rho), adjoint(u));
            if (maxAbs(next) < 1e-6) { // the branch does not occur
                continue;
            }
            s.rho = next;
            const bool r = mixed ? g.flip() : reduce;
            g.note(r ? "reduced" : "full");
            p.applyOperationToDensity(s.e, op, r);
            g.nontrivial();
            if (everyOne || k + 1 == steps) {
                for (auto& t: states) {
                    expectMat(fromCMat(p.getDensityMatrix(t.e)), t.rho, 1e-9, "density matrix after ", k + 1, " operations");
                }
                checkStoredNodes(p);
            }
            if (g.oneIn(6)) {
                collect(p);
                for (auto& t: states) {
                    expectMat(fromCMat(p.getDensityMatrix(t.e)), t.rho, 1e-9, "density matrix after a collection");
                }
            }
            if (p.cn.cacheCount() != 0) {
                fail("applying an operation kept ", p.cn.cacheCount(), " cached numbers");
            }
        }
        for (auto& s: states) {
            checkProbabilities(p, s.e, s.rho, n, g.pick({0.001, 0., 0.1, 0.3}));
            expectMat(fromCMat(p.getDensityMatrix(s.e)), s.rho, 1e-9, "density matrix after reading probabilities");
        }
        // exactly the nodes of the states stay
        collect(p);
        Live live;
        for (auto& s: states) {
            auto e = s.e;
            dd::dEdge::alignDensityEdge(e);
            live.add(e);
        }
        const auto all = storedNodes<dd::dNode>(p);
        if (all.size() != live.nodes.size()) {
            fail(all.size(), " density nodes stay after a collection, ", live.nodes.size(), " are in use");
        }
        for (auto& s: states) {
            dd::dEdge::alignDensityEdge(s.e);
            p.decRef(s.e);
        }
        collect(p);
        if (!storedNodes<dd::dNode>(p).empty()) {
            fail("density nodes stay although none is referenced");
        }
    }
    // a Kraus map: the sum of the branches
    dd::dEdge mixture(DPkg& p, const dd::dEdge& e, const std::vector<dd::mEdge>& branches) {
        dd::dEdge sum{};
        for (const auto& k: branches) {
            auto t = e;
            auto a = e;
            dd::dEdge::alignDensityEdge(a);
            p.incRef(a); // the operation releases it
            p.applyOperationToDensity(t, k, true);
            dd::dEdge::alignDensityEdge(t);
            if (sum.p == nullptr) {
                sum = t;
                continue;
            }
            const auto next = p.add(sum, t);
            p.incRef(next);
            p.decRef(sum);
            p.decRef(t);
            sum = next;
        }
        dd::dEdge::setDensityMatrixTrue(sum);
        return sum;
    }
    // a density matrix, pure or mixed, is the left operand of a product, which is stored in full or reduced
    void products(Gen& g) {
        const int   n   = g.irange(1, 3);
        auto        pkg = std::make_unique<DPkg>(static_cast<std::size_t>(n));
        auto&       p   = *pkg;
        State       s; // reduced
        s.e = p.makeZeroDensityOperator(static_cast<dd::QubitCount>(n));
        p.incRef(s.e);
        s.rho       = Mat(1ULL << n);
        s.rho(0, 0) = 1.;
        const auto same = [&](const char* what) {
            expectMat(fromCMat(p.getDensityMatrix(s.e)), s.rho, 1e-9 * std::max(1., maxAbs(s.rho)), "the state after ", what);
            checkStoredNodes(p);
            if (p.cn.cacheCount() != 0) {
                fail(what, " kept ", p.cn.cacheCount(), " cached numbers");
            }
        };
        const auto unitary = [&]() { return g.flip() ? genUnitary(g, n) : matOf(genGate(g, n), n); };
        for (auto k = 1 + g.below(6); k > 0; --k) {
            if (g.oneIn(3)) { // a mixture of unitaries
                const auto             pr = g.pick({0.5, 0.25, 0.9});
                const std::vector<Mat> us{scale(unitary(), C{std::sqrt(pr)}), scale(g.oneIn(3) ? Mat::ident(1ULL << n) : unitary(), C{std::sqrt(1 - pr)})};
                g.note("mixture of ", str(us[0]), " and ", str(us[1]));
                const auto next = mixture(p, s.e, {matDD(p, us[0]), matDD(p, us[1])});
                dd::dEdge::alignDensityEdge(s.e);
                p.decRef(s.e);
                s.e     = next;
                s.rho   = add(mul(mul(us[0], s.rho), adjoint(us[0])), mul(mul(us[1], s.rho), adjoint(us[1])));
                same("a mixture");
                continue;
            }
            const auto u = unitary();
            g.note("unitary ", str(u));
            s.rho = mul(mul(u, s.rho), adjoint(u));
            p.applyOperationToDensity(s.e, matDD(p, u), true);
            same("a unitary");
        }
        g.nontrivial();
        for (auto k = 1 + g.below(6); k > 0; --k) {
            switch (g.below(3)) {
                case 0: { // rho U
                    const auto u = unitary();
                    g.note("times ", str(u));
                    auto r = p.multiply(s.e, dd::densityFromMatrixEdge(matDD(p, u)), 0, false);
                    expectMat(fromCMat(p.getDensityMatrix(r)), mul(s.rho, u), 1e-9, "product with a matrix");
                    same("a product with a matrix");
                    break;
                }
                case 1: { // the square and cube
                    g.note("powers");
                    const auto m  = dd::densityFromMatrixEdge(matDD(p, s.rho));
                    const auto r2 = mul(s.rho, s.rho);
                    auto       e  = p.multiply(s.e, m, 0, true);
                    dd::dEdge::setDensityMatrixTrue(e);
                    expectMat(fromCMat(p.getDensityMatrix(e)), r2, 1e-9, "square");
                    same("squaring");
                    e = p.multiply(e, m, 0, true);
                    dd::dEdge::setDensityMatrixTrue(e);
                    expectMat(fromCMat(p.getDensityMatrix(e)), mul(r2, s.rho), 1e-9, "cube");
                    same("taking the cube");
                    break;
                }
                default: {
                    g.note("times the identity");
                    auto r = p.multiply(s.e, dd::densityFromMatrixEdge(p.makeIdent(static_cast<dd::QubitCount>(n))), 0, true);
                    dd::dEdge::setDensityMatrixTrue(r);
                    expectMat(fromCMat(p.getDensityMatrix(r)), s.rho, 1e-9, "product with the identity");
                    same("a reduced product with the identity");
                    break;
                }
            }
            if (g.oneIn(4)) {
                g.note("collection");
                collect(p);
                same("a collection");
            }
        }
    }
    // a pure state evolves like its vector
    void pure(Gen& g) {
        const int         n   = g.irange(2, 5);
        auto              pkg = std::make_unique<DPkg>(static_cast<std::size_t>(n));
        auto&             p   = *pkg;
        std::vector<Gate> c;
        auto              s = p.makeZeroDensityOperator(static_cast<dd::QubitCount>(n));
        p.incRef(s);
        for (auto k = 1 + g.below(14); k > 0; --k) {
            c.push_back(genGate(g, n));
            g.note(str(c.back()));
            p.applyOperationToDensity(s, gateDD(p, c.back(), n), true);
        }
        const auto v = runCircuitRef(c, n);
        Mat        rho(v.size());
        for (std::size_t i = 0; i < v.size(); ++i) {
            for (std::size_t j = 0; j < v.size(); ++j) {
                rho(i, j) = v[i] * std::conj(v[j]);
            }
        }
        expectMat(fromCMat(p.getDensityMatrix(s)), rho, 1e-9, "density matrix of a pure state");
        checkProbabilities(p, s, rho, n, 0.001);
        checkStoredNodes(p);
        g.nontrivial();
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C27",
                      "random sequences of gates, unitaries and noise branches applied to one or two density matrices of 1-5 qubits, stored reduced or in full, with collections in between, against dense matrices; outcome "
                      "probabilities; products and powers of density matrices; markers left behind; nodes left after releasing; non-trivial: at least one operation applied",
                      {{"simulate", 6, simulate}, {"pure", 2, pure}, {"products", 3, products}}};
    return p;
}
