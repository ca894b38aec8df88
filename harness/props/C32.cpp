// C32: reset and resize.
#include "hist.hpp"
using namespace rf;

namespace {
    void empty(Pkg& p, const std::string& when) {
        const auto nodes = p.vUniqueTable.getNodeCount() + p.mUniqueTable.getNodeCount() + p.dUniqueTable.getNodeCount();
        if (nodes != 0 || !storedNodes<dd::vNode>(p).empty() || !storedNodes<dd::mNode>(p).empty() || !storedNodes<dd::dNode>(p).empty()) {
            fail(nodes, " nodes reported ", when, ", or nodes left in a table");
        }
        if (p.vUniqueTable.getActiveNodeCount() != 0 || p.mUniqueTable.getActiveNodeCount() != 0 || p.dUniqueTable.getActiveNodeCount() != 0) {
            fail("nodes in use reported ", when);
        }
        if (p.cn.cacheCount() != 0) {
            fail(p.cn.cacheCount(), " cached numbers in use ", when);
        }
    }
    void density(Gen& g, Pkg& p, int n) { // some density matrix work, whose results are not kept
        auto rho = p.makeZeroDensityOperator(static_cast<dd::QubitCount>(n));
        p.incRef(rho);
        for (int k = g.irange(1, 3); k > 0; --k) {
            const auto gate = genGate(g, n, true);
            auto       tmp  = gateDD(p, gate, n);
            p.applyOperationToDensity(rho, tmp, g.flip());
        }
    }
    void reset(Gen& g) {
        const int  n   = g.irange(1, 4);
        auto       pkg = makePkg(n + g.irange(0, 1));
        const int  reps = g.irange(1, 3);
        for (int r = 0; r < reps; ++r) {
            const auto before = genProgram(g, n, g.irange(0, 12));
            g.note("before: ", brief(before));
            Exec a(*pkg, n);
            a.run(before);
            if (g.oneIn(3)) {
                density(g, *pkg, n);
            }
            const auto held = a.vs.size() + a.ms.size();
            const auto work = !a.out.empty();
            pkg->reset();
            empty(*pkg, "after a reset");
            const auto after = genProgram(g, n, g.irange(1, 14));
            g.note("after: ", brief(after));
            auto fresh = makePkg(n);
            Exec x(*pkg, n);
            Exec y(*fresh, n);
            x.run(after);
            y.run(after);
            sameResults(x.out, y.out, "a program after a reset and in a new package");
            x.audit("after a reset");
            if (g.flip()) {
                x.release();
            }
            if (held > 0 && work && !x.out.empty()) {
                g.nontrivial();
            }
        }
    }
    void resize(Gen& g) {
        int        n   = g.irange(1, 3);
        auto       pkg = makePkg(n);
        const auto ops = genProgram(g, n, g.irange(1, 10));
        g.note(n, " qubits: ", brief(ops));
        Exec a(*pkg, n);
        a.run(ops);
        const auto vs = a.vs;
        const auto ms = a.ms;
        std::vector<Vec> rv;
        std::vector<Mat> rm;
        for (const auto& e: vs) {
            rv.push_back(readVec(e, n));
        }
        for (const auto& e: ms) {
            rm.push_back(readMat(e, n));
        }
        if (g.oneIn(4)) { // too large: rejected, and nothing changes
            const auto big    = static_cast<std::size_t>(129 + g.irange(0, 200));
            bool       thrown = false;
            try {
                pkg->resize(big);
            } catch (const std::invalid_argument&) {
                thrown = true;
            }
            if (!thrown || pkg->qubits() != static_cast<std::size_t>(n)) {
                fail("resizing to ", big, " qubits was ", thrown ? "rejected but changed the number of qubits" : "accepted");
            }
            try {
                Pkg another(big);
                fail("a package of ", big, " qubits was created");
            } catch (const std::invalid_argument&) {
            }
        }
        const int m = n + g.irange(0, 2);
        pkg->resize(static_cast<std::size_t>(m));
        if (pkg->qubits() != static_cast<std::size_t>(m)) {
            fail("the package reports ", pkg->qubits(), " qubits after a resize to ", m);
        }
        a.audit("after a resize");
        const auto more = genProgram(g, m, g.irange(1, 10));
        g.note(m, " qubits: ", brief(more));
        auto fresh = makePkg(m);
        Exec x(*pkg, m);
        Exec y(*fresh, m);
        x.run(more);
        y.run(more);
        sameResults(x.out, y.out, "a program after a resize and in a new package");
        for (std::size_t i = 0; i < vs.size(); ++i) {
            expectVec(readVec(vs[i], n), rv[i], 1e-9 * (1 + norm(rv[i])), "a vector made before the resize");
        }
        for (std::size_t i = 0; i < ms.size(); ++i) {
            expectMat(readMat(ms[i], n), rm[i], 1e-9 * (1 + maxAbs(rm[i])), "a matrix made before the resize");
        }
        if (m < 7) { // one qubit too many is rejected
            bool thrown = false;
            try {
                pkg->makeZeroState(static_cast<dd::QubitCount>(m + 1));
            } catch (const std::runtime_error&) {
                thrown = true;
            }
            if (!thrown) {
                fail("a state of ", m + 1, " qubits was made in a package resized to ", m);
            }
        }
        for (const auto& e: a.vs) {
            pkg->decRef(e);
        }
        for (const auto& e: a.ms) {
            pkg->decRef(e);
        }
        x.audit("after releasing what was made before the resize");
        x.release();
        if (m > n && !a.out.empty()) {
            g.nontrivial();
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C32",
                      "random programs, then a reset or a resize, then random programs compared with the same programs in a new package, with the tables, references and earlier diagrams inspected; "
                      "non-trivial: diagrams were held at the reset, or the package grew",
                      {{"reset", 3, reset}, {"resize", 2, resize}}};
    return p;
}
