// C29: deleting one successor of a qubit.
#include "inv.hpp"
using namespace rf;

namespace {
    void vectors(Gen& g) {
        const int  n   = anySize(g, 1, 6, 9);
        auto       pkg = makePkg(n);
        auto       e   = vecDD(*pkg, genVec(g, n, false));
        auto       r   = readVec(e, n);
        const auto e0  = e;
        const auto r0  = r;
        g.note(str(r));
        for (int k = g.irange(1, 3); k > 0; --k) {
            const auto q = g.irange(0, n - 1);
            const auto b = g.below(2);
            g.note("delete successor ", b, " of qubit ", q);
            const auto f    = pkg->deleteEdge(e, static_cast<dd::Qubit>(q), b);
            auto       want = r;
            for (std::size_t i = 0; i < want.size(); ++i) {
                if (((i >> q) & 1U) == b) {
                    want[i] = 0.;
                }
            }
            expectVec(readVec(f, n), want, tolFor(maxAbs(r)), "state without successor ", b, " of qubit ", q);
            expectVec(readVec(e, n), r, 0., "the given state changed");
            checkVector(*pkg, f, false);
            checkContained(storedNodes<dd::vNode>(*pkg), f);
            const auto again = pkg->deleteEdge(e, static_cast<dd::Qubit>(q), b);
            if (!(again == f)) {
                fail("deleting the same successor twice gives different diagrams");
            }
            if (maxAbs(want) > 1e-6 && maxAbs(add(want, scale(r, -1.))) > 1e-6) {
                g.nontrivial();
            }
            e = f;
            r = readVec(e, n);
        }
        expectVec(readVec(e0, n), r0, 0., "the original state changed");
    }
    void matrices(Gen& g) {
        const int  n   = anySize(g, 1, 4, 6);
        auto       pkg = makePkg(n);
        auto       e   = matDD(*pkg, genMat(g, n, false));
        auto       r   = readMat(e, n);
        const auto e0  = e;
        const auto r0  = r;
        g.note(str(r));
        for (int k = g.irange(1, 3); k > 0; --k) {
            const auto q = g.irange(0, n - 1);
            const auto b = g.below(4);
            g.note("delete successor ", b, " of qubit ", q);
            const auto f    = pkg->deleteEdge(e, static_cast<dd::Qubit>(q), b);
            auto       want = r;
            for (std::size_t i = 0; i < want.n; ++i) {
                for (std::size_t j = 0; j < want.n; ++j) {
                    if (2 * ((i >> q) & 1U) + ((j >> q) & 1U) == b) {
                        want(i, j) = 0.;
                    }
                }
            }
            expectMat(readMat(f, n), want, tolFor(maxAbs(r)), "matrix without successor ", b, " of qubit ", q);
            expectMat(readMat(e, n), r, 0., "the given matrix changed");
            checkMatrix(*pkg, f, false);
            checkContained(storedNodes<dd::mNode>(*pkg), f);
            if (maxAbs(want) > 1e-6 && maxAbs(add(want, scale(r, -1.))) > 1e-6) {
                g.nontrivial();
            }
            e = f;
            r = readMat(e, n);
        }
        expectMat(readMat(e0, n), r0, 0., "the original matrix changed");
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C29",
                      "sequences of deletions of successors of random qubits in arbitrary vectors (up to 6 qubits) and matrices (up to 4 qubits); "
                      "non-trivial: the deletion removes something and leaves something",
                      {{"vectors", 1, vectors}, {"matrices", 1, matrices}}};
    return p;
}
