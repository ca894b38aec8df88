// C10: trace and partial trace.
#include "ref.hpp"
using namespace rf;

namespace {
    Mat ptrace(const Mat& m, int n, const std::vector<bool>& el) {
        std::vector<int> keep;
        std::vector<int> drop;
        for (int q = 0; q < n; ++q) {
            (el[static_cast<std::size_t>(q)] ? drop : keep).push_back(q);
        }
        auto spread = [](std::size_t x, const std::vector<int>& qs) {
            std::size_t r = 0;
            for (std::size_t i = 0; i < qs.size(); ++i) {
                r |= ((x >> i) & 1U) << qs[i];
            }
            return r;
        };
        Mat r(1ULL << keep.size());
        for (std::size_t i = 0; i < r.n; ++i) {
            for (std::size_t j = 0; j < r.n; ++j) {
                for (std::size_t k = 0; k < (1ULL << drop.size()); ++k) {
                    r(i, j) += m(spread(i, keep) | spread(k, drop), spread(j, keep) | spread(k, drop));
                }
            }
        }
        return r;
    }
    void partial(Gen& g) {
        const int  n   = anySize(g, 1, 4, 6);
        auto       pkg = makePkg(n + g.irange(0, 2));
        Mat        m;
        if (g.oneIn(3)) { // projector onto a random state: a density matrix
            const auto v = genState(g, n);
            m            = Mat(v.size());
            for (std::size_t i = 0; i < v.size(); ++i) {
                for (std::size_t j = 0; j < v.size(); ++j) {
                    m(i, j) = v[i] * std::conj(v[j]);
                }
            }
        } else {
            m = genMat(g, n);
        }
        g.note(str(m));
        const auto e = matDD(*pkg, m);
        const auto r = readMat(e, n);
        const auto tol = tolFor(4 * norm(r) * std::sqrt(static_cast<double>(r.n)));
        const int  reps = 1 + g.irange(0, 2);
        for (int k = 0; k < reps; ++k) {
            std::vector<bool> el;
            int               kept = 0;
            for (int q = 0; q < n; ++q) {
                el.push_back(g.flip());
                kept += el.back() ? 0 : 1;
            }
            std::string d;
            for (const bool b: el) {
                d += b ? "x" : "-";
            }
            if (g.oneIn(4)) {
                el.push_back(false);
            }
            g.note("eliminate ", d);
            const auto t = pkg->partialTrace(e, el);
            expectMat(readMat(t, kept), ptrace(r, n, el), tol, "partial trace over ", d, " (lowest qubit first)");
            if (kept > 0 && kept < n && nonTrivialVec(r.a)) {
                g.nontrivial();
            }
            expectMat(readMat(e, n), r, tol, "operand changed by the partial trace");
        }
        C tr{};
        for (std::size_t i = 0; i < r.n; ++i) {
            tr += r(i, i);
        }
        const auto got = val(pkg->trace(e));
        if (!close(got, tr, tol)) {
            fail("trace is ", got, ", expected ", tr);
        }
    }
    // tr(AB) = tr(BA); the trace of a Kronecker product is the product of the traces
    void laws(Gen& g) {
        const int  n   = anySize(g, 1, 3, 5);
        auto       pkg = makePkg(2 * n);
        const auto a   = matDD(*pkg, genMat(g, n, false));
        const auto b   = matDD(*pkg, genMat(g, n, false));
        const auto ra  = readMat(a, n);
        const auto rb  = readMat(b, n);
        g.note("A = ", str(ra));
        g.note("B = ", str(rb));
        const auto sc  = tolFor(64 * (1 + norm(ra)) * (1 + norm(rb)));
        const auto ab  = val(pkg->trace(pkg->multiply(a, b)));
        const auto ba  = val(pkg->trace(pkg->multiply(b, a)));
        if (!close(ab, ba, sc)) {
            fail("tr(AB) = ", ab, " but tr(BA) = ", ba);
        }
        if (a.isTerminal() || b.isTerminal()) {
            return;
        }
        const auto k  = val(pkg->trace(pkg->kronecker(a, b)));
        const auto pr = val(pkg->trace(a)) * val(pkg->trace(b));
        if (!close(k, pr, sc)) {
            fail("trace of the Kronecker product is ", k, ", product of the traces ", pr);
        }
        if (nonTrivialVec(ra.a) && nonTrivialVec(rb.a)) {
            g.nontrivial();
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C10",
                      "random matrices of 1-4 qubits (incl. density matrices of random states) and random sets of eliminated qubits, several per matrix; trace identities of products; "
                      "non-trivial: a proper non-empty subset is eliminated from a matrix with at least two non-zero entries",
                      {{"partial", 4, partial}, {"laws", 1, laws}}};
    return p;
}
