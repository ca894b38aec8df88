// C09: Kronecker products and extension by identities.
#include "ref.hpp"
using namespace rf;

namespace {
    void vectors(Gen& g) {
        auto      pkg = makePkg(9);
        const int reps = 1 + g.irange(0, 3);
        std::vector<std::pair<dd::vEdge, Vec>> pool;
        std::vector<int>                       nq;
        const bool big = g.oneIn(24);
        for (int r = 0; r < reps; ++r) {
            auto get = [&](int max) -> std::size_t {
                if (!pool.empty() && g.flip()) {
                    const auto i = g.below(pool.size());
                    if (nq[i] <= max) {
                        return i;
                    }
                }
                const int  n = g.irange(g.oneIn(6) ? 0 : 1, std::min(big ? 5 : 3, max));
                const auto v = genVec(g, n);
                const auto e = vecDD(*pkg, v);
                g.note("v", pool.size(), " = ", str(v));
                pool.emplace_back(e, readVec(e, n));
                nq.push_back(n);
                return pool.size() - 1;
            };
            const auto a = get(big ? 6 : 4);
            const auto b = get((big ? 9 : 6) - nq[a]);
            if (nq[a] == 0 && nq[b] == 0) {
                continue;
            }
            // the number of levels of a zero vector is not represented in its decision diagram
            const auto& x = pool[a];
            const auto& y = pool[b];
            g.note("v", a, " (x) v", b);
            if (x.first.isTerminal() && nq[a] > 0) {
                continue;
            }
            if (y.first.isTerminal() && nq[b] > 0) {
                const auto e = pkg->kronecker(x.first, y.first);
                if (!val(e.w).real() && !val(e.w).imag()) {
                    continue;
                }
                fail("Kronecker product with the zero vector is not zero");
            }
            const auto e    = pkg->kronecker(x.first, y.first);
            const auto want = kron(x.second, y.second);
            const int  n    = nq[a] + nq[b];
            expectVec(readVec(e, n), want, tolFor(norm(want) + norm(x.second) + norm(y.second)), "v", a, " (x) v", b);
            expectVec(readVec(x.first, nq[a]), x.second, tolFor(norm(x.second)), "left operand changed");
            expectVec(readVec(y.first, nq[b]), y.second, tolFor(norm(y.second)), "right operand changed");
            if (nonTrivialVec(x.second) && nonTrivialVec(y.second)) {
                g.nontrivial();
            }
            if (norm(want) < 1e3) {
                pool.emplace_back(e, readVec(e, n));
                nq.push_back(n);
            }
        }
    }
    void matrices(Gen& g) {
        auto      pkg = makePkg(7);
        const int reps = 1 + g.irange(0, 3);
        std::vector<std::pair<dd::mEdge, Mat>> pool;
        std::vector<int>                       nq;
        const bool big = g.oneIn(24);
        for (int r = 0; r < reps; ++r) {
            auto get = [&](int max) -> std::size_t {
                if (!pool.empty() && g.flip()) {
                    const auto i = g.below(pool.size());
                    if (nq[i] <= max) {
                        return i;
                    }
                }
                const int n = g.irange(g.oneIn(6) ? 0 : 1, std::min(big ? 4 : 2, max));
                Mat       m;
                if (g.oneIn(3)) {
                    m = scale(Mat::ident(1ULL << n), genScalar(g));
                    g.tag("multiple of the identity");
                } else {
                    m = genMat(g, n);
                }
                const auto e = matDD(*pkg, m);
                g.note("M", pool.size(), " = ", str(m));
                pool.emplace_back(e, readMat(e, n));
                nq.push_back(n);
                return pool.size() - 1;
            };
            const auto a = get(big ? 4 : 3);
            const auto b = get((big ? 6 : 4) - nq[a]);
            g.note("M", a, " (x) M", b);
            const auto& x = pool[a];
            const auto& y = pool[b];
            if ((nq[a] == 0 && nq[b] == 0) || (x.first.isTerminal() && nq[a] > 0) || (y.first.isTerminal() && nq[b] > 0)) {
                continue;
            }
            const auto e    = pkg->kronecker(x.first, y.first);
            const auto want = kron(x.second, y.second);
            const int  n    = nq[a] + nq[b];
            expectMat(readMat(e, n), want, tolFor(4 * (norm(want) + norm(x.second) + norm(y.second))), "M", a, " (x) M", b);
            expectMat(readMat(y.first, nq[b]), y.second, tolFor(4 * norm(y.second)), "right operand changed");
            if (nonTrivialVec(x.second.a) && nonTrivialVec(y.second.a)) {
                g.nontrivial();
            }
            if (norm(want) < 1e3) {
                pool.emplace_back(e, readMat(e, n));
                nq.push_back(n);
            }
        }
    }
    void extend(Gen& g) {
        const int  n   = g.irange(1, 2);
        const int  h   = g.irange(0, 2);
        const int  l   = g.irange(0, 2);
        auto       pkg = makePkg(6);
        const auto m   = genMat(g, n);
        g.note(str(m), " extended by ", h, " on top and ", l, " at the bottom");
        const auto e = matDD(*pkg, m);
        const auto r = readMat(e, n);
        if (e.isTerminal()) {
            throw pb::Discard{};
        }
        const auto f = pkg->extend(e, static_cast<dd::Qubit>(h), static_cast<dd::Qubit>(l));
        expectMat(readMat(f, n + h + l), kron(kron(Mat::ident(1ULL << h), r), Mat::ident(1ULL << l)), tolFor(4 * norm(r)), "extension by ", h, " qubits on top and ", l, " at the bottom");
        if (h + l > 0 && nonTrivialVec(r.a)) {
            g.nontrivial();
        }
    }
    // upper operand built at its final position
    void placed(Gen& g) {
        const int  n     = g.irange(1, 2);
        const int  start = g.irange(1, 2);
        auto       pkg   = makePkg(n + start);
        const auto x     = genGate(g, n);
        auto       cs    = x.cs;
        for (auto& c: cs) {
            c.q += start;
        }
        const auto gd = pkg->makeGateDD(fromG1(x.u), static_cast<dd::QubitCount>(n), toControls(cs), static_cast<dd::Qubit>(x.t0 + start), static_cast<std::size_t>(start));
        const auto m  = genMat(g, start);
        const auto e  = matDD(*pkg, m);
        if (e.isTerminal()) {
            throw pb::Discard{};
        }
        const auto r = readMat(e, start);
        g.note(str(x), " from ", start, " (x) ", str(m));
        expectMat(readMat(pkg->kronecker(gd, e, false), n + start), kron(matOf(x, n), r), tolFor(4 * norm(r)), "gate built at its position, Kronecker product without index shift");
        std::vector<dd::BasisStates> st;
        for (int i = 0; i < n + start; ++i) {
            st.push_back(g.pick({dd::BasisStates::zero, dd::BasisStates::one, dd::BasisStates::plus, dd::BasisStates::left}));
        }
        const auto up = pkg->makeBasisState(static_cast<dd::QubitCount>(n), st, static_cast<std::size_t>(start));
        const auto v  = genVec(g, start);
        const auto lo = vecDD(*pkg, v);
        if (!lo.isTerminal()) {
            const auto lr = readVec(lo, start);
            expectVec(readVec(pkg->kronecker(up, lo, false), n + start), kron(readVec(up, n, start), lr), tolFor(norm(lr)), "state built at its position, Kronecker product without index shift");
        }
        g.nontrivial();
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C09",
                      "random vector and matrix operands of 0-4 qubits incl. multiples of the identity and earlier products, sequences in one package, extension by identities on both sides, operands built at an offset; "
                      "non-trivial: both operands have at least two non-zero entries",
                      {{"vectors", 3, vectors}, {"matrices", 4, matrices}, {"extend", 2, extend}, {"placed", 1, placed}}};
    return p;
}
