// C16: symmetric/identity marks of matrix nodes and the identity constructor.
#include "inv.hpp"
using namespace rf;

namespace {
    // matrix represented by a node of level v (weight one)
    Mat nodeMat(const dd::mNode* p) {
        dd::mEdge e{const_cast<dd::mNode*>(p), dd::Complex::one};
        return readMat(e, p->v + 1);
    }
    // exact entries for which flags must also be complete
    bool exactEntries(const Mat& m) {
        return std::all_of(m.a.begin(), m.a.end(), [](const C& c) { return c == C{} || std::abs(c) > 1e-2; });
    }
    void checkFlags(const dd::mEdge& root, bool complete) {
        std::set<const void*> seen;
        forNodes(root, seen, [&](const dd::mNode* p) {
            const auto m   = nodeMat(p);
            double     sym = 0;
            double     id  = 0;
            for (std::size_t i = 0; i < m.n; ++i) {
                for (std::size_t j = 0; j < m.n; ++j) {
                    sym = std::max(sym, std::abs(m(i, j) - m(j, i)));
                    id  = std::max(id, std::abs(m(i, j) - (i == j ? C{1., 0.} : C{})));
                }
            }
            if (p->isIdentity() && id > 1e-9) {
                fail("node marked as identity represents ", str(m));
            }
            if (p->isSymmetric() && sym > 1e-9) {
                fail("node marked as symmetric represents ", str(m));
            }
            if (complete && !p->isIdentity() && id < 1e-14) {
                fail("node representing the identity of ", p->v + 1, " qubits is not marked");
            }
            if (complete && !p->isSymmetric() && sym < 1e-14) {
                fail("symmetric node is not marked: ", str(m));
            }
        });
    }
    Mat genSym(Gen& g, int n) {
        switch (g.below(6)) {
            case 0: {
                auto m = genMat(g, n, false);
                return scale(add(m, transpose(m)), 0.5);
            }
            case 1: { // block [[A, B], [B^T, D]] with one entry changed
                auto m = genMat(g, n, false);
                m      = scale(add(m, transpose(m)), 0.5);
                m.a[g.below(m.a.size())] += genExact(g);
                return m;
            }
            case 2: { // identity blocks
                Mat m(1ULL << n);
                m = Mat::ident(m.n);
                if (g.flip()) {
                    m(g.below(m.n), g.below(m.n)) = genExact(g);
                }
                if (g.oneIn(3)) {
                    m = scale(m, genExact(g));
                }
                return m;
            }
            case 3: return genUnitary(g, n, true);
            case 4: { // antisymmetric blocks with symmetric diagonal
                const auto a = genMat(g, std::max(1, n - 1), false);
                Mat        m(1ULL << n);
                if (n == 1) {
                    return a;
                }
                const auto h = m.n / 2;
                const auto f = genExact(g);
                for (std::size_t i = 0; i < h; ++i) {
                    for (std::size_t j = 0; j < h; ++j) {
                        m(i, j + h) = a(i, j);
                        m(i + h, j) = a(j, i) * f;
                        m(i, j)     = i == j ? 1. : 0.;
                        m(i + h, j + h) = a(i, j) + a(j, i);
                    }
                }
                return m;
            }
            default: return genMat(g, n, false);
        }
    }
    void flags(Gen& g) {
        const int n   = anySize(g, 1, 4, 6);
        auto      pkg = makePkg(n);
        auto&     p   = *pkg;
        std::vector<dd::mEdge> pool;
        std::vector<bool>      complete;
        bool                   all = true;
        const auto steps = 1 + g.irange(0, 9);
        for (int s = 0; s < steps; ++s) {
            dd::mEdge  e{};
            const auto a = pool.empty() ? 0 : g.below(pool.size());
            const auto b = pool.empty() ? 0 : g.below(pool.size());
            switch (pool.empty() ? g.below(3) : g.below(9)) {
                case 0: {
                    const auto m = genSym(g, n);
                    g.note("M", pool.size(), " = ", str(m));
                    e = matDD(p, m);
                    break;
                }
                case 1: {
                    const auto x = genGate(g, n);
                    g.note("M", pool.size(), " = ", str(x));
                    e = gateDD(p, x, n);
                    break;
                }
                case 2: e = p.makeIdent(static_cast<dd::QubitCount>(n)); break;
                case 3: e = p.multiply(pool[a], pool[b]); break;
                case 4: e = p.add(pool[a], pool[b]); break;
                case 5: e = p.transpose(pool[a]); break;
                case 6: e = p.add(pool[a], p.transpose(pool[a])); break;
                case 7: e = p.conjugateTranspose(pool[a]); break;
                default:
                    p.decRef(pool[a]);
                    pool.erase(pool.begin() + static_cast<long>(a));
                    p.garbageCollect(true);
                    continue;
            }
            if (std::abs(val(e.w)) > 1e3) {
                continue;
            }
            p.incRef(e);
            pool.push_back(e);
            all = all && exactEntries(readMat(e, n));
            checkFlags(e, all);
        }
        for (const auto& e: pool) {
            checkFlags(e, all);
        }
        g.nontrivial();
    }

    // makeIdent is the identity whatever happened before, for every range of qubits
    void identities(Gen& g) {
        const int nq  = g.irange(1, 7);
        auto      pkg = makePkg(nq);
        auto&     p   = *pkg;
        const auto steps = 2 + g.irange(0, 10);
        for (int s = 0; s < steps; ++s) {
            switch (g.weighted({6, 6, 1, 1, 1, 1, 2})) {
                case 0: {
                    const int n = g.irange(0, nq);
                    g.note("makeIdent(", n, ")");
                    const auto e = p.makeIdent(static_cast<dd::QubitCount>(n));
                    if (n == 0) {
                        if (!e.isTerminal() || val(e.w) != C{1., 0.}) {
                            fail("identity on no qubits is not the number one");
                        }
                        break;
                    }
                    expectMat(readMat(e, n), Mat::ident(1ULL << n), 1e-12, "makeIdent(", n, ")");
                    if (!e.p->isIdentity()) {
                        fail("makeIdent(", n, ") is not marked as identity");
                    }
                    if (g.flip()) {
                        p.incRef(e);
                    }
                    break;
                }
                case 1: {
                    const int lo = g.irange(0, nq - 1);
                    const int hi = g.irange(lo, nq - 1);
                    g.note("makeIdent(", lo, ", ", hi, ")");
                    const auto e = p.makeIdent(static_cast<dd::Qubit>(lo), static_cast<dd::Qubit>(hi));
                    expectMat(readMat(e, hi - lo + 1, lo), Mat::ident(1ULL << (hi - lo + 1)), 1e-12, "makeIdent(", lo, ", ", hi, ")");
                    if (lo > 0) {
                        g.nontrivial();
                    }
                    break;
                }
                case 2: p.garbageCollect(true); break;
                case 3: p.clearIdentityTable(); break;
                case 4: p.reset(); break;
                case 5: p.clearComputeTables(); break;
                default: {
                    const auto x = genGate(g, nq);
                    expectMat(readMat(gateDD(p, x, nq), nq), matOf(x, nq), 1e-10, str(x));
                    break;
                }
            }
            // the cached identities are identities
            const auto& t = p.getIdentityTable();
            for (std::size_t i = 0; i < t.size(); ++i) {
                if (t[i].p != nullptr && i < 6) {
                    expectMat(readMat(t[i], static_cast<int>(i) + 1), Mat::ident(2ULL << i), 1e-12, "identity table entry ", i);
                }
            }
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C16",
                      "random histories of symmetric, nearly symmetric, block and identity-like matrices (1-4 qubits), gates, products, sums, transposes, collections: every reachable node's marks against its dense matrix; "
                      "random sequences of identity constructions over all qubit ranges with collections and resets in between; non-trivial: every history / an identity not starting at qubit 0",
                      {{"flags", 1, flags}, {"identities", 1, identities}}};
    return p;
}
