// C24: transferring a decision diagram to another package.
#include "inv.hpp"
using namespace rf;

namespace {
    C nearTie(Gen& g) {
        const double d = TOL * g.pick({0., 0.25, 0.5, 0.75, 0.9, 1., 1.1, 1.5, 2., 4.}) * (g.flip() ? 1. : -1.);
        return (S2 + d) * std::polar(1., g.pick({0., 1.5707963267948966, 3.14159265358979, 0.7, -2.1}));
    }
    Vec genNearTies(Gen& g, int n) {
        Vec v = {C{1., 0.}};
        for (int i = 0; i < n; ++i) {
            auto       lo = v;
            const auto a  = nearTie(g);
            const auto b  = nearTie(g);
            v             = scale(v, a);
            lo            = scale(g.oneIn(3) ? normalised(genVec(g, i, false)) : lo, b);
            v.insert(v.end(), lo.begin(), lo.end());
        }
        return v;
    }
    void histories(Gen& g) {
        const int n    = g.irange(1, 5);
        auto      from = makePkg(n);
        auto      to   = makePkg(n);
        struct Kept {
            dd::vEdge v{};
            dd::mEdge m{};
            bool      vec;
            int       n;
            Vec       ref;
        };
        std::vector<Kept> kept;
        bool              clean = true; // no weights near the tolerance so far
        for (auto k = 1 + g.below(4); k > 0; --k) {
            const bool back = g.oneIn(4); // the other way round
            auto&      p    = back ? *to : *from;
            auto&      q    = back ? *from : *to;
            if (g.flip()) {
                const auto kind = g.weighted({3, 2, 2, 2});
                const auto v    = kind == 0 ? genVec(g, n, false) : kind == 1 ? genVec(g, n) : kind == 2 ? genNearTies(g, n) : genState(g, n);
                clean           = clean && (kind == 0 || kind == 3);
                auto       e    = vecDD(p, v);
                const auto ref  = readVec(e, n);
                g.note("vector ", str(ref));
                const auto r = q.transfer(e);
                expectVec(readVec(r, n), ref, tolFor(maxAbs(ref)), "transferred vector");
                expectVec(readVec(e, n), ref, 0., "original vector");
                checkVector(q, r, false);
                checkContained(storedNodes<dd::vNode>(q), r);
                checkContained(storedNodes<dd::vNode>(p), e);
                // building it there directly
                if (clean) {
                    bool clear = true;
                    for (const auto& x: ref) {
                        clear = clear && (x == C{} || std::abs(x) > 1e-3 * maxAbs(ref));
                    }
                    if (clear && vecDD(q, ref).p != r.p) {
                        fail("the transferred vector has another node than the same vector built in the package");
                    }
                }
                q.incRef(r);
                kept.push_back({r, {}, true, n, ref});
                if (back) {
                    kept.pop_back();
                    q.decRef(r);
                }
                if (nonTrivialVec(ref)) {
                    g.nontrivial();
                }
            } else {
                const int nm   = std::min(n, 4);
                Mat       m;
                const auto kind = g.weighted({3, 2, 3, 1});
                switch (kind) {
                    case 0: m = genMat(g, nm, false); break;
                    case 1: m = genMat(g, nm); break;
                    case 2: m = genUnitary(g, nm); break;
                    default: {
                        m = Mat(1ULL << nm);
                        for (auto& x: m.a) {
                            x = nearTie(g);
                        }
                    }
                }
                clean          = clean && (kind == 0 || kind == 2);
                auto       e   = matDD(p, m);
                const auto ref = readMat(e, nm);
                g.note("matrix ", str(ref));
                const auto r = q.transfer(e);
                expectMat(readMat(r, nm), ref, tolFor(maxAbs(ref)), "transferred matrix");
                expectMat(readMat(e, nm), ref, 0., "original matrix");
                checkMatrix(q, r, false);
                checkContained(storedNodes<dd::mNode>(q), r);
                if (kind == 2) {
                    const auto v  = genState(g, nm);
                    auto       ve = vecDD(p, v);
                    expectVec(readVec(q.multiply(r, q.transfer(ve)), nm), mul(ref, readVec(ve, nm)), 1e-9, "transferred matrix times transferred vector");
                }
                if (!back) {
                    q.incRef(r);
                    kept.push_back({{}, r, false, nm, ref.a});
                }
                if (!e.isTerminal()) {
                    g.nontrivial();
                }
            }
            if (g.oneIn(3)) {
                from->garbageCollect(true);
            }
            if (g.oneIn(3)) {
                to->garbageCollect(true);
            }
        }
        // transferred diagrams do not depend on the package they come from
        from->reset();
        from.reset();
        for (const auto& x: kept) {
            if (x.vec) {
                expectVec(readVec(x.v, x.n), x.ref, tolFor(maxAbs(x.ref)), "transferred vector after the original package is gone");
            } else {
                expectVec(readMat(x.m, x.n).a, x.ref, tolFor(maxAbs(x.ref)), "transferred matrix after the original package is gone");
            }
        }
        if (to->cn.cacheCount() != 0) {
            fail("transfer kept cached numbers");
        }
    }
    void shared(Gen& g) {
        const int         n    = g.irange(5, 8);
        auto              from = makePkg(n);
        auto              to   = makePkg(n);
        std::vector<Gate> c;
        for (auto k = 4 + g.below(20); k > 0; --k) {
            c.push_back(genGate(g, n));
            g.note(str(c.back()));
        }
        auto v = runCircuit(*from, c, n);
        auto r = to->transfer(v);
        expectVec(readVec(r, n), readVec(v, n), 1e-9, "transferred state of a circuit");
        auto m = from->makeIdent(static_cast<dd::QubitCount>(n));
        for (std::size_t i = 0; i < c.size() && i < 6; ++i) {
            m = from->multiply(gateDD(*from, c[i], n), m);
        }
        auto rm = to->transfer(m);
        if (n <= 7) {
            expectMat(readMat(rm, n), readMat(m, n), 1e-9, "transferred matrix of a circuit");
        }
        auto back = from->transfer(r);
        expectVec(readVec(back, n), readVec(v, n), 1e-9, "state transferred there and back");
        if (std::abs(from->fidelity(back, v) - 1.) > 1e-9) {
            fail("fidelity after transferring there and back is ", from->fidelity(back, v));
        }
        g.nontrivial();
    }
    void scalars(Gen& g) {
        auto       from = makePkg(1);
        auto       to   = makePkg(1);
        const auto w    = from->cn.lookup(genScalar(g, false));
        dd::vEdge  e    = dd::vEdge::terminal(w);
        dd::mEdge  m    = dd::mEdge::terminal(w);
        const auto r    = to->transfer(e);
        const auto rm   = to->transfer(m);
        if (!r.isTerminal() || !rm.isTerminal() || !close(val(r.w), val(w), 1e-12) || !close(val(rm.w), val(w), 1e-12)) {
            fail("terminal edge with weight ", val(w), " is transferred as ", val(r.w), " / ", val(rm.w));
        }
        // the weight is a number of the receiving package
        checkStored(*to, r.w, "transferred scalar");
        checkStored(*to, rm.w, "transferred scalar");
        if (r.w != to->cn.lookup(val(w)) || rm.w != r.w) {
            fail("the weight of a transferred scalar is not the stored number");
        }
        from.reset();
        if (!close(val(r.w), val(to->cn.lookup(val(r.w))), 0.)) {
            fail("the weight of a transferred scalar changes with its original package");
        }
        g.nontrivial();
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C24",
                      "vectors and matrices of 1-8 qubits (dense, sparse, shared, near ties, weights near the tolerance, circuits) transferred between two used packages in both directions, with collections in between and the "
                      "first package destroyed at the end; non-trivial: at least two non-zero entries / any matrix that is not a scalar",
                      {{"histories", 12, histories}, {"shared", 1, shared}, {"scalars", 1, scalars}}};
    return p;
}
