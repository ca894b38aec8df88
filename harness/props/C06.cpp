// C06: addition of vector and matrix decision diagrams.
#include "ref.hpp"
using namespace rf;

namespace {
    // sums of multiples of the same few diagrams with weights that are exchanged, conjugated, negated, … : all of them
    // are similar to others that are in the operation cache
    template<class E, class Read>
    void weighted(Gen& g, rf::Pkg& pkg, const E& x, const E& y, Read&& read) {
        std::vector<C> ws;
        for (int i = 0; i < 2; ++i) {
            ws.push_back(g.oneIn(4) ? C{1., 0.} : genScalar(g, false));
        }
        const Vec  rx = read(x), ry = read(y);
        const auto mx = maxAbs(rx), my = maxAbs(ry);
        if (x.w == dd::Complex::zero || y.w == dd::Complex::zero) {
            return;
        }
        for (auto steps = 3 + g.below(6); steps > 0; --steps) {
            C p = ws[g.below(2)], q = ws[g.below(2)];
            switch (g.below(8)) {
                case 0: p = std::conj(p); break;
                case 1: q = std::conj(q); break;
                case 2: p = -p; break;
                case 3: q = -q; break;
                case 4: p = C{p.imag(), p.real()}; break;
                default: break;
            }
            E a = x, b = y;
            a.w = pkg.cn.lookup(p);
            b.w = pkg.cn.lookup(q);
            if (a.w == dd::Complex::zero || b.w == dd::Complex::zero) {
                continue;
            }
            const C va = val(a.w) / val(x.w), vb = val(b.w) / val(y.w);
            g.note(str(Vec{p, q}));
            const bool turned = g.flip();
            const auto got    = read(turned ? pkg.add(b, a) : pkg.add(a, b));
            expectVec(got, add(scale(rx, va), scale(ry, vb)), tolFor((std::abs(va) + 1.) * mx + (std::abs(vb) + 1.) * my) * static_cast<double>(rx.size()), "sum of multiples of two diagrams");
        }
        g.nontrivial();
    }
    void weightedVectors(Gen& g) {
        const int  n   = g.oneIn(4) ? g.irange(5, 8) : g.irange(1, 4);
        auto       pkg = makePkg(n);
        const auto x   = vecDD(*pkg, genVec(g, n, false));
        const auto y   = g.oneIn(6) ? x : vecDD(*pkg, genVec(g, n, false));
        if (x.w.approximatelyZero() || y.w.approximatelyZero() || std::abs(val(x.w)) < 1e-3 || std::abs(val(y.w)) < 1e-3) {
            return;
        }
        weighted(g, *pkg, x, y, [n](const dd::vEdge& e) { return readVec(e, n); });
    }
    void weightedMatrices(Gen& g) {
        const int  n   = g.oneIn(4) ? 5 : g.irange(1, 4);
        auto       pkg = makePkg(n);
        const auto x   = matDD(*pkg, genMat(g, n, false));
        const auto y   = matDD(*pkg, genMat(g, n, false));
        if (x.w.approximatelyZero() || y.w.approximatelyZero() || std::abs(val(x.w)) < 1e-3 || std::abs(val(y.w)) < 1e-3) {
            return;
        }
        weighted(g, *pkg, x, y, [n](const dd::mEdge& e) { return readMat(e, n).a; });
    }
    void addVectors(Gen& g) {
        const int n   = g.oneIn(8) ? g.irange(6, 8) : g.irange(1, 5);
        auto      pkg = makePkg(n);
        // pool of operands, so that later additions find earlier results in the operation cache
        std::vector<dd::vEdge> pool;
        std::vector<Vec>       ref;
        const auto             k = 2 + g.irange(0, 2);
        for (int i = 0; i < k; ++i) {
            const auto v = genVec(g, n);
            pool.push_back(vecDD(*pkg, v));
            ref.push_back(readVec(pool.back(), n));
            g.note("operand ", i, ": ", str(v));
        }
        const auto steps = 1 + g.irange(0, 7);
        for (int s = 0; s < steps; ++s) {
            const auto a = g.below(pool.size());
            const auto b = g.below(pool.size());
            if (nonTrivialVec(ref[a]) && nonTrivialVec(ref[b]) && a != b) {
                g.nontrivial();
            }
            const auto sum  = pkg->add(pool[a], pool[b]);
            const auto want = add(ref[a], ref[b]);
            const auto sc   = maxAbs(ref[a]) + maxAbs(ref[b]) + norm(ref[a]) + norm(ref[b]);
            g.note("add(", a, ",", b, ")");
            const auto got = readVec(sum, n);
            expectVec(got, want, tolFor(sc), "step ", s, ": vector sum of operands ", a, " and ", b);
            expectVec(readVec(pool[a], n), ref[a], tolFor(norm(ref[a])), "step ", s, ": left operand changed by the addition");
            expectVec(readVec(pool[b], n), ref[b], tolFor(norm(ref[b])), "step ", s, ": right operand changed by the addition");
            if (maxAbs(got) < 1e-9 && sc > 1e-3) {
                g.tag("cancelled to zero");
            }
            pool.push_back(sum);
            ref.push_back(got);
        }
    }
    void addMatrices(Gen& g) {
        const int              n   = g.oneIn(12) ? 5 : g.irange(1, 4);
        auto                   pkg = makePkg(n);
        std::vector<dd::mEdge> pool;
        std::vector<Mat>       ref;
        const auto             k = 2 + g.irange(0, 1);
        for (int i = 0; i < k; ++i) {
            const auto m = genMat(g, n);
            pool.push_back(matDD(*pkg, m));
            ref.push_back(readMat(pool.back(), n));
            g.note("operand ", i, ": ", str(m));
        }
        const auto steps = 1 + g.irange(0, 5);
        for (int s = 0; s < steps; ++s) {
            const auto a = g.below(pool.size());
            const auto b = g.below(pool.size());
            if (nonTrivialVec(ref[a].a) && nonTrivialVec(ref[b].a) && a != b) {
                g.nontrivial();
            }
            const auto sum  = pkg->add(pool[a], pool[b]);
            const auto want = add(ref[a], ref[b]);
            const auto sc   = (maxAbs(ref[a]) + maxAbs(ref[b])) * 4;
            g.note("add(", a, ",", b, ")");
            const auto got = readMat(sum, n);
            expectMat(got, want, tolFor(sc), "step ", s, ": matrix sum of operands ", a, " and ", b);
            expectMat(readMat(pool[a], n), ref[a], tolFor(maxAbs(ref[a])), "step ", s, ": left operand changed by the addition");
            pool.push_back(sum);
            ref.push_back(got);
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C06",
                      "random pools of vector/matrix DDs (dense, sparse, shared blocks, products, unitary, near-tolerance entries) and random sequences of additions, "
                      "and sums of multiples of the same two diagrams with exchanged, conjugated, negated weights, each compared entrywise with dense addition; non-trivial: two different operands with at least two non-zero entries each",
                      {{"vectors", 3, addVectors}, {"matrices", 3, addMatrices}, {"weightedVectors", 1, weightedVectors}, {"weightedMatrices", 1, weightedMatrices}}};
    return p;
}
