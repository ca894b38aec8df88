// C07: multiplication of decision diagrams is the matrix-vector and matrix-matrix product.
#include "ref.hpp"
using namespace rf;

namespace {
    void product(Gen& g) {
        const int              n   = anySize(g, 1, 4, 6);
        auto                   pkg = makePkg(n + g.irange(0, 1));
        std::vector<dd::mEdge> ms;
        std::vector<Mat>       mr;
        std::vector<dd::vEdge> vs;
        std::vector<Vec>       vr;
        const int              a = 1 + g.irange(0, 2);
        for (int i = 0; i < a; ++i) {
            const auto m = genMat(g, n);
            g.note("M", i, " = ", str(m));
            ms.push_back(matDD(*pkg, m));
            mr.push_back(readMat(ms.back(), n));
        }
        const int b = 1 + g.irange(0, 1);
        for (int i = 0; i < b; ++i) {
            const auto v = genVec(g, n);
            g.note("v", i, " = ", str(v));
            vs.push_back(vecDD(*pkg, v));
            vr.push_back(readVec(vs.back(), n));
        }
        const int steps = 1 + g.irange(0, 6);
        for (int s = 0; s < steps; ++s) {
            const auto i = g.below(ms.size());
            if (g.flip()) {
                const auto j = g.below(vs.size());
                g.note("M", i, " * v", j, " -> v", vs.size());
                if (nonTrivialVec(mr[i].a) && nonTrivialVec(vr[j])) {
                    g.nontrivial();
                }
                const auto e    = pkg->multiply(ms[i], vs[j]);
                const auto got  = readVec(e, n);
                const auto sc   = norm(mr[i]) * norm(vr[j]);
                expectVec(got, mul(mr[i], vr[j]), tolFor(sc + norm(mr[i]) + norm(vr[j])), "step ", s, ": M", i, " * v", j);
                expectVec(readVec(vs[j], n), vr[j], tolFor(norm(vr[j])), "step ", s, ": vector operand changed");
                if (sc < 1e4) {
                    vs.push_back(e);
                    vr.push_back(got);
                }
            } else {
                const auto j = g.below(ms.size());
                g.note("M", i, " * M", j, " -> M", ms.size());
                if (nonTrivialVec(mr[i].a) && nonTrivialVec(mr[j].a) && i != j) {
                    g.nontrivial();
                }
                const auto e   = pkg->multiply(ms[i], ms[j]);
                const auto got = readMat(e, n);
                const auto sc  = norm(mr[i]) * norm(mr[j]);
                expectMat(got, mul(mr[i], mr[j]), tolFor(sc + norm(mr[i]) + norm(mr[j])), "step ", s, ": M", i, " * M", j);
                expectMat(readMat(ms[j], n), mr[j], tolFor(norm(mr[j])), "step ", s, ": matrix operand changed");
                if (sc < 1e4) {
                    ms.push_back(e);
                    mr.push_back(got);
                }
            }
        }
    }

    // circuits: applying gates one after the other equals applying the accumulated matrix
    void circuit(Gen& g) {
        const int n   = anySize(g, 1, 5, 8);
        auto      pkg = makePkg(n);
        auto      v   = vecDD(*pkg, genState(g, n));
        auto      r   = readVec(v, n);
        const auto r0 = r;
        const auto v0 = v;
        auto      u   = pkg->makeIdent(static_cast<dd::QubitCount>(n));
        const int k   = 1 + g.irange(0, 9);
        for (int i = 0; i < k; ++i) {
            const auto x  = genGate(g, n);
            const auto gd = gateDD(*pkg, x, n);
            g.note(str(x));
            v = pkg->multiply(gd, v);
            u = pkg->multiply(gd, u);
            r = mul(matOf(x, n), r);
            expectVec(readVec(v, n), r, 1e-9, "state after gate ", i, " ", str(x));
        }
        g.nontrivial();
        expectVec(readVec(pkg->multiply(u, v0), n), r, 1e-9, "accumulated circuit matrix applied to the initial state");
        expectVec(mul(readMat(u, n), r0), r, 1e-9, "accumulated circuit matrix");
    }

    // decision diagrams on the qubits start, ..., start + n - 1
    void withStart(Gen& g) {
        const int  n     = anySize(g, 1, 3, 4);
        const int  start = g.irange(1, 3);
        auto       pkg   = makePkg(n + start);
        const auto qn    = static_cast<dd::QubitCount>(n);
        const auto st    = static_cast<std::size_t>(start);
        auto       v     = pkg->makeZeroState(qn, st);
        Vec        r(1ULL << n, C{});
        r[0]        = 1.;
        const int k = 1 + g.irange(0, 5);
        for (int i = 0; i < k; ++i) {
            const auto x   = genGate(g, n);
            auto       cs  = x.cs;
            for (auto& c: cs) {
                c.q += start;
            }
            const auto m = pkg->makeGateDD(fromG1(x.u), qn, toControls(cs), static_cast<dd::Qubit>(x.t0 + start), st);
            g.note(str(x), " from ", start);
            v = pkg->multiply(m, v, static_cast<dd::Qubit>(start));
            r = mul(matOf(x, n), r);
            expectVec(readVec(v, n, start), r, 1e-9, "state after gate ", i, " ", str(x), " with start ", start);
        }
        g.nontrivial();
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C07",
                      "random pools of matrix and vector DDs and random sequences of matrix-vector and matrix-matrix products over them (results re-enter the pool), random circuits applied gate by gate and as accumulated matrix, "
                      "operations on DDs with a start offset; non-trivial: both operands have at least two non-zero entries",
                      {{"products", 5, product}, {"circuit", 3, circuit}, {"start", 1, withStart}}};
    return p;
}
