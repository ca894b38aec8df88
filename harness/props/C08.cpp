// C08: transposition and conjugate transposition.
#include "ref.hpp"
using namespace rf;

namespace {
    void laws(Gen& g) {
        const int              n   = anySize(g, 1, 4, 7);
        auto                   pkg = makePkg(n);
        std::vector<dd::mEdge> ms;
        std::vector<Mat>       mr;
        const int              k = 1 + g.irange(0, 1);
        for (int i = 0; i < k; ++i) {
            auto m = genMat(g, n);
            if (g.oneIn(5)) {
                m = add(m, transpose(m)); // symmetric
            }
            g.note("M", i, " = ", str(m));
            ms.push_back(matDD(*pkg, m));
            mr.push_back(readMat(ms.back(), n));
            if (maxAbs(add(mr.back(), scale(transpose(mr.back()), -1.))) > 1e-9) {
                g.nontrivial();
                if (maxAbs(add(mr.back(), scale(adjoint(mr.back()), -1.))) < 1e-9) {
                    g.tag("Hermitian, not symmetric");
                }
            } else if (maxAbs(add(mr.back(), scale(adjoint(mr.back()), -1.))) > 1e-9) {
                g.tag("complex symmetric");
            } else {
                g.tag("real symmetric");
            }
        }
        const int steps = 1 + g.irange(0, 5);
        for (int s = 0; s < steps; ++s) {
            const auto i   = g.below(ms.size());
            const auto tol = tolFor(4 * norm(mr[i]));
            const auto op  = g.below(4);
            g.note("op ", op, " on M", i);
            dd::mEdge e{};
            Mat       want;
            switch (op) {
                case 0:
                    e    = pkg->transpose(ms[i]);
                    want = transpose(mr[i]);
                    expectMat(readMat(e, n), want, tol, "transpose");
                    expectMat(readMat(pkg->transpose(e), n), mr[i], tol, "transpose of the transpose");
                    break;
                case 1:
                    e    = pkg->conjugateTranspose(ms[i]);
                    want = adjoint(mr[i]);
                    expectMat(readMat(e, n), want, tol, "conjugate transpose");
                    expectMat(readMat(pkg->conjugateTranspose(e), n), mr[i], tol, "conjugate transpose of the conjugate transpose");
                    break;
                case 2: {
                    const auto j = g.below(ms.size());
                    const auto t = tolFor(4 * norm(mr[i]) * norm(mr[j]) + norm(mr[i]) + norm(mr[j]));
                    e            = pkg->conjugateTranspose(pkg->multiply(ms[i], ms[j]));
                    want         = mul(adjoint(mr[j]), adjoint(mr[i]));
                    expectMat(readMat(e, n), want, t, "conjugate transpose of a product");
                    break;
                }
                default: {
                    const auto j = g.below(ms.size());
                    e            = pkg->transpose(pkg->add(ms[i], ms[j]));
                    want         = transpose(add(mr[i], mr[j]));
                    expectMat(readMat(e, n), want, tolFor(4 * (norm(mr[i]) + norm(mr[j]))), "transpose of a sum");
                    break;
                }
            }
            expectMat(readMat(ms[i], n), mr[i], tol, "operand changed");
            const auto got = readMat(e, n);
            if (norm(got) < 1e3) {
                ms.push_back(e);
                mr.push_back(got);
            }
            if (g.oneIn(8)) { // scaled copies share nodes with the original
                auto f = ms[i];
                const auto s2 = genExact(g);
                if (s2 != C{}) {
                    f.w = pkg->cn.lookup(val(f.w).real() * s2.real() - val(f.w).imag() * s2.imag(), val(f.w).real() * s2.imag() + val(f.w).imag() * s2.real());
                    if (!f.w.exactlyZero()) {
                        ms.push_back(f);
                        mr.push_back(readMat(f, n));
                    }
                }
            }
        }
    }
    void unitary(Gen& g) {
        const int  n   = anySize(g, 1, 4, 6);
        auto       pkg = makePkg(n);
        auto       u   = pkg->makeIdent(static_cast<dd::QubitCount>(n));
        const int  k   = 1 + g.irange(0, 7);
        for (int i = 0; i < k; ++i) {
            const auto x = genGate(g, n);
            g.note(str(x));
            u = pkg->multiply(gateDD(*pkg, x, n), u);
        }
        g.nontrivial();
        const auto ud = pkg->conjugateTranspose(u);
        expectMat(readMat(pkg->multiply(u, ud), n), Mat::ident(1ULL << n), 1e-9, "U times its conjugate transpose");
        expectMat(readMat(pkg->multiply(ud, u), n), Mat::ident(1ULL << n), 1e-9, "conjugate transpose of U times U");
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C08",
                      "random matrices (incl. symmetric, Hermitian, unitary, shared blocks, scaled copies of the same nodes) and sequences of transposes, conjugate transposes, of products and sums, results re-entering the pool; "
                      "circuit unitaries; non-trivial: a non-symmetric matrix or a circuit",
                      {{"laws", 5, laws}, {"unitary", 2, unitary}}};
    return p;
}
