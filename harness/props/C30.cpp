// C30: the check for closeness to the identity.
#include "ref.hpp"
using namespace rf;

namespace {
    enum class Verdict { yes,
                         no,
                         unclear };
    // m has been divided by its first entry; `lo`: deviations certainly accepted, `hiD`/`hiO`: certainly rejected on and off the diagonal
    Verdict block(const Mat& m, std::size_t at, std::size_t dim, double lo, double hiD, double hiO) {
        if (dim == 1) {
            const auto d = std::abs(m(at, at) - 1.);
            return d <= lo ? Verdict::yes : d > hiD ? Verdict::no :
                                                      Verdict::unclear;
        }
        const auto h   = dim / 2;
        double     off = 0;
        double     low = 0;
        for (std::size_t i = 0; i < h; ++i) {
            for (std::size_t j = 0; j < h; ++j) {
                off = std::max({off, std::abs(m(at + i, at + h + j)), std::abs(m(at + h + i, at + j))});
                low = std::max(low, std::abs(m(at + h + i, at + h + j)));
            }
        }
        auto v = off <= lo ? Verdict::yes : off > hiO ? Verdict::no :
                                                        Verdict::unclear;
        const auto a = block(m, at, h, lo, hiD, hiO);
        const auto b = low == 0. ? Verdict::yes : low < std::max(hiD, hiO) ? Verdict::unclear : // an ancillary qubit (squared magnitudes are compared)
                                                          block(m, at + h, h, lo, hiD, hiO);
        for (const auto x: {a, b}) {
            if (x == Verdict::no) {
                return x;
            }
            v = x == Verdict::unclear && v == Verdict::yes ? x : v;
        }
        return v;
    }
    void decide(Gen& g, Pkg& pkg, const dd::mEdge& e, int n, double tol, bool given) {
        if (e.isTerminal()) {
            throw pb::Discard{};
        }
        const auto r   = readMat(e, n);
        const auto got = given ? pkg.isCloseToIdentity(e, tol) : pkg.isCloseToIdentity(e);
        const auto mx  = maxAbs(r);
        if (std::abs(r(0, 0)) < mx * 1e-2) {
            if (std::abs(r(0, 0)) < 1e-9 * mx && got) {
                fail("a matrix whose first entry is ", r(0, 0), " is taken for the identity: ", str(r));
            }
            return;
        }
        const auto m  = scale(r, 1. / r(0, 0));
        const auto lo = tol / 20. > 1e-11 ? tol / 20. : 0.;
        const auto v  = block(m, 0, m.n, std::max(lo, 5e-12), (3. * n + 1.) * tol + 1e-8, 2. * std::sqrt(tol) + 1e-8);
        if (v == Verdict::unclear) {
            g.tag("unclear");
            return;
        }
        g.tag(v == Verdict::yes ? "close" : "different");
        if (got != (v == Verdict::yes)) {
            fail(got ? "taken" : "not taken", " for the identity with tolerance ", tol, ": ", str(r));
        }
        const auto d = maxAbs(add(m, scale(Mat::ident(m.n), -1.)));
        if (d > 0.) {
            g.nontrivial();
        }
    }
    void any(Gen& g) {
        const int  n   = anySize(g, 1, 4, 6);
        auto       pkg = makePkg(n);
        const bool giv = g.flip();
        const auto tol = giv ? g.pick({1e-10, 1e-8, 1e-6, 1e-4, 1e-2}) : 1e-10;
        Mat        m;
        switch (g.below(5)) {
            case 0: m = genMat(g, n, false); break;
            case 1: { // diagonal of zeros and ones
                m = Mat::ident(1ULL << n);
                for (int k = g.irange(0, n); k > 0; --k) {
                    const auto i = static_cast<std::size_t>(g.below(m.n));
                    m(i, i)      = 0.;
                }
                break;
            }
            case 2: { // identity on all but some ancillary qubits
                m = Mat::ident(1);
                for (int q = 0; q < n; ++q) {
                    auto f = Mat::ident(2);
                    if (g.flip()) {
                        f(1, 1) = 0.;
                    }
                    m = kron(f, m);
                }
                break;
            }
            default: { // identity with deviations around the tolerance
                m = Mat::ident(1ULL << n);
                for (int k = g.irange(1, 4); k > 0; --k) {
                    const auto i = static_cast<std::size_t>(g.below(m.n));
                    const auto j = g.flip() ? i : static_cast<std::size_t>(g.below(m.n));
                    const auto s = (i == j ? tol : std::sqrt(tol)) * std::pow(10., g.real(-3., 3.));
                    m(i, j) += std::polar(s, g.real(-3.2, 3.2));
                }
                break;
            }
        }
        if (g.oneIn(3)) {
            m = scale(m, g.flip() ? std::polar(1., g.real(-3.2, 3.2)) : genExact(g));
        }
        g.note(str(m), " tolerance ", tol);
        decide(g, *pkg, matDD(*pkg, m), n, tol, giv);
    }
    // a circuit followed by its inverse, possibly with one gate changed
    void circuits(Gen& g) {
        const int         n   = anySize(g, 1, 5, 7);
        auto              pkg = makePkg(n);
        std::vector<Gate> c;
        for (int k = g.irange(1, 8); k > 0; --k) {
            c.push_back(genGate(g, n));
        }
        auto d = c;
        if (g.flip()) {
            const auto k = g.below(d.size());
            if (g.flip()) {
                d[k].u[3] *= std::polar(1., g.real(-3.2, 3.2)); // still unitary for diagonal gates only, which does not matter here
            } else {
                d[k] = genGate(g, n);
            }
        }
        auto e = pkg->makeIdent(static_cast<dd::QubitCount>(n));
        for (const auto& x: c) {
            g.note(str(x));
            e = pkg->multiply(gateDD(*pkg, x, n), e);
        }
        for (auto it = d.rbegin(); it != d.rend(); ++it) {
            g.note("inverse of ", str(*it));
            e = pkg->multiply(pkg->conjugateTranspose(gateDD(*pkg, *it, n)), e);
        }
        decide(g, *pkg, e, n, 1e-10, false);
        // whatever was computed, the difference to the identity itself decides
        const auto id = pkg->makeIdent(static_cast<dd::QubitCount>(n));
        if (!pkg->isCloseToIdentity(id)) {
            fail("the identity is not close to the identity");
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C30",
                      "identities with deviations around the tolerance on and off the diagonal, with ancillary qubits and global factors, other matrices, and circuits followed by their (possibly changed) inverse; "
                      "non-trivial: the verdict is determined and the matrix is not exactly a multiple of the identity",
                      {{"matrices", 3, any}, {"circuits", 2, circuits}}};
    return p;
}
