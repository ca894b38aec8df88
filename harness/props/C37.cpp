// C37: the numerical tolerance can be chosen: results are off by at most a multiple of it.
#include "hist.hpp"
using namespace rf;

namespace {
    struct Tolerance { // static in the package: put back whatever happens
        explicit Tolerance(double t):
            old(dd::ComplexTable<>::tolerance()) {
            dd::ComplexNumbers::setTolerance(t);
        }
        ~Tolerance() { dd::ComplexNumbers::setTolerance(old); }
        Tolerance(const Tolerance&) = delete;
        double old;
    };
    double pickTolerance(Gen& g) {
        const double t = g.pick({1e-15, 1e-14, 1e-12, 1e-11, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 5e-6});
        g.note("tolerance ", t);
        return t;
    }
    // a program with the chosen tolerance and with the default one
    void programs(Gen& g) {
        const int  n    = g.irange(1, 4);
        const auto t    = pickTolerance(g);
        const auto prog = genProgram(g, n, g.irange(2, 16), false);
        g.note(n, " qubits: ", brief(prog));
        std::vector<Vec> want;
        {
            auto p = makePkg(n);
            Exec x(*p, n);
            x.run(prog);
            want = x.out;
        }
        Tolerance set(t);
        auto      p = makePkg(n);
        Exec      x(*p, n);
        x.run(prog);
        if (x.out.size() != want.size()) {
            throw pb::Discard{}; // a result just at the size limit
        }
        double big = 1.;
        for (const auto& v: want) {
            big = std::max(big, norm(v));
        }
        const double tol = 1e-9 * big + 2. * t * (1. + static_cast<double>(prog.size())) * big * big;
        for (std::size_t i = 0; i < want.size(); ++i) {
            expectVec(x.out[i], want[i], tol, "with a tolerance of ", t, ", result ", i);
        }
        x.audit("with another tolerance");
        x.release();
        if (want.size() > 2) {
            g.nontrivial();
        }
    }
    // circuits: a unitary evolution does not amplify the error
    void circuits(Gen& g) {
        const int         n = g.irange(1, 7);
        const auto        t = pickTolerance(g);
        std::vector<Gate> c;
        for (auto k = 1 + g.below(40); k > 0; --k) {
            c.push_back(genGate(g, n));
            g.note(str(c.back()));
        }
        Tolerance  set(t);
        auto       p    = makePkg(n);
        const auto e    = runCircuit(*p, c, n);
        const auto got  = readVec(e, n);
        const auto want = runCircuitRef(c, n);
        const auto tol  = 1e-10 + 1. * t * (1. + static_cast<double>(c.size())) * (1. + n);
        double     d    = 0.;
        for (std::size_t i = 0; i < got.size(); ++i) {
            d = std::max(d, std::abs(got[i] - want[i]));
        }
        if (!(d <= tol)) {
            fail("with a tolerance of ", t, " a circuit of ", c.size(), " gates on ", n, " qubits is off by ", d);
        }
        if (nonTrivialVec(want) && c.size() > 2) {
            g.nontrivial();
        }
    }
    // states that differ by much less than the tolerance are the same diagram, those that differ by much more are not
    void merging(Gen& g) {
        const int n = g.irange(1, 4);
        const auto t = g.pick({1e-12, 1e-10, 1e-8, 1e-6});
        g.note("tolerance ", t);
        Tolerance set(t);
        auto      p = makePkg(n);
        // all entries of similar size, so that all weights are
        Vec v(1ULL << n);
        for (auto& x: v) {
            x = std::polar(g.real(0.5, 1.), g.real(0., 6.28));
        }
        v             = normalised(v);
        const auto a  = vecDD(*p, v);
        const auto i  = g.below(v.size());
        auto       u  = v;
        const bool far = g.flip();
        u[i] += std::polar(far ? 200. * t : t * 1e-2, g.real(0., 6.28));
        const auto b = vecDD(*p, u);
        g.note("v = ", str(v), ", entry ", i, far ? " changed by much more than" : " changed by much less than", " the tolerance");
        if (far && a == b) {
            fail("states that differ by 200 times the tolerance are the same diagram");
        }
        if (!far) {
            // a number next to the border of another entry's range may be told apart; but never is anything lost
            const auto d = readVec(b, n);
            for (std::size_t k = 0; k < d.size(); ++k) {
                if (std::abs(d[k] - u[k]) > 20. * t * (1. + n)) {
                    fail("entry ", k, " is ", d[k], ", expected ", u[k], " up to the tolerance ", t);
                }
            }
            if (a == b) {
                g.tag("merged");
            } else {
                g.tag("told apart");
            }
        }
        // the very same vector gives the very same diagram
        if (vecDD(*p, v) != a) {
            fail("the same vector gives another diagram");
        }
        g.nontrivial();
    }
    // identities are recognised up to the tolerance: U^dagger U is the identity diagram
    void inverses(Gen& g) {
        const int         n = g.irange(1, 4);
        const auto        t = g.pick({1e-13, 1e-12, 1e-10, 1e-8, 1e-6});
        std::vector<Gate> c;
        for (auto k = 1 + g.below(10); k > 0; --k) {
            c.push_back(genGate(g, n, true)); // gates with exactly representable or 1/sqrt(2) entries
            g.note(str(c.back()));
        }
        g.note("tolerance ", t);
        Tolerance set(t);
        auto      p = makePkg(n);
        auto      m = p->makeIdent(static_cast<dd::QubitCount>(n));
        for (const auto& x: c) {
            m = p->multiply(gateDD(*p, x, n), m);
        }
        for (auto it = c.rbegin(); it != c.rend(); ++it) {
            m = p->multiply(p->conjugateTranspose(gateDD(*p, *it, n)), m);
        }
        const auto id = p->makeIdent(static_cast<dd::QubitCount>(n));
        if (m.p != id.p || std::abs(val(m.w) - C{1., 0.}) > 4. * t) {
            fail("a circuit of standard gates followed by its inverse is not the identity diagram with a tolerance of ", t);
        }
        g.nontrivial();
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C37",
                      "programs and circuits run with tolerances from 1e-15 to 5e-6 against the default tolerance and dense simulation, pairs of states that differ by much more or much less than the tolerance, circuits "
                      "followed by their inverses; non-trivial: a program with at least three results, a circuit with at least three gates, any pair or inverse",
                      {{"programs", 3, programs}, {"circuits", 3, circuits}, {"merging", 1, merging}, {"inverses", 1, inverses}}};
    return p;
}
