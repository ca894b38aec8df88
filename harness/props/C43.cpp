// C43: textbook algorithms give their textbook results, at any size.
#undef PBT_TINY // (wide circuits need caches of a reasonable size)
#include "inv.hpp"

#include <random>
using namespace rf;

namespace {
    constexpr double PI = 3.14159265358979323846;
    using U             = unsigned __int128;

    // a simulator as a user would write it: references to the current state only, collections left to the package
    struct Sim {
        std::unique_ptr<Pkg> pkg;
        Pkg&                 p;
        int                  n;
        dd::vEdge            s;
        int                  forced; // a collection is forced every so many gates
        int                  gates = 0;
        Gen*                 pressed = nullptr; // collections become due at random
        Sim(int nq, int force):
            pkg(makePkg(nq)), p(*pkg), n(nq), s(p.makeZeroState(static_cast<dd::QubitCount>(nq))), forced(force) {
            p.incRef(s);
        }
        // as if other work in the package had left numbers behind
        void press(Gen& g) {
            if (g.oneIn(6)) {
                pressed = &g;
                g.note("numbers of other work");
                lowerCollectionLimit(p);
            }
        }
        void due() {
            if (pressed != nullptr && pressed->oneIn(3)) {
                makeCollectionDue(p);
            }
        }
        void become(const dd::vEdge& e) {
            p.incRef(e);
            p.decRef(s);
            s = e;
        }
        void apply(const dd::mEdge& m) {
            due();
            become(p.multiply(m, s));
            ++gates;
            if (forced > 0 && gates % forced == 0) {
                p.garbageCollect(true);
            } else {
                p.garbageCollect();
            }
        }
        void gate(const dd::GateMatrix& m, int q, const dd::Controls& cs = {}) {
            apply(p.makeGateDD(m, static_cast<dd::QubitCount>(n), cs, static_cast<dd::Qubit>(q)));
        }
        void cx(int c, int t) { gate(dd::Xmat, t, {dd::Control{static_cast<dd::Qubit>(c)}}); }
        void ccx(int c, int d, int t) { gate(dd::Xmat, t, {dd::Control{static_cast<dd::Qubit>(c)}, dd::Control{static_cast<dd::Qubit>(d)}}); }
        void swap(int a, int b) { apply(p.makeSWAPDD(static_cast<dd::QubitCount>(n), static_cast<dd::Qubit>(a), static_cast<dd::Qubit>(b))); }
        bool measure(Gen& g, int q) {
            std::mt19937_64 mt(g.below(1ULL << 30));
            due();
            return p.measureOneCollapsing(s, static_cast<dd::Qubit>(q), g.flip(), mt) == '1';
        }
        // values of all qubits, and the state collapses
        std::vector<bool> measureAll(Gen& g, bool collapse) {
            std::mt19937_64   mt(g.below(1ULL << 30));
            due();
            const auto r = p.measureAll(s, collapse, mt);
            std::vector<bool> bits(static_cast<std::size_t>(n));
            if (r.size() != static_cast<std::size_t>(n)) {
                fail("measuring ", n, " qubits gives \"", r, "\"");
            }
            for (std::size_t q = 0; q < bits.size(); ++q) {
                bits[q] = r[r.size() - 1 - q] == '1';
            }
            return bits;
        }
        [[nodiscard]] C amplitude(const std::vector<bool>& bits) const {
            auto e = s;
            C    a = val(e.w);
            for (int l = n - 1; l >= 0 && a != C{}; --l) {
                if (e.isTerminal() || e.p->v != l) {
                    fail("the state has no node on level ", l);
                }
                e = e.p->e[bits[static_cast<std::size_t>(l)] ? 1 : 0];
                a *= val(e.w);
            }
            return a;
        }
        void finish() {
            p.decRef(s);
            p.garbageCollect(true);
            if (p.vUniqueTable.getNodeCount() != 0 || p.mUniqueTable.getNodeCount() != 0 || p.cn.cacheCount() != 0) {
                fail("after releasing the state ", p.vUniqueTable.getNodeCount(), " vector nodes, ", p.mUniqueTable.getNodeCount(), " matrix nodes and ", p.cn.cacheCount(), " cached numbers remain");
            }
        }
    };
    int forces(Gen& g) { return g.pick({0, 0, 1, 2, 5, 17}); }
    std::vector<bool> bitsOf(U x, int n) {
        std::vector<bool> b;
        for (int q = 0; q < n; ++q) {
            b.push_back(((x >> q) & 1U) != 0);
        }
        return b;
    }
    U randomBits(Gen& g, int n) {
        U x = 0;
        for (int q = 0; q < n; ++q) {
            x |= static_cast<U>(g.flip() ? 1U : 0U) << q;
        }
        return x;
    }
    dd::GateMatrix phaseGate(double angle) { return dd::Phasemat(angle); }
    // the transform of the qubits from..from+n-1 (and back), least significant first
    void qft(Sim& x, int from, int n, bool inverse, bool swaps) {
        auto step = [&](int t) { // rotations of qubit t by the lower ones
            auto rot = [&](int c) {
                const double a = PI / std::pow(2., t - c);
                x.gate(phaseGate(inverse ? -a : a), from + t, {dd::Control{static_cast<dd::Qubit>(from + c)}});
            };
            if (inverse) {
                for (int c = 0; c < t; ++c) {
                    rot(c);
                }
                x.gate(dd::Hmat, from + t);
            } else {
                x.gate(dd::Hmat, from + t);
                for (int c = t - 1; c >= 0; --c) {
                    rot(c);
                }
            }
        };
        auto reverse = [&] {
            for (int q = 0; swaps && q < n / 2; ++q) {
                x.swap(from + q, from + n - 1 - q);
            }
        };
        if (inverse) {
            reverse();
            for (int t = 0; t < n; ++t) {
                step(t);
            }
        } else {
            for (int t = n - 1; t >= 0; --t) {
                step(t);
            }
            reverse();
        }
    }
    void fourier(Gen& g) {
        // (exchanging qubits adds up product states of many different factors, which takes exponential time in this version)
        const bool swaps = g.flip();
        const int  n     = g.oneIn(12) ? g.irange(13, swaps ? 20 : 48) : g.irange(1, 12);
        Sim        x(n, forces(g));
        x.press(g);
        const U    k = randomBits(g, n);
        for (int q = 0; q < n; ++q) {
            if (((k >> q) & 1U) != 0) {
                x.gate(dd::Xmat, q);
            }
        }
        g.note("QFT of ", static_cast<std::uint64_t>(k), " on ", n, " qubits, swaps ", swaps);
        qft(x, 0, n, false, swaps);
        const double amp = std::pow(2., -n / 2.);
        for (int i = 0; i < 20; ++i) {
            const U    y    = randomBits(g, n);
            const auto mask = (static_cast<U>(1) << n) - 1;
            const auto frac = static_cast<double>(static_cast<std::uint64_t>(((k * y) & mask) >> (n > 52 ? n - 52 : 0))) / std::pow(2., n > 52 ? 52 : n);
            U          idx  = y;
            if (!swaps) {
                idx = 0;
                for (int q = 0; q < n; ++q) {
                    idx |= ((y >> q) & 1U) << (n - 1 - q);
                }
            }
            const auto got = x.amplitude(bitsOf(idx, n)) / amp;
            if (std::abs(got - std::polar(1., 2. * PI * frac)) > 1e-8) {
                fail("Fourier transform on ", n, " qubits: phase of an amplitude is ", got, " instead of ", std::polar(1., 2. * PI * frac));
            }
        }
        if (x.p.size(x.s) > static_cast<unsigned>(n) + 1U) {
            // (a product state; rounding may distinguish amplitudes on many qubits)
            if (n <= 12) {
                fail("the Fourier transform of a basis state has ", x.p.size(x.s), " nodes on ", n, " qubits");
            }
        }
        qft(x, 0, n, true, swaps);
        if (std::abs(x.amplitude(bitsOf(k, n)) - 1.) > 1e-8) {
            fail("the inverse Fourier transform gives the amplitude ", x.amplitude(bitsOf(k, n)), " instead of 1");
        }
        if (k != 0 && n > 1) {
            g.nontrivial();
        }
        x.finish();
    }
    // the matrix of the transform
    void fourierMatrix(Gen& g) {
        const int n   = g.irange(1, 5);
        auto      pkg = makePkg(n);
        auto&     p   = *pkg;
        const auto qn = static_cast<dd::QubitCount>(n);
        auto      m   = p.makeIdent(qn);
        for (int t = n - 1; t >= 0; --t) {
            m = p.multiply(p.makeGateDD(dd::Hmat, qn, static_cast<dd::Qubit>(t)), m);
            for (int c = t - 1; c >= 0; --c) {
                m = p.multiply(p.makeGateDD(phaseGate(PI / std::pow(2., t - c)), qn, dd::Control{static_cast<dd::Qubit>(c)}, static_cast<dd::Qubit>(t)), m);
            }
        }
        for (int q = 0; q < n / 2; ++q) {
            m = p.multiply(p.makeSWAPDD(qn, static_cast<dd::Qubit>(q), static_cast<dd::Qubit>(n - 1 - q)), m);
        }
        const auto  d = 1ULL << n;
        Mat         want(d);
        dd::CMat    cm(d, dd::CVec(d));
        for (std::size_t i = 0; i < d; ++i) {
            for (std::size_t j = 0; j < d; ++j) {
                want(i, j) = std::polar(1. / std::sqrt(static_cast<double>(d)), 2. * PI * static_cast<double>(i * j % d) / static_cast<double>(d));
                cm[i][j]   = want(i, j);
            }
        }
        g.note("QFT matrix on ", n, " qubits");
        expectMat(readMat(m, n), want, 1e-10, "Fourier transform as a matrix");
        const auto e = p.makeDDFromMatrix(cm);
        const auto r = p.multiply(p.conjugateTranspose(e), m);
        if (!p.isCloseToIdentity(r)) {
            fail("the Fourier transform and its matrix differ");
        }
        // its square maps x to -x, its fourth power is the identity
        const auto sq = p.multiply(m, m);
        Mat        neg(d);
        for (std::size_t i = 0; i < d; ++i) {
            neg((d - i) % d, i) = 1.;
        }
        expectMat(readMat(sq, n), neg, 1e-10, "Fourier transform applied twice");
        if (!p.isCloseToIdentity(p.multiply(sq, sq))) {
            fail("the fourth power of the Fourier transform is not the identity");
        }
        g.nontrivial();
    }
    void grover(Gen& g) {
        const int             n = g.irange(2, 9);
        const auto            d = 1ULL << n;
        Sim                   x(n, forces(g));
        x.press(g);
        std::set<std::size_t> marked;
        for (auto k = 1 + g.below(std::min<std::uint64_t>(4, d / 4)); k > 0; --k) {
            marked.insert(g.below(d));
        }
        const auto qn     = static_cast<dd::QubitCount>(n);
        const int  target = g.irange(0, n - 1);
        auto       oracle = x.p.makeIdent(qn);
        auto       flipOf = [&](std::size_t i) { // -1 for the basis state i
            dd::Controls cs;
            for (int q = 0; q < n; ++q) {
                if (q != target) {
                    cs.insert({static_cast<dd::Qubit>(q), ((i >> q) & 1U) != 0 ? dd::Control::Type::pos : dd::Control::Type::neg});
                }
            }
            const dd::GateMatrix low{dd::complex_mone, dd::complex_zero, dd::complex_zero, dd::complex_one};
            return x.p.makeGateDD(((i >> target) & 1U) != 0 ? dd::Zmat : low, qn, cs, static_cast<dd::Qubit>(target));
        };
        for (const auto i: marked) {
            oracle = x.p.multiply(flipOf(i), oracle);
        }
        auto hs = x.p.makeIdent(qn);
        for (int q = 0; q < n; ++q) {
            hs = x.p.multiply(x.p.makeGateDD(dd::Hmat, qn, static_cast<dd::Qubit>(q)), hs);
        }
        auto iteration = x.p.multiply(hs, x.p.multiply(flipOf(0), x.p.multiply(hs, oracle)));
        x.p.incRef(iteration);
        x.apply(hs);
        const double m     = static_cast<double>(marked.size());
        const double theta = std::asin(std::sqrt(m / static_cast<double>(d)));
        const auto   its   = g.irange(1, 6);
        g.note("Grover search for ", marked.size(), " of ", d, ", ", its, " iterations");
        for (int k = 1; k <= its; ++k) {
            x.apply(iteration);
            const double good = std::sin((2 * k + 1) * theta) / std::sqrt(m);
            const double bad  = std::cos((2 * k + 1) * theta) / std::sqrt(static_cast<double>(d) - m);
            Vec          want(d);
            for (std::size_t i = 0; i < d; ++i) {
                want[i] = (k % 2 == 0 ? 1. : -1.) * (marked.count(i) != 0 ? good : bad);
            }
            expectVec(readVec(x.s, n), want, 1e-9, "Grover search after ", k, " iterations");
        }
        x.p.decRef(iteration);
        g.nontrivial();
        x.finish();
    }
    void hiddenString(Gen& g) {
        const int n = g.oneIn(8) ? g.irange(20, 70) : g.irange(1, 20);
        const int a = g.irange(0, n); // position of the ancilla
        Sim       x(n + 1, forces(g));
        x.press(g);
        auto      pos = [&](int q) { return q < a ? q : q + 1; };
        const U   s   = randomBits(g, n);
        g.note("Bernstein-Vazirani on ", n, " qubits, ancilla ", a);
        x.gate(dd::Xmat, a);
        x.gate(dd::Hmat, a);
        for (int q = 0; q < n; ++q) {
            x.gate(dd::Hmat, pos(q));
        }
        for (int q = 0; q < n; ++q) {
            if (((s >> q) & 1U) != 0) {
                x.cx(pos(q), a);
            }
        }
        for (int q = 0; q < n; ++q) {
            x.gate(dd::Hmat, pos(q));
        }
        const bool single = g.flip();
        if (single) {
            for (int q = 0; q < n; ++q) {
                if (x.measure(g, pos(q)) != (((s >> q) & 1U) != 0)) {
                    fail("Bernstein-Vazirani on ", n, " qubits: qubit ", q, " of the string is wrong");
                }
            }
        }
        const auto bits = x.measureAll(g, g.flip());
        for (int q = 0; q < n; ++q) {
            if (bits[static_cast<std::size_t>(pos(q))] != (((s >> q) & 1U) != 0)) {
                fail("Bernstein-Vazirani on ", n, " qubits: qubit ", q, " of the string is wrong");
            }
        }
        if (s != 0) {
            g.nontrivial();
        }
        x.finish();
    }
    // ripple-carry adder (Cuccaro et al.): carry, then a and b interleaved, then overflow
    void adder(Gen& g) {
        const int w = g.oneIn(8) ? g.irange(10, 40) : g.irange(1, 8);
        const int n = 2 * w + 2;
        Sim       x(n, forces(g));
        x.press(g);
        auto      A = [](int i) { return 2 * i + 2; };
        auto      B = [](int i) { return 2 * i + 1; };
        int       superposed = 0;
        U         fixedA = randomBits(g, w), fixedB = randomBits(g, w);
        const bool carry = g.flip();
        if (carry) {
            x.gate(dd::Xmat, 0);
        }
        U undetermined = 0; // bits of a in superposition
        for (int i = 0; i < w; ++i) {
            if (superposed < 3 && g.oneIn(4)) {
                x.gate(dd::Hmat, A(i));
                undetermined |= static_cast<U>(1) << i;
                ++superposed;
            } else if (((fixedA >> i) & 1U) != 0) {
                x.gate(dd::Xmat, A(i));
            }
            if (((fixedB >> i) & 1U) != 0) {
                x.gate(dd::Xmat, B(i));
            }
        }
        g.note("addition of ", w, " bits, ", superposed, " in superposition");
        auto maj = [&](int c, int b, int a) {
            x.cx(a, b);
            x.cx(a, c);
            x.ccx(c, b, a);
        };
        auto uma = [&](int c, int b, int a) {
            x.ccx(c, b, a);
            x.cx(a, c);
            x.cx(c, b);
        };
        for (int i = 0; i < w; ++i) {
            maj(i == 0 ? 0 : A(i - 1), B(i), A(i));
        }
        x.cx(A(w - 1), n - 1);
        for (int i = w - 1; i >= 0; --i) {
            uma(i == 0 ? 0 : A(i - 1), B(i), A(i));
        }
        auto expectSum = [&](const std::vector<bool>& bits) {
            U a = 0, b = 0;
            for (int i = 0; i < w; ++i) {
                a |= static_cast<U>(bits[static_cast<std::size_t>(A(i))] ? 1U : 0U) << i;
                b |= static_cast<U>(bits[static_cast<std::size_t>(B(i))] ? 1U : 0U) << i;
            }
            b |= static_cast<U>(bits[static_cast<std::size_t>(n - 1)] ? 1U : 0U) << w;
            if ((a & ~undetermined) != (fixedA & ~undetermined) || b != a + fixedB + (carry ? 1U : 0U) || bits[0] != carry) {
                fail("addition of ", w, " bits: ", static_cast<std::uint64_t>(a), " + ", static_cast<std::uint64_t>(fixedB), " = ", static_cast<std::uint64_t>(b));
            }
        };
        for (int i = 0; i < 3; ++i) {
            const auto bits = x.measureAll(g, false);
            expectSum(bits);
            const auto a = std::abs(x.amplitude(bits));
            if (std::abs(a * a - std::pow(0.5, superposed)) > 1e-9) {
                fail("a sum has the probability ", a * a, " instead of ", std::pow(0.5, superposed));
            }
        }
        const auto bits = x.measureAll(g, true);
        expectSum(bits);
        if (std::abs(std::abs(x.amplitude(bits)) - 1.) > 1e-9) {
            fail("measuring the sum left it with the amplitude ", x.amplitude(bits));
        }
        g.nontrivial();
        x.finish();
    }
    void phaseEstimation(Gen& g) {
        const int m = g.irange(1, 10);
        const int t = g.irange(0, 1) == 0 ? 0 : m; // position of the target
        Sim       x(m + 1, forces(g));
        x.press(g);
        const int from = t == 0 ? 1 : 0;
        const U   k    = randomBits(g, m);
        const auto phi = static_cast<double>(static_cast<std::uint64_t>(k)) / std::pow(2., m);
        g.note("phase estimation of ", static_cast<std::uint64_t>(k), "/2^", m);
        x.gate(dd::Xmat, t);
        for (int q = 0; q < m; ++q) {
            x.gate(dd::Hmat, from + q);
        }
        for (int q = 0; q < m; ++q) {
            const auto a = 2. * PI * std::fmod(phi * std::pow(2., q), 1.);
            x.gate(phaseGate(a), t, {dd::Control{static_cast<dd::Qubit>(from + q)}});
        }
        qft(x, from, m, true, true);
        auto want = bitsOf(k, m);
        want.insert(t == 0 ? want.begin() : want.end(), true);
        if (std::abs(x.amplitude(want) - 1.) > 1e-8) {
            fail("phase estimation of ", static_cast<std::uint64_t>(k), "/2^", m, " gives the amplitude ", x.amplitude(want));
        }
        if (x.measureAll(g, g.flip()) != want) {
            fail("phase estimation measures another phase than ", static_cast<std::uint64_t>(k), "/2^", m);
        }
        if (k != 0) {
            g.nontrivial();
        }
        x.finish();
    }
    // a single excitation shared by all qubits
    void sharedExcitation(Gen& g) {
        const int        n = g.oneIn(8) ? g.irange(20, 100) : g.irange(2, 20);
        Sim              x(n, forces(g));
        x.press(g);
        std::vector<int> order;
        const int        how = g.irange(0, 2);
        for (int q = 0; q < n; ++q) {
            order.push_back(how == 1 ? n - 1 - q : q);
        }
        if (how == 2 && n <= 12) {
            for (std::size_t i = order.size(); i > 1; --i) {
                std::swap(order[i - 1], order[g.below(i)]);
            }
        }
        g.note("W state on ", n, " qubits, order ", how);
        x.gate(dd::Xmat, order[0]);
        for (int k = 0; k + 1 < n; ++k) {
            const auto a = order[static_cast<std::size_t>(k)], b = order[static_cast<std::size_t>(k + 1)];
            x.gate(dd::RYmat(2. * std::acos(std::sqrt(1. / (n - k)))), b, {dd::Control{static_cast<dd::Qubit>(a)}});
            x.cx(b, a);
        }
        const auto want = 1. / std::sqrt(static_cast<double>(n));
        for (int q = 0; q < n; ++q) {
            std::vector<bool> bits(static_cast<std::size_t>(n));
            bits[static_cast<std::size_t>(q)] = true;
            if (std::abs(x.amplitude(bits) - want) > 1e-8) {
                fail("the W state on ", n, " qubits has the amplitude ", x.amplitude(bits), " instead of ", want);
            }
            bits[static_cast<std::size_t>((q + 1) % n)] = true;
            if (std::abs(x.amplitude(bits)) > 1e-8) {
                fail("the W state on ", n, " qubits has two excitations");
            }
        }
        if (std::abs(x.amplitude(std::vector<bool>(static_cast<std::size_t>(n)))) > 1e-8) {
            fail("the W state on ", n, " qubits has the amplitude of no excitation");
        }
        if (n <= 12 && x.p.size(x.s) > 2U * static_cast<unsigned>(n)) {
            fail("the W state on ", n, " qubits has ", x.p.size(x.s), " nodes");
        }
        // one measurement after the other finds exactly one excitation
        int found = 0;
        for (const int q: order) {
            found += x.measure(g, q) ? 1 : 0;
        }
        if (found != 1) {
            fail("measuring the W state on ", n, " qubits finds ", found, " excitations");
        }
        g.nontrivial();
        x.finish();
    }
    void teleportation(Gen& g) {
        const int k = g.irange(1, 5); // qubits of the state
        const int n = k + 2;
        Sim       x(n, forces(g));
        x.press(g);
        // positions of the two further qubits
        std::vector<int> place(static_cast<std::size_t>(n));
        for (int q = 0; q < n; ++q) {
            place[static_cast<std::size_t>(q)] = q;
        }
        for (std::size_t i = place.size(); i > 1; --i) {
            std::swap(place[i - 1], place[g.below(i)]);
        }
        const auto       alice = place[0], bob = place[1];
        std::vector<int> rest; // where the state's qubits are
        for (int q = 0; q < n; ++q) {
            if (q != alice && q != bob) {
                rest.push_back(q);
            }
        }
        const auto v = genState(g, k);
        Vec        init(1ULL << n);
        for (std::size_t i = 0; i < v.size(); ++i) {
            std::size_t idx = 0;
            for (std::size_t q = 0; q < rest.size(); ++q) {
                idx |= ((i >> q) & 1U) << rest[q];
            }
            init[idx] = v[i];
        }
        x.become(vecDD(x.p, init));
        const auto which = g.below(rest.size());
        const int  t     = rest[which];
        g.note("teleporting qubit ", t, " via ", alice, " to ", bob, ": ", str(v));
        x.gate(dd::Hmat, alice);
        x.cx(alice, bob);
        x.cx(t, alice);
        x.gate(dd::Hmat, t);
        const bool first = g.flip();
        bool       z = false, b = false;
        if (first) {
            z = x.measure(g, t);
            b = x.measure(g, alice);
        } else {
            b = x.measure(g, alice);
            z = x.measure(g, t);
        }
        if (b) {
            x.gate(dd::Xmat, bob);
        }
        if (z) {
            x.gate(dd::Zmat, bob);
        }
        // the sent qubit and the helper hold the outcomes
        Vec want(1ULL << n);
        for (std::size_t i = 0; i < v.size(); ++i) {
            std::size_t idx = (z ? 1ULL << t : 0U) | (b ? 1ULL << alice : 0U);
            for (std::size_t q = 0; q < rest.size(); ++q) {
                idx |= ((i >> q) & 1U) << (q == which ? bob : rest[q]);
            }
            want[idx] = v[i];
        }
        expectVec(readVec(x.s, n), want, 1e-9, "the state after teleporting qubit ", t, " to ", bob);
        if (norm(v) > 0.) {
            g.nontrivial();
        }
        x.finish();
    }
    // the five-qubit code: any error on a single qubit is found and undone
    void errorCorrection(Gen& g) {
        static const char* stabilizers[] = {"XZZXI", "IXZZX", "XIXZZ", "ZXIXZ"};
        const int          anc = g.irange(0, 5);
        Sim                x(6, forces(g));
        x.press(g);
        auto               pos   = [&](int q) { return q < anc ? q : q + 1; };
        auto               pauli = [&](char c, int q, bool controlled) {
            if (c == 'I') {
                return;
            }
            const auto cs = controlled ? dd::Controls{dd::Control{static_cast<dd::Qubit>(anc)}} : dd::Controls{};
            x.gate(c == 'X' ? dd::Xmat : c == 'Y' ? dd::Ymat : dd::Zmat, pos(q), cs);
        };
        auto syndrome = [&] {
            unsigned r = 0;
            for (unsigned i = 0; i < 4; ++i) {
                x.gate(dd::Hmat, anc);
                for (int q = 0; q < 5; ++q) {
                    pauli(stabilizers[i][q], q, true);
                }
                x.gate(dd::Hmat, anc);
                if (x.measure(g, anc)) {
                    r |= 1U << i;
                    x.gate(dd::Xmat, anc);
                }
            }
            return r;
        };
        // which error has which syndrome
        std::map<unsigned, std::pair<char, int>> errors;
        for (const char c: {'X', 'Y', 'Z'}) {
            for (int q = 0; q < 5; ++q) {
                unsigned r = 0;
                for (unsigned i = 0; i < 4; ++i) {
                    const char s = stabilizers[i][q];
                    r |= (s != 'I' && s != c ? 1U : 0U) << i;
                }
                errors[r] = {c, q};
            }
        }
        for (int q = 0; q < 5; ++q) {
            x.gate(dd::U3mat(g.real(0., 3.), g.real(-3., 3.), g.real(-3., 3.)), pos(q));
        }
        const auto fix = [&](unsigned r) {
            if (r != 0) {
                const auto& [c, q] = errors.at(r);
                pauli(c, q, false);
            }
        };
        fix(syndrome());
        const auto code = x.s; // some encoded state
        x.p.incRef(code);
        const auto want = readVec(code, 6);
        if (syndrome() != 0) {
            fail("an encoded state has a syndrome");
        }
        expectVec(readVec(x.s, 6), want, 1e-9, "an encoded state whose syndrome is measured");
        for (auto k = 1 + g.below(3); k > 0; --k) {
            const auto c = g.pick({'X', 'Y', 'Z', 'U'});
            const auto q = g.irange(0, 4);
            g.note("error ", std::string(1, c), " on qubit ", q);
            if (c == 'U') {
                x.gate(dd::U3mat(g.real(0., 3.), g.real(-3., 3.), g.real(-3., 3.)), pos(q));
            } else {
                pauli(c, q, false);
            }
            const auto r = syndrome();
            if (c != 'U' && (r == 0 || errors.at(r) != std::make_pair(c, q))) {
                fail("the syndrome of ", std::string(1, c), " on qubit ", q, " is ", r);
            }
            if (r != 0 && errors.at(r).second != q) {
                fail("the syndrome of an error on qubit ", q, " is one of qubit ", errors.at(r).second);
            }
            fix(r);
            const auto f = x.p.fidelity(code, x.s);
            if (std::abs(f - 1.) > 1e-9) {
                fail("correcting an error on qubit ", q, " leads to a fidelity of ", f);
            }
            const auto got = readVec(x.s, 6);
            C          o{};
            for (std::size_t i = 0; i < got.size(); ++i) {
                o += std::conj(want[i]) * got[i];
            }
            if (std::abs(std::abs(o) - 1.) > 1e-9) {
                fail("correcting an error on qubit ", q, " leads to another state");
            }
        }
        x.p.decRef(code);
        g.nontrivial();
        x.finish();
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C43",
                      "Fourier transforms (1-48 qubits, and as matrices), Grover search, Bernstein-Vazirani (up to 71 qubits), ripple-carry addition (up to 82 qubits, partly in superposition), phase estimation, W states (up to 100 qubits), "
                      "teleportation of entangled qubits, error correction with the five-qubit code, with collections at various times; against their known results; non-trivial: any but the trivial inputs",
                      {{"fourier", 3, fourier}, {"fourierMatrix", 1, fourierMatrix}, {"grover", 3, grover}, {"hiddenString", 2, hiddenString}, {"adder", 2, adder}, {"phaseEstimation", 2, phaseEstimation}, {"sharedExcitation", 2, sharedExcitation}, {"teleportation", 3, teleportation}, {"errorCorrection", 2, errorCorrection}}};
    return p;
}
