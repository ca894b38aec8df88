// C40: wide states in full superposition, against the stabilizer formalism.
#undef PBT_TINY // (the effort is only bounded with caches of a reasonable size)
#include "inv.hpp"

#include <bitset>
#include <ctime>
#include <map>
#include <random>
using namespace rf;

namespace {
    using Bits = std::bitset<128>;

    // i^phase * X^x * Z^z
    struct Pauli {
        Bits x, z;
        int  phase = 0;
        void times(const Pauli& o) {
            phase = (phase + o.phase + 2 * static_cast<int>((z & o.x).count())) % 4;
            x ^= o.x;
            z ^= o.z;
        }
        [[nodiscard]] bool commutes(const Pauli& o) const { return (((x & o.z).count() + (z & o.x).count()) & 1U) == 0; }
    };
    enum Kind { H,
                S,
                SDG,
                X,
                Y,
                Z,
                SX,
                CX,
                CZ,
                CY,
                SWAP,
                ISWAP };
    struct G {
        Kind k;
        int  a, b; // target, (control or second target)
        bool pos = true;
    };
    // P -> U P U^dagger
    void conjugate(Pauli& p, const G& o) {
        const auto a = static_cast<std::size_t>(o.a);
        const auto b = static_cast<std::size_t>(o.b < 0 ? 0 : o.b);
        auto       h = [&](std::size_t q) {
            if (p.x[q] && p.z[q]) {
                p.phase += 2;
            }
            const bool t = p.x[q];
            p.x[q]       = p.z[q];
            p.z[q]       = t;
        };
        auto s = [&](std::size_t q, int k) {
            if (p.x[q]) {
                p.phase += k;
                p.z.flip(q);
            }
        };
        auto cx = [&](std::size_t c, std::size_t t) {
            p.x[t] = p.x[t] != p.x[c];
            p.z[c] = p.z[c] != p.z[t];
        };
        auto cz = [&](std::size_t c, std::size_t t) {
            if (p.x[c] && p.x[t]) {
                p.phase += 2;
            }
            const bool xc = p.x[c], xt = p.x[t];
            p.z[t] = p.z[t] != xc;
            p.z[c] = p.z[c] != xt;
        };
        auto px = [&](std::size_t q) { p.phase += p.z[q] ? 2 : 0; };
        auto pz = [&](std::size_t q) { p.phase += p.x[q] ? 2 : 0; };
        auto swap = [&] {
            bool t = p.x[a];
            p.x[a] = p.x[b];
            p.x[b] = t;
            t      = p.z[a];
            p.z[a] = p.z[b];
            p.z[b] = t;
        };
        const bool neg = !o.pos && (o.k == CX || o.k == CZ || o.k == CY);
        if (neg) {
            px(b);
        }
        switch (o.k) {
            case H: h(a); break;
            case S: s(a, 1); break;
            case SDG: s(a, 3); break;
            case X: px(a); break;
            case Z: pz(a); break;
            case Y: px(a); pz(a); break;
            case SX: h(a); s(a, 1); h(a); break;
            case CX: cx(b, a); break;
            case CZ: cz(b, a); break;
            case CY: s(a, 3); cx(b, a); s(a, 1); break;
            case SWAP: swap(); break;
            case ISWAP: s(a, 1); s(b, 1); cz(a, b); swap(); break;
        }
        if (neg) {
            px(b);
        }
        p.phase &= 3;
    }
    struct Tableau {
        int                n;
        std::vector<Pauli> gens;
        explicit Tableau(int k):
            n(k) {
            for (int q = 0; q < n; ++q) {
                Pauli p;
                p.z[static_cast<std::size_t>(q)] = true;
                gens.push_back(p);
            }
        }
        void apply(const G& o) {
            for (auto& p: gens) {
                conjugate(p, o);
            }
        }
        // expectation value of a Hermitian Pauli operator: 0, 1 or -1
        [[nodiscard]] int expect(const Pauli& q) const {
            for (const auto& p: gens) {
                if (!p.commutes(q)) {
                    return 0;
                }
            }
            // q is a product of generators up to its sign: eliminate
            auto  rows = gens;
            Pauli rest = q;
            Pauli acc;
            auto  pivot = [&](Bits Pauli::*part, std::size_t col, std::vector<bool>& used) {
                std::size_t r = rows.size();
                for (std::size_t i = 0; i < rows.size(); ++i) {
                    if (!used[i] && (rows[i].*part)[col]) {
                        r = i;
                        break;
                    }
                }
                if (r == rows.size()) {
                    return;
                }
                used[r] = true;
                for (std::size_t i = 0; i < rows.size(); ++i) {
                    if (!used[i] && (rows[i].*part)[col]) {
                        rows[i].times(rows[r]);
                    }
                }
                if ((rest.*part)[col]) {
                    acc.times(rows[r]);
                    rest.x ^= rows[r].x;
                    rest.z ^= rows[r].z;
                }
            };
            std::vector<bool> used(rows.size(), false);
            for (std::size_t c = 0; c < static_cast<std::size_t>(n); ++c) {
                pivot(&Pauli::x, c, used);
            }
            for (std::size_t c = 0; c < static_cast<std::size_t>(n); ++c) {
                pivot(&Pauli::z, c, used);
            }
            if (rest.x.any() || rest.z.any()) {
                fail("internal: a commuting Pauli operator is not a product of the generators");
            }
            return ((acc.phase - q.phase) & 3) == 0 ? 1 : -1;
        }
        // measure a Hermitian Pauli operator; the probability of the outcome +1 (bit 0), and the state afterwards
        double measure(const Pauli& q, bool minus) {
            Pauli r = q;
            r.phase = (r.phase + (minus ? 2 : 0)) & 3;
            std::size_t k = gens.size();
            for (std::size_t i = 0; i < gens.size(); ++i) {
                if (!gens[i].commutes(q)) {
                    if (k == gens.size()) {
                        k = i;
                    } else {
                        gens[i].times(gens[k]);
                    }
                }
            }
            if (k < gens.size()) {
                gens[k] = r;
                return 0.5;
            }
            return expect(r) == 1 ? 1. : 0.;
        }
        [[nodiscard]] Pauli some(Gen& g) const {
            Pauli r;
            for (const auto& p: gens) {
                if (g.flip()) {
                    r.times(p);
                }
            }
            return r;
        }
    };
    Pauli zOn(int q) {
        Pauli p;
        p.z[static_cast<std::size_t>(q)] = true;
        return p;
    }
    C phaseOf(int k) {
        static const C v[] = {{1., 0.}, {0., 1.}, {-1., 0.}, {0., -1.}};
        return v[k & 3];
    }
    // inner products that visit every pair of nodes once
    C innerRec(const dd::vEdge& a, const dd::vEdge& b, std::map<std::pair<const void*, const void*>, C>& memo) {
        const C f = std::conj(val(a.w)) * val(b.w);
        if (f == C{}) {
            return 0.;
        }
        if (a.isTerminal() || b.isTerminal()) {
            if (a.isTerminal() != b.isTerminal()) {
                fail("the states have nodes on different levels");
            }
            return f;
        }
        const auto key = std::make_pair(static_cast<const void*>(a.p), static_cast<const void*>(b.p));
        auto       it  = memo.find(key);
        if (it == memo.end()) {
            C s = innerRec(a.p->e[0], b.p->e[0], memo);
            s += innerRec(a.p->e[1], b.p->e[1], memo);
            it = memo.emplace(key, s).first;
        }
        return f * it->second;
    }
    C innerOf(const dd::vEdge& a, const dd::vEdge& b) {
        std::map<std::pair<const void*, const void*>, C> memo;
        return innerRec(a, b, memo);
    }
    // tr(A^dagger B) / 2^n
    C innerRec(const dd::mEdge& a, const dd::mEdge& b, std::map<std::pair<const void*, const void*>, C>& memo) {
        const C f = std::conj(val(a.w)) * val(b.w);
        if (f == C{}) {
            return 0.;
        }
        if (a.isTerminal() || b.isTerminal()) {
            if (a.isTerminal() != b.isTerminal()) {
                fail("the matrices have nodes on different levels");
            }
            return f;
        }
        const auto key = std::make_pair(static_cast<const void*>(a.p), static_cast<const void*>(b.p));
        auto       it  = memo.find(key);
        if (it == memo.end()) {
            C s{};
            for (std::size_t i = 0; i < 4; ++i) {
                s += innerRec(a.p->e[i], b.p->e[i], memo);
            }
            it = memo.emplace(key, s / 2.).first;
        }
        return f * it->second;
    }
    C innerOf(const dd::mEdge& a, const dd::mEdge& b) {
        std::map<std::pair<const void*, const void*>, C> memo;
        return innerRec(a, b, memo);
    }
    dd::mEdge pauliDD(Pkg& p, const Pauli& q, int n) {
        auto e = dd::mEdge::one;
        for (int l = 0; l < n; ++l) {
            const bool x = q.x[static_cast<std::size_t>(l)], z = q.z[static_cast<std::size_t>(l)];
            auto       m = e;
            if (z) {
                m.w = dd::ComplexNumbers::neg(m.w);
            }
            const auto o = dd::mEdge::zero;
            e            = x ? p.makeDDNode(static_cast<dd::Qubit>(l), std::array{o, m, e, o}) : p.makeDDNode(static_cast<dd::Qubit>(l), std::array{e, o, o, m});
        }
        const C w = val(e.w) * phaseOf(q.phase);
        e.w       = p.cn.lookup(w.real(), w.imag());
        return e;
    }
    dd::mEdge gateOf(Pkg& p, const G& o, int n) {
        const auto    qn = static_cast<dd::QubitCount>(n);
        const auto    a = static_cast<dd::Qubit>(o.a), b = static_cast<dd::Qubit>(o.b);
        const auto    type = o.pos ? dd::Control::Type::pos : dd::Control::Type::neg;
        dd::Control   c{b, type};
        switch (o.k) {
            case H: return p.makeGateDD(dd::Hmat, qn, a);
            case S: return p.makeGateDD(dd::Smat, qn, a);
            case SDG: return p.makeGateDD(dd::Sdagmat, qn, a);
            case X: return p.makeGateDD(dd::Xmat, qn, a);
            case Y: return p.makeGateDD(dd::Ymat, qn, a);
            case Z: return p.makeGateDD(dd::Zmat, qn, a);
            case SX: return p.makeGateDD(dd::SXmat, qn, a);
            case CX: return p.makeGateDD(dd::Xmat, qn, c, a);
            case CZ: return p.makeGateDD(dd::Zmat, qn, c, a);
            case CY: return p.makeGateDD(dd::Ymat, qn, c, a);
            case SWAP: return p.makeSWAPDD(qn, a, b);
            default: return p.makeiSWAPDD(qn, a, b);
        }
    }
    std::string show(const G& o) {
        static const char* names[] = {"h", "s", "sdg", "x", "y", "z", "sx", "cx", "cz", "cy", "swap", "iswap"};
        return std::string(names[o.k]) + " " + std::to_string(o.a) + (o.b >= 0 ? (o.pos ? "," : ",!") + std::to_string(o.b) : "");
    }
    G single(Gen& g, int q) {
        static const Kind ks[] = {H, S, SDG, X, Y, Z, SX};
        return {ks[g.weighted({4, 2, 1, 1, 1, 1, 2})], q, -1};
    }
    G twofold(Gen& g, int a, int b) {
        static const Kind ks[] = {CX, CZ, CY, SWAP, ISWAP};
        if (g.flip()) {
            std::swap(a, b);
        }
        return {ks[g.weighted({4, 3, 1, 1, 1})], a, b, !g.oneIn(4)};
    }
    std::vector<G> circuit(Gen& g, int n, bool small) {
        std::vector<G> c;
        if (!g.oneIn(4)) {
            const int pattern = g.irange(0, 2);
            for (int q = 0; q < n; ++q) {
                if (pattern == 0 || g.flip()) {
                    c.push_back(pattern == 2 ? single(g, q) : G{H, q, -1});
                }
            }
        }
        for (int blocks = small ? 1 + static_cast<int>(g.below(2)) : 1 + static_cast<int>(g.below(4)); blocks > 0; --blocks) {
            switch (g.below(4)) {
                case 0: { // a ladder
                    const bool up = g.flip();
                    const Kind k  = g.flip() ? CX : CZ;
                    c.push_back({H, up ? 0 : n - 1, -1});
                    for (int q = 0; q + 1 < n; ++q) {
                        c.push_back(up ? G{k, q + 1, q} : G{k, n - 2 - q, n - 1 - q});
                    }
                    break;
                }
                case 1: // neighbours
                    for (int q = static_cast<int>(g.below(2)); q + 1 < n; q += 2) {
                        if (!g.oneIn(3)) {
                            c.push_back(twofold(g, q, q + 1));
                        }
                    }
                    break;
                case 2:
                    for (int k = 1 + static_cast<int>(g.below(8)); k > 0; --k) {
                        c.push_back(single(g, g.irange(0, n - 1)));
                    }
                    break;
                default: // far apart
                    for (int k = 1 + static_cast<int>(g.below(2)); k > 0; --k) {
                        const int a = g.irange(0, n - 1);
                        const int b = (a + 1 + static_cast<int>(g.below(static_cast<std::uint64_t>(n - 1)))) % n;
                        c.push_back(twofold(g, a, b));
                    }
                    break;
            }
        }
        return c;
    }
    double cpu() {
        timespec t{};
        clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
        return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
    }
    constexpr double       LIMIT     = 8.;  // seconds of CPU for one operation that takes milliseconds
    constexpr unsigned int LARGE     = 400; // no more gates on a state of more nodes
    template<class F>
    auto timed(const char* what, unsigned int nodes, F f) {
        const double t = cpu();
        auto         r = f();
        const double d = cpu() - t;
        if (d > LIMIT) {
            fail(what, " took ", d, " s for diagrams of ", nodes, " nodes");
        }
        return r;
    }
    // everything there is to know about the state (but its global phase)
    void compare(Gen& g, Pkg& p, const dd::vEdge& e, const Tableau& t, const std::string& when) {
        const C nn = innerOf(e, e);
        if (!close(nn, 1., 1e-9)) {
            fail("the squared norm is ", nn, " ", when);
        }
        for (int k = 0; k < 5; ++k) {
            const auto s  = t.some(g);
            const auto op = pauliDD(p, s, t.n);
            const auto r  = timed("a product with a Pauli operator", p.size(e), [&] { return p.multiply(op, e); });
            const C    v  = innerOf(e, r);
            if (!close(v, 1., 1e-8)) {
                fail("a stabilizer of the state has the expectation value ", v, " ", when);
            }
        }
    }
    Pauli anyPauli(Gen& g, const Tableau& t) {
        Pauli q;
        if (g.flip()) {
            q = t.some(g);
        }
        for (int k = static_cast<int>(g.below(3)); k > 0; --k) {
            Pauli      o;
            const auto a = g.below(static_cast<std::uint64_t>(t.n));
            o.x[a]       = g.flip();
            o.z[a]       = g.flip();
            q.times(o);
        }
        // Hermitian: i^phase X^x Z^z with phase = number of Y modulo 2
        const auto ys = static_cast<int>((q.x & q.z).count());
        q.phase       = (ys + (g.flip() ? 2 : 0)) & 3;
        return q;
    }
    int widthOf(Gen& g) {
        switch (g.below(4)) {
            case 0: return g.irange(2, 8);
            case 1: return g.irange(9, 24);
            case 2: return g.irange(25, 48);
            default: return g.irange(49, 72);
        }
    }
    void advance(Pkg& p, dd::vEdge& e, Tableau& t, const std::vector<G>& c, Gen& g) {
        for (const auto& o: c) {
            if (p.size(e) > LARGE) {
                break;
            }
            t.apply(o);
            const auto r = timed("a gate", p.size(e), [&] { return p.multiply(gateOf(p, o, t.n), e); });
            p.incRef(r);
            p.decRef(e);
            e = r;
            p.garbageCollect();
        }
        if (g.oneIn(4)) {
            p.garbageCollect(true);
        }
    }
    std::string list(const std::vector<G>& c) {
        std::string s;
        for (const auto& o: c) {
            s += show(o) + "; ";
        }
        return s;
    }
    void states(Gen& g) {
        const int  n   = widthOf(g);
        auto       pkg = makePkg(n);
        auto&      p   = *pkg;
        auto       e   = p.makeZeroState(static_cast<dd::QubitCount>(n));
        Tableau    t(n);
        p.incRef(e);
        auto c = circuit(g, n, false);
        g.note(n, " qubits: ", list(c));
        advance(p, e, t, c, g);
        compare(g, p, e, t, "after a circuit");
        for (int k = 1 + static_cast<int>(g.below(4)); k > 0; --k) {
            switch (g.below(9)) {
                case 6: { // projected: one successor deleted
                    const int  q = g.irange(0, n - 1);
                    const bool r = g.flip();
                    Tableau    u = t;
                    const auto w = u.measure(zOn(q), r);
                    const auto d = timed("deleting a successor", p.size(e), [&] { return p.deleteEdge(e, static_cast<dd::Qubit>(q), r ? 0 : 1); });
                    if (w == 0.) {
                        if (!d.isTerminal() || d.w != dd::Complex::zero) {
                            fail("without its only successor of qubit ", q, " the state does not vanish");
                        }
                        break;
                    }
                    if (!close(innerOf(d, d), w, 1e-8) || !close(innerOf(e, d), w, 1e-8)) {
                        fail("without one successor of qubit ", q, " the state has the squared norm ", innerOf(d, d), ", expected ", w);
                    }
                    const auto s = u.some(g);
                    const C    v = innerOf(d, p.multiply(pauliDD(p, s, n), d));
                    if (!close(v, w, 1e-8)) {
                        fail("a projected state has the expectation value ", v, " of one of its stabilizers, expected ", w);
                    }
                    break;
                }
                case 7: { // next to another state
                    auto f = p.makeZeroState(static_cast<dd::QubitCount>(n));
                    p.incRef(f);
                    Tableau u(n);
                    auto    d = circuit(g, n, true);
                    g.note("and ", list(d));
                    advance(p, f, u, d, g);
                    if (2 * n <= 96) {
                        auto big = makePkg(2 * n);
                        auto x   = big->transfer(e);
                        auto y   = big->transfer(f);
                        auto k   = timed("a Kronecker product", p.size(e), [&] { return big->kronecker(x, y); });
                        // the second operand has the lower qubits
                        Tableau both(2 * n);
                        both.gens.clear();
                        for (auto s: u.gens) {
                            both.gens.push_back(s);
                        }
                        for (auto s: t.gens) {
                            s.x <<= static_cast<std::size_t>(n);
                            s.z <<= static_cast<std::size_t>(n);
                            both.gens.push_back(s);
                        }
                        if (2 * n <= 72) {
                            compare(g, *big, k, both, "for a Kronecker product");
                        }
                        if (big->size(k) != big->size(x) + big->size(y) - 1) {
                            fail("the Kronecker product of states of ", big->size(x), " and ", big->size(y), " nodes has ", big->size(k));
                        }
                    }
                    p.decRef(f);
                    break;
                }
                case 0: { // one qubit measured
                    const int  q  = g.irange(0, n - 1);
                    const auto ex = t.expect(zOn(q));
                    const bool known = g.flip(); // (that the norm of all successors is one)
                    const auto [p0, p1] = timed("probabilities", p.size(e), [&] { return p.determineMeasurementProbabilities(e, static_cast<dd::Qubit>(q), known); });
                    const double w = 0.5 * (1 + ex);
                    if (std::abs(p0 - w) > 1e-8 || std::abs(p1 - (1 - w)) > 1e-8) {
                        fail("probabilities ", p0, " and ", p1, " of qubit ", q, ", expected ", w);
                    }
                    std::mt19937_64 mt(g.below(1ULL << 32U));
                    const auto      r = timed("a measurement", p.size(e), [&] { return p.measureOneCollapsing(e, static_cast<dd::Qubit>(q), known, mt); });
                    g.note("measured ", q, ": ", r);
                    if (t.measure(zOn(q), r == '1') == 0.) {
                        fail("outcome ", r, " of qubit ", q, " is impossible");
                    }
                    compare(g, p, e, t, "after a measurement");
                    break;
                }
                case 1: { // all qubits
                    std::mt19937_64 mt(g.below(1ULL << 32U));
                    auto            s = timed("measuring everything", p.size(e), [&] { return p.measureAll(e, false, mt); });
                    Tableau         u = t;
                    for (int q = 0; q < n; ++q) {
                        if (u.measure(zOn(q), s[static_cast<std::size_t>(n - 1 - q)] == '1') == 0.) {
                            fail("the outcome ", s, " is impossible");
                        }
                    }
                    break;
                }
                case 2: { // observables
                    const auto q  = anyPauli(g, t);
                    const auto w  = t.expect(q);
                    const auto op = pauliDD(p, q, n);
                    p.incRef(op);
                    const auto v = timed("an expectation value", p.size(e), [&] { return p.expectationValue(op, e); });
                    p.decRef(op);
                    if (std::abs(v - w) > 1e-8) {
                        fail("the expectation value of a Pauli operator is ", v, ", expected ", w);
                    }
                    break;
                }
                case 3: { // another state: overlap
                    auto f = p.makeZeroState(static_cast<dd::QubitCount>(n));
                    p.incRef(f);
                    Tableau    u(n);
                    const auto d = g.flip() ? std::vector<G>(c.begin(), c.begin() + static_cast<long>(g.below(c.size() + 1))) : circuit(g, n, true);
                    g.note("and ", list(d));
                    advance(p, f, u, d, g);
                    double  want = 1.;
                    Tableau m    = t;
                    for (const auto& s: u.gens) {
                        want *= m.measure(s, false);
                    }
                    const double got = timed("a fidelity", p.size(e) + p.size(f), [&] { return p.fidelity(e, f); });
                    const C      ip  = val(p.innerProduct(f, e));
                    if (std::abs(got - want) > 1e-8 || std::abs(std::norm(ip) - want) > 1e-8 || !close(ip, innerOf(f, e), 1e-8)) {
                        fail("fidelity ", got, " and inner product ", ip, " of two states, expected ", want, " and ", innerOf(f, e));
                    }
                    // |e><..|: their sum
                    const auto s = timed("a sum", p.size(e) + p.size(f), [&] { return p.add(e, f); });
                    const C    w = innerOf(e, s);
                    if (!close(w, 1. + innerOf(e, f), 1e-8) || !close(innerOf(s, s), 2. + 2. * innerOf(e, f).real(), 1e-8)) {
                        fail("the sum of two states has the overlap ", w, " and squared norm ", innerOf(s, s), ", expected ", 1. + innerOf(e, f), " and ", 2. + 2. * innerOf(e, f).real());
                    }
                    p.decRef(f);
                    break;
                }
                case 4: { // one amplitude
                    Tableau         u = t;
                    std::mt19937_64 mt(g.below(1ULL << 32U));
                    auto            s = p.measureAll(e, false, mt);
                    double          w = 1.;
                    std::string     path;
                    for (int q = n - 1; q >= 0; --q) {
                        auto b = s[static_cast<std::size_t>(n - 1 - q)];
                        if (g.oneIn(8)) {
                            b = b == '0' ? '1' : '0';
                        }
                        w *= u.measure(zOn(q), b == '1');
                        if (w == 0.) {
                            for (int r = q; r >= 0; --r) {
                                path += r == q ? b : '0';
                            }
                            break;
                        }
                        path += b;
                    }
                    const double got = std::norm(val(p.getValueByPath(e, std::string(path.rbegin(), path.rend()))));
                    if (std::abs(std::sqrt(got) - std::sqrt(w)) > 1e-9) {
                        fail("the amplitude of ", path, " has the square ", got, ", expected ", w);
                    }
                    break;
                }
                case 5: { // copies: transferred, written and read
                    auto q = makePkg(n);
                    auto r = timed("a transfer", p.size(e), [&] { return q->transfer(e); });
                    compare(g, *q, r, t, "after a transfer");
                    if (q->size(r) > p.size(e)) {
                        fail("the transferred state has ", q->size(r), " nodes, the original ", p.size(e));
                    }
                    break;
                }
                default: {
                    auto more = circuit(g, n, true);
                    g.note("then ", list(more));
                    advance(p, e, t, more, g);
                    compare(g, p, e, t, "after more gates");
                    break;
                }
            }
        }
        if (n >= 12 && p.size(e) > static_cast<unsigned int>(n + 1)) {
            g.nontrivial();
        }
        p.decRef(e);
        p.garbageCollect(true);
        if (p.vUniqueTable.getNodeCount() != 0 || p.mUniqueTable.getActiveNodeCount() != 0) {
            fail(p.vUniqueTable.getNodeCount(), " vector nodes are left, ", p.mUniqueTable.getActiveNodeCount(), " matrix nodes in use");
        }
    }
    // P -> U P U^dagger as matrices
    void operators(Gen& g) {
        const int      n   = std::min(widthOf(g), 48);
        auto           pkg = makePkg(n);
        auto&          p   = *pkg;
        auto           u   = p.makeIdent(static_cast<dd::QubitCount>(n));
        std::vector<G> done;
        p.incRef(u);
        for (const auto& o: circuit(g, n, true)) {
            if (p.size(u) > LARGE) {
                break;
            }
            const bool left = !g.oneIn(8);
            const auto r    = timed("a product of gates", p.size(u), [&] { return left ? p.multiply(gateOf(p, o, n), u) : p.multiply(u, gateOf(p, o, n)); });
            p.incRef(r);
            p.decRef(u);
            u = r;
            done.insert(left ? done.end() : done.begin(), o);
            p.garbageCollect();
        }
        g.note(n, " qubits: ", list(done));
        const C nn = innerOf(u, u);
        if (!close(nn, 1., 1e-9)) {
            fail("a product of gates isn't unitary: tr(U^U)/2^n is ", nn);
        }
        const auto ud = timed("an adjoint", p.size(u), [&] { return p.conjugateTranspose(u); });
        const auto ut = timed("a transpose", p.size(u), [&] { return p.transpose(u); });
        p.incRef(ud);
        if (p.size(ud) != p.size(u) || p.size(ut) != p.size(u)) {
            fail("a matrix of ", p.size(u), " nodes has a transpose of ", p.size(ut), " and an adjoint of ", p.size(ud));
        }
        if (p.size(u) <= 120) {
            const auto id = timed("U^ U", p.size(u), [&] { return p.multiply(ud, u); });
            if (!close(innerOf(p.makeIdent(static_cast<dd::QubitCount>(n)), id), 1., 1e-8) || !p.isCloseToIdentity(id)) {
                fail("the adjoint of a circuit is not its inverse");
            }
            for (int k = 0; k < 3; ++k) {
                Pauli q;
                for (int a = 0; a < n; ++a) {
                    if (g.oneIn(3)) {
                        q.x[static_cast<std::size_t>(a)] = g.flip();
                        q.z[static_cast<std::size_t>(a)] = g.flip();
                    }
                }
                Pauli r = q;
                for (const auto& o: done) {
                    conjugate(r, o);
                }
                const auto m = timed("U P U^", p.size(u), [&] { return p.multiply(p.multiply(u, pauliDD(p, q, n)), ud); });
                const C    v = innerOf(pauliDD(p, r, n), m);
                if (!close(v, 1., 1e-8) || !close(innerOf(m, m), 1., 1e-8)) {
                    fail("a conjugated Pauli operator has the overlap ", v, " with what is expected");
                }
                // applied to a state: U P |0> = (U P U^) U |0>
                const auto z = p.makeZeroState(static_cast<dd::QubitCount>(n));
                const auto l = p.multiply(u, p.multiply(pauliDD(p, q, n), z));
                const auto s = p.multiply(m, p.multiply(u, z));
                if (!close(innerOf(l, s), 1., 1e-8)) {
                    fail("U P |0> and (U P U^) U |0> have the overlap ", innerOf(l, s));
                }
            }
        }
        // (U + V) and products with identities
        const auto o   = twofold(g, 0, 1);
        const auto v   = gateOf(p, o, n);
        const auto sum = timed("a sum", p.size(u), [&] { return p.add(u, v); });
        // the entries are as small as 2^(-n/2) and their sums accurate to the tolerance
        const double tol = 1e-8 + 1e-12 * std::pow(2., 0.5 * n);
        if (!close(innerOf(v, sum), 1. + innerOf(v, u), tol) || !close(innerOf(u, sum), 1. + innerOf(u, v), tol)) {
            fail("the sum of two matrices has the overlaps ", innerOf(v, sum), " and ", innerOf(u, sum));
        }
        if (2 * n <= 96) {
            p.resize(static_cast<std::size_t>(2 * n));
            const auto kr = timed("a Kronecker product", p.size(u), [&] { return p.kronecker(u, v); });
            if (!close(innerOf(kr, kr), 1., 1e-8) || p.size(kr) != p.size(u) + p.size(v) - 1) {
                fail("the Kronecker product of matrices of ", p.size(u), " and ", p.size(v), " nodes has ", p.size(kr), " and tr(K^K)/2^n is ", innerOf(kr, kr));
            }
        }
        if (n >= 10 && p.size(u) > static_cast<unsigned int>(n + 1)) {
            g.nontrivial();
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C40",
                      "Clifford circuits on 2-72 qubits (ladders, neighbours, far apart, all qubits in superposition) as states and as matrices: stabilizers, measurements, samples, amplitudes, observables, overlaps, sums, transposes, products and conjugated "
                      "Pauli operators against a stabilizer tableau; every operation must finish within a CPU-time limit thousands of times what it needs; non-trivial: at least 12 (10 for matrices) qubits and more nodes than a product state has",
                      {{"states", 3, states}, {"operators", 2, operators}}};
    return p;
}
