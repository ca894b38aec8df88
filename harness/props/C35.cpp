// C35: long simulations with automatic collections: references taken and released as in a simulator, default limits.
#include "inv.hpp"

#include <random>
using namespace rf;

namespace {
    // applies a gate to a dense vector in place
    void applyGate(Vec& v, const Gate& x) {
        const std::size_t a = 1ULL << x.t0;
        if (x.t1 < 0) {
            for (std::size_t i = 0; i < v.size(); ++i) {
                if ((i & a) == 0 && active(i, x.cs)) {
                    const C p = v[i];
                    const C q = v[i | a];
                    v[i]      = x.u[0] * p + x.u[1] * q;
                    v[i | a]  = x.u[2] * p + x.u[3] * q;
                }
            }
            return;
        }
        const std::size_t b = 1ULL << x.t1;
        for (std::size_t i = 0; i < v.size(); ++i) {
            if ((i & (a | b)) == 0 && active(i, x.cs)) {
                const std::array<std::size_t, 4> at{i, i | b, i | a, i | a | b};
                std::array<C, 4>                 in{};
                for (std::size_t k = 0; k < 4; ++k) {
                    in[k] = v[at[k]];
                }
                for (std::size_t k = 0; k < 4; ++k) {
                    v[at[k]] = C{};
                    for (std::size_t l = 0; l < 4; ++l) {
                        v[at[k]] += x.u2[k][l] * in[l];
                    }
                }
            }
        }
    }
    struct Two {
        const char*            name;
        dd::TwoQubitGateMatrix m;
    };
    Gate anyGate(Gen& g, int n) {
        if (n > 1 && g.oneIn(4)) {
            static const std::vector<Two> two{{"SWAP", dd::SWAPmat}, {"iSWAP", dd::iSWAPmat}, {"ECR", dd::ECRmat}, {"DCX", dd::DCXmat}};
            const auto&                   t = g.pick(two);
            Gate                          x;
            x.name = t.name;
            x.t0   = g.irange(0, n - 1);
            x.t1   = (x.t0 + g.irange(1, n - 1)) % n;
            for (std::size_t i = 0; i < 4; ++i) {
                for (std::size_t j = 0; j < 4; ++j) {
                    x.u2[i][j] = val(t.m[i][j]);
                }
            }
            return x;
        }
        return genGate(g, n);
    }
    dd::mEdge gateOf(Pkg& p, const Gate& x, int n) {
        const auto q = static_cast<dd::QubitCount>(n);
        if (x.t1 < 0) {
            return p.makeGateDD(fromG1(x.u), q, toControls(x.cs), static_cast<dd::Qubit>(x.t0));
        }
        return p.makeTwoQubitGateDD(fromG2(x.u2), q, static_cast<dd::Qubit>(x.t0), static_cast<dd::Qubit>(x.t1));
    }
    struct Watch { // notices collections of any kind
        Pkg&        p;
        std::size_t numbers = 0, vecs = 0, mats = 0;
        int         seen = 0;
        void        before() {
            numbers = p.cn.complexTable.getCount();
            vecs    = p.vUniqueTable.getNodeCount();
            mats    = p.mUniqueTable.getNodeCount();
        }
        void after(bool reported) {
            const bool happened = p.cn.complexTable.getCount() < numbers || p.vUniqueTable.getNodeCount() < vecs || p.mUniqueTable.getNodeCount() < mats;
            if (happened != reported) {
                fail(happened ? "a collection is not reported" : "a collection is reported, but nothing was collected");
            }
            if (happened) {
                checkNumbersStored(p);
            }
            seen += happened ? 1 : 0;
        }
    };
    // numbers of other work, such that a collection is due soon
    void burden(Gen& g, Pkg& p) {
        auto       x   = 0.25 + g.unit() / 16.;
        const auto lim = 50000 + g.below(20000);
        g.note("other work leaves numbers behind");
        for (std::uint64_t k = 0; k < lim && p.cn.complexTable.getCount() < lim && !p.cn.complexTable.possiblyNeedsCollection(); ++k) {
            x += 4.3e-6;
            p.cn.lookup(x, -x / 3.);
        }
    }
    void simulate(Gen& g) {
        const int n   = g.oneIn(3) ? g.irange(9, 12) : g.irange(2, 8);
        auto      pkg = makePkg(n);
        auto&     p   = *pkg;
        Watch     w{p};
        // a few states live at the same time
        struct State {
            dd::vEdge e;
            Vec       v;
        };
        std::vector<State> states;
        Vec                zero(1ULL << n);
        zero[0] = 1.;
        states.push_back({p.makeZeroState(static_cast<dd::QubitCount>(n)), zero});
        p.incRef(states[0].e);
        const auto len   = n < 9 ? 5 + g.below(300) : 20 + g.below(100);
        bool       dense = g.mostly(3); // fill the state with different numbers first
        if (dense) {
            g.tag("random states");
        }
        auto doGate = [&](State& s, const Gate& x, bool auto_) {
            const auto r = p.multiply(gateOf(p, x, n), s.e);
            p.incRef(r);
            p.decRef(s.e);
            s.e = r;
            applyGate(s.v, x);
            if (auto_) {
                w.before();
                w.after(p.garbageCollect());
            }
        };
        if (dense) {
            for (int q = 0; q < n; ++q) {
                Gate x;
                x.name = "U";
                x.t0   = q;
                x.u    = randomUnitary1(g);
                if (q > 0 && g.mostly(4)) {
                    x.cs = {{q - 1, g.flip()}};
                }
                g.note(str(x));
                doGate(states[0], x, true);
            }
        }
        const auto every = 1 + g.below(3); // gates between two calls of the collector
        for (std::uint64_t k = 0; k < len; ++k) {
            const auto i = g.below(states.size());
            auto&      s = states[i];
            if (k == 0 ? g.flip() : g.oneIn(25)) {
                burden(g, p);
            }
            switch (g.weighted({30, 1, 1, 1, 1})) {
                case 1: // a copy
                    if (states.size() < 4) {
                        g.note("copy state ", i);
                        const auto c = s;
                        p.incRef(c.e);
                        states.push_back(c);
                    }
                    break;
                case 2:
                    if (states.size() > 1) {
                        g.note("drop state ", i);
                        p.decRef(s.e);
                        states.erase(states.begin() + static_cast<long>(i));
                    }
                    break;
                case 3: { // measure a qubit
                    const auto      q = g.below(static_cast<std::uint64_t>(n));
                    std::mt19937_64 mt(g.below(1ULL << 32U));
                    g.note("measure qubit ", q, " of state ", i);
                    const auto one = p.measureOneCollapsing(s.e, static_cast<dd::Qubit>(q), true, mt, 1e-3) == '1';
                    double     pr  = 0.;
                    for (std::size_t j = 0; j < s.v.size(); ++j) {
                        if ((((j >> q) & 1U) != 0U) != one) {
                            s.v[j] = C{};
                        }
                        pr += std::norm(s.v[j]);
                    }
                    if (!(pr > 1e-9)) {
                        fail("a measurement gave an outcome of probability ", pr);
                    }
                    s.v = scale(s.v, 1. / std::sqrt(pr));
                    break;
                }
                case 4: { // compare two states
                    const auto& o    = g.pick(states);
                    const auto  want = inner(o.v, s.v);
                    const C     got  = val(p.innerProduct(o.e, s.e));
                    if (!close(got, want, 1e-8)) {
                        fail("the inner product of two states is ", got, ", expected ", want, ", after ", k, " steps");
                    }
                    break;
                }
                default: {
                    auto x = anyGate(g, n);
                    if (x.t1 < 0 && dense && g.flip()) {
                        x.name = "U";
                        x.u    = randomUnitary1(g);
                    }
                    g.note(str(x), " on state ", i);
                    doGate(s, x, k % every == 0);
                    break;
                }
            }
            if (g.oneIn(16)) {
                for (const auto& t: states) {
                    const auto j = g.below(t.v.size());
                    const C    a = val(p.getValueByPath(t.e, j));
                    if (!close(a, t.v[j], 1e-8)) {
                        fail("amplitude ", j, " is ", a, ", expected ", t.v[j], " after ", k, " steps");
                    }
                }
            }
        }
        for (const auto& t: states) {
            expectVec(readVec(t.e, n), t.v, 1e-8, "a state at the end");
            checkVector(p, t.e, false);
        }
        // nothing but the states is left
        for (const auto& t: states) {
            p.decRef(t.e);
        }
        if (p.vUniqueTable.getActiveNodeCount() != 0) {
            fail(p.vUniqueTable.getActiveNodeCount(), " state nodes remain referenced");
        }
        if (w.seen > 0) {
            g.nontrivial();
            g.tag("collections");
        }
    }
    // the matrix of a circuit, built from both sides
    void functionality(Gen& g) {
        const int  n   = g.irange(2, 6);
        auto       pkg = makePkg(n);
        auto&      p   = *pkg;
        Watch      w{p};
        auto       m     = p.makeIdent(static_cast<dd::QubitCount>(n));
        const auto dim   = 1ULL << n;
        auto       cols  = std::vector<Vec>(dim, Vec(dim)); // columns of the matrix
        for (std::size_t i = 0; i < dim; ++i) {
            cols[i][i] = 1.;
        }
        p.incRef(m);
        const auto len = 10 + g.below(n < 5 ? 200 : 80);
        for (std::uint64_t k = 0; k < len; ++k) {
            auto x = anyGate(g, n);
            if (k == 0 ? g.flip() : g.oneIn(25)) {
                burden(g, p);
            }
            if (g.oneIn(3)) {
                x.t1   = -1;
                x.name = "U";
                x.u    = randomUnitary1(g);
                x.cs.erase(std::remove_if(x.cs.begin(), x.cs.end(), [&](const auto& c) { return c.q == x.t0; }), x.cs.end());
            }
            const bool right = g.oneIn(4);
            g.note(str(x), right ? " from the right" : "");
            const auto e = gateOf(p, x, n);
            const auto r = right ? p.multiply(m, e) : p.multiply(e, m);
            p.incRef(r);
            p.decRef(m);
            m = r;
            w.before();
            w.after(p.garbageCollect());
            if (right) { // rows: (M G)^T = G^T M^T
                Mat d(dim);
                for (std::size_t j = 0; j < dim; ++j) {
                    for (std::size_t i = 0; i < dim; ++i) {
                        d(i, j) = cols[j][i];
                    }
                }
                auto y = x;
                std::swap(y.u[1], y.u[2]);
                for (std::size_t i = 0; i < 4; ++i) {
                    for (std::size_t j = 0; j < i; ++j) {
                        std::swap(y.u2[i][j], y.u2[j][i]);
                    }
                }
                for (std::size_t i = 0; i < dim; ++i) {
                    Vec row(dim);
                    for (std::size_t j = 0; j < dim; ++j) {
                        row[j] = d(i, j);
                    }
                    applyGate(row, y);
                    for (std::size_t j = 0; j < dim; ++j) {
                        cols[j][i] = row[j];
                    }
                }
            } else {
                for (auto& c: cols) {
                    applyGate(c, x);
                }
            }
        }
        Mat want(dim);
        for (std::size_t j = 0; j < dim; ++j) {
            for (std::size_t i = 0; i < dim; ++i) {
                want(i, j) = cols[j][i];
            }
        }
        expectMat(readMat(m, n), want, 1e-8, "the matrix of a circuit");
        // undone by its adjoint
        const auto u = p.multiply(p.conjugateTranspose(m), m);
        expectMat(readMat(u, n), Mat::ident(dim), 1e-8, "the matrix times its adjoint");
        p.decRef(m);
        if (p.mUniqueTable.getActiveNodeCount() != 0) {
            std::size_t idents = 0; // the cached identities stay
            const auto  top    = p.makeIdent(static_cast<dd::QubitCount>(n));
            for (const auto* q = top.p; !dd::mNode::isTerminal(q); q = q->e[0].p) {
                ++idents;
            }
            if (p.mUniqueTable.getActiveNodeCount() > idents) {
                fail(p.mUniqueTable.getActiveNodeCount(), " matrix nodes remain referenced");
            }
        }
        if (w.seen > 0) {
            g.nontrivial();
            g.tag("collections");
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C35",
                      "long random circuits on up to 12 qubits applied to several states living side by side, or multiplied up to matrices on up to 6 qubits, with references handled as in a simulator and collections left to "
                      "the package, against dense simulation; non-trivial: at least one collection happened on its own",
                      {{"simulate", 3, simulate}, {"functionality", 1, functionality}}};
    return p;
}
