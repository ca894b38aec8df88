// C14: decision diagrams are canonical: one node per function (up to a factor), whatever way it was built.
#include "ref.hpp"
using namespace rf;

namespace {
    // amplitudes that stay well-conditioned under the operations below
    C genCoef(Gen& g) { return g.oneIn(3) ? C{static_cast<double>(g.range(-8, 8)) / 8., static_cast<double>(g.range(-8, 8)) / 8.} : genExact(g); }
    Vec genV(Gen& g, int n) {
        Vec v(1ULL << n);
        if (g.flip()) {
            std::vector<C> pool;
            for (auto k = 1 + g.irange(0, 3); k > 0; --k) {
                pool.push_back(genCoef(g));
            }
            for (auto& x: v) {
                x = g.pick(pool);
            }
        } else if (g.flip()) {
            v = {C{1., 0.}};
            for (int i = 0; i < n; ++i) {
                v = kron(Vec{genCoef(g), genCoef(g)}, v);
            }
        } else {
            for (auto& x: v) {
                x = genCoef(g);
            }
        }
        return v;
    }
    template<class E>
    void same(const E& a, const E& b, const std::string& how) {
        if (a.p != b.p) {
            fail("the same function has two different nodes (", how, ")");
        }
        if (!close(val(a.w), val(b.w), 1e-9 * std::max(1., std::abs(val(a.w))))) {
            fail("the same function has root weights ", val(a.w), " and ", val(b.w), " (", how, ")");
        }
    }
    template<class E>
    void differ(const E& a, const E& b) {
        if (a.p == b.p && close(val(a.w), val(b.w), 1e-12)) {
            fail("two different functions have the same decision diagram");
        }
    }

    dd::vEdge basisScaled(Pkg& p, int n, std::size_t i, C c) {
        std::vector<bool> b(static_cast<std::size_t>(n));
        for (int k = 0; k < n; ++k) {
            b[static_cast<std::size_t>(k)] = ((i >> k) & 1U) != 0U;
        }
        auto e = p.makeBasisState(static_cast<dd::QubitCount>(n), b);
        e.w    = p.cn.lookup(c.real(), c.imag());
        return e;
    }

    void vectorRoutes(Gen& g) {
        const int n   = anySize(g, 1, 4, 6);
        auto      pkg = makePkg(n + 1);
        auto&     p   = *pkg;
        const auto v  = genV(g, n);
        g.note("v = ", str(v));
        const auto e = vecDD(p, v);
        if (e.isTerminal()) {
            throw pb::Discard{};
        }
        p.incRef(e);
        if (nonTrivialVec(v)) {
            g.nontrivial();
        }
        for (int r = 1 + g.irange(0, 3); r > 0; --r) {
            if (g.oneIn(3)) {
                const auto w = genV(g, n);
                p.incRef(vecDD(p, w));
            }
            if (g.oneIn(4)) {
                p.garbageCollect(true);
            }
            switch (g.below(8)) {
                case 0: // sum of scaled basis states, in random order
                {
                    const auto order = g.permutation(static_cast<int>(v.size()));
                    auto       s     = dd::vEdge::zero;
                    for (const int i: order) {
                        const auto c = v[static_cast<std::size_t>(i)];
                        if (c != C{}) {
                            s = p.add(s, basisScaled(p, n, static_cast<std::size_t>(i), c));
                        }
                    }
                    same(e, s, "sum of basis states");
                    break;
                }
                case 1: same(e, vecDD(p, v), "built again"); break;
                case 2: { // (v + w) - w
                    const auto w  = genV(g, n);
                    const auto ew = vecDD(p, w);
                    const auto em = vecDD(p, scale(w, -1.));
                    same(e, p.add(p.add(e, ew), em), "v + w - w");
                    g.note("w = ", str(w));
                    break;
                }
                case 3: { // apply a circuit of Clifford gates and its inverse
                    std::vector<Gate> c;
                    auto              f = e;
                    for (auto k = 1 + g.irange(0, 5); k > 0; --k) {
                        c.push_back(genGate(g, n, true));
                        f = p.multiply(gateDD(p, c.back(), n), f);
                        g.note(str(c.back()));
                    }
                    while (!c.empty()) {
                        f = p.multiply(p.conjugateTranspose(gateDD(p, c.back(), n)), f);
                        c.pop_back();
                    }
                    same(e, f, "circuit and its inverse");
                    break;
                }
                case 4: { // scaled copies share the node
                    const auto c = genCoef(g);
                    const auto f = vecDD(p, scale(v, c));
                    g.note("scaled by ", c);
                    if (c == C{}) {
                        if (!f.isTerminal()) {
                            fail("zero vector is not the zero terminal");
                        }
                        break;
                    }
                    if (e.p != f.p) {
                        fail("a multiple of a vector has a different node");
                    }
                    if (!close(val(f.w), val(e.w) * c, 1e-9)) {
                        fail("root weight of the multiple is ", val(f.w), ", expected ", val(e.w) * c);
                    }
                    break;
                }
                case 5: { // identity applied; doubled and halved
                    same(e, p.multiply(p.makeIdent(static_cast<dd::QubitCount>(n)), e), "identity applied");
                    auto h = p.add(e, e);
                    h.w    = p.cn.lookup(val(h.w) * 0.5);
                    same(e, h, "half of v + v");
                    break;
                }
                case 6: { // through a Kronecker product
                    const auto u  = Vec{genCoef(g), genCoef(g)};
                    const auto eu = vecDD(p, u);
                    if (!eu.isTerminal()) {
                        same(vecDD(p, kron(u, v)), p.kronecker(eu, e), "Kronecker product");
                    }
                    break;
                }
                default: { // another vector
                    const auto w = genV(g, n);
                    if (norm(add(v, scale(w, -1.))) > 1e-6) {
                        differ(e, vecDD(p, w));
                    }
                    break;
                }
            }
        }
    }

    void matrixRoutes(Gen& g) {
        const int n   = anySize(g, 1, 3, 5);
        auto      pkg = makePkg(n + 1);
        auto&     p   = *pkg;
        Mat       m(1ULL << n);
        switch (g.below(4)) {
            case 0: m.a = genV(g, 2 * n); break;
            case 1: m = genUnitary(g, n, true); break;
            case 2: m = genPermutation(g, n); break;
            default: {
                m = Mat::ident(1);
                for (int i = 0; i < n; ++i) {
                    Mat f(2);
                    f.a = genV(g, 2);
                    m   = kron(f, m);
                }
                break;
            }
        }
        g.note("M = ", str(m));
        const auto e = matDD(p, m);
        if (e.isTerminal()) {
            throw pb::Discard{};
        }
        p.incRef(e);
        if (nonTrivialVec(m.a)) {
            g.nontrivial();
        }
        for (int r = 1 + g.irange(0, 3); r > 0; --r) {
            if (g.oneIn(4)) {
                p.garbageCollect(true);
            }
            switch (g.below(8)) {
                case 0: same(e, matDD(p, m), "built again"); break;
                case 1: same(e, p.transpose(p.transpose(e)), "transposed twice"); break;
                case 2: same(e, p.conjugateTranspose(p.conjugateTranspose(e)), "conjugate-transposed twice"); break;
                case 3: same(matDD(p, transpose(m)), p.transpose(e), "transpose"); break;
                case 4: same(matDD(p, adjoint(m)), p.conjugateTranspose(e), "conjugate transpose"); break;
                case 5: {
                    const auto x = g.flip() ? genUnitary(g, n, true) : genPermutation(g, n);
                    g.note("X = ", str(x));
                    const auto ex = matDD(p, x);
                    same(e, p.multiply(p.conjugateTranspose(ex), p.multiply(ex, e)), "unitary and its inverse");
                    break;
                }
                case 6: { // sum of two parts
                    Mat a(m.n);
                    Mat b(m.n);
                    for (std::size_t i = 0; i < m.a.size(); ++i) {
                        (g.flip() ? a : b).a[i] = m.a[i];
                    }
                    same(e, p.add(matDD(p, a), matDD(p, b)), "sum of two parts");
                    break;
                }
                default: {
                    const auto id = p.makeIdent(static_cast<dd::QubitCount>(n));
                    same(e, g.flip() ? p.multiply(id, e) : p.multiply(e, id), "product with the identity");
                    break;
                }
            }
        }
    }

    // gate constructions are canonical as well: same node as the decision diagram of the dense matrix
    void gates(Gen& g) {
        const int  n   = anySize(g, 1, 4, 6);
        auto       pkg = makePkg(n);
        const auto x   = genGate(g, n);
        g.note(str(x));
        if (g.flip()) {
            same(matDD(*pkg, matOf(x, n)), gateDD(*pkg, x, n), "gate " + x.name);
        } else {
            const auto e = gateDD(*pkg, x, n);
            same(e, matDD(*pkg, matOf(x, n)), "gate " + x.name);
        }
        if (!x.cs.empty()) {
            g.nontrivial();
        }
    }

    // ---- the number of nodes is the number of distinct sub-functions (up to a factor) -----------------------------
    bool proportional(const C* a, const C* b, std::size_t len, bool& ambiguous) {
        // compares direction: |<a,b>|^2 = |a|^2 |b|^2
        double na = 0;
        double nb = 0;
        C      ip{};
        for (std::size_t i = 0; i < len; ++i) {
            na += std::norm(a[i]);
            nb += std::norm(b[i]);
            ip += std::conj(a[i]) * b[i];
        }
        const double d = 1 - std::norm(ip) / (na * nb);
        if (d > 1e-12 && d < 1e-8) {
            ambiguous = true;
        }
        return d <= 1e-12;
    }
    bool allZero(const C* a, std::size_t len) {
        return std::all_of(a, a + len, [](const C& c) { return std::abs(c) < 1e-12; });
    }
    void countSub(const std::vector<Vec>& subs, std::size_t& count, bool& ambiguous) {
        std::vector<const Vec*> rep;
        for (const auto& s: subs) {
            if (allZero(s.data(), s.size())) {
                continue;
            }
            bool found = false;
            for (const auto* r: rep) {
                if (proportional(s.data(), r->data(), s.size(), ambiguous)) {
                    found = true;
                    break;
                }
            }
            if (!found) {
                rep.push_back(&s);
            }
        }
        count += rep.size();
    }
    void vectorSize(Gen& g) {
        const int  n = anySize(g, 1, 6, 9);
        const auto v = g.flip() ? genV(g, n) : genVec(g, n, false);
        auto       pkg = makePkg(n);
        if (g.flip()) {
            vecDD(*pkg, genV(g, n));
        }
        const auto e = vecDD(*pkg, v);
        g.note("v = ", str(v));
        for (const auto& x: v) {
            if (x != C{} && std::abs(x) < 1e-3) { // would be compared below the accuracy of the weights
                throw pb::Discard{};
            }
        }
        std::size_t want      = 1; // terminal
        bool        ambiguous = false;
        for (int l = 1; l <= n; ++l) {
            const std::size_t len = 1ULL << l;
            std::vector<Vec>  subs;
            for (std::size_t o = 0; o < v.size(); o += len) {
                subs.emplace_back(v.begin() + static_cast<long>(o), v.begin() + static_cast<long>(o + len));
            }
            countSub(subs, want, ambiguous);
        }
        if (ambiguous) {
            throw pb::Discard{};
        }
        const auto got = pkg->size(e);
        if (got != want) {
            fail("decision diagram has ", got, " nodes; the vector has ", want, " distinct sub-vectors (counting the terminal)");
        }
        if (want > static_cast<std::size_t>(n) + 1) {
            g.nontrivial();
        }
        if (pkg->size(e) != want) {
            fail("size changes when asked again");
        }
    }
    void matrixSize(Gen& g) {
        const int n = g.irange(1, 3);
        Mat       m(1ULL << n);
        if (g.flip()) {
            m.a = genV(g, 2 * n);
        } else {
            m = genMat(g, n, false);
        }
        auto       pkg = makePkg(n);
        const auto e   = matDD(*pkg, m);
        g.note("M = ", str(m));
        for (const auto& x: m.a) {
            if (x != C{} && std::abs(x) < 1e-3) {
                throw pb::Discard{};
            }
        }
        std::size_t want      = 1;
        bool        ambiguous = false;
        for (int l = 1; l <= n; ++l) {
            const std::size_t len = 1ULL << l;
            std::vector<Vec>  subs;
            for (std::size_t i = 0; i < m.n; i += len) {
                for (std::size_t j = 0; j < m.n; j += len) {
                    Vec s;
                    for (std::size_t a = 0; a < len; ++a) {
                        for (std::size_t b = 0; b < len; ++b) {
                            s.push_back(m(i + a, j + b));
                        }
                    }
                    subs.push_back(s);
                }
            }
            countSub(subs, want, ambiguous);
        }
        if (ambiguous) {
            throw pb::Discard{};
        }
        const auto got = pkg->size(e);
        if (got != want) {
            fail("decision diagram has ", got, " nodes; the matrix has ", want, " distinct sub-matrices (counting the terminal)");
        }
        if (want > static_cast<std::size_t>(n) + 1) {
            g.nontrivial();
        }
    }
    // sub-functions that differ in a small factor share their node, too
    void scaledBlocks(Gen& g) {
        const int         n   = g.irange(1, 3);
        auto              pkg = makePkg(n + 1);
        const bool        vec = n > 2 || g.flip();
        const std::size_t k   = vec ? 2 : 4;
        std::vector<C>    f;
        for (std::size_t i = 0; i < k; ++i) {
            f.push_back(g.pick({1., 1e-1, 1e-3, 1e-5, 1e-6, 1e-7}) * g.pick<C>({{1., 0.}, {-1., 0.}, {0., 1.}, {S2, -S2}, {0.3, 0.4}}));
        }
        const auto b = genV(g, vec ? n : 2 * n);
        if (maxAbs(b) < 1e-3) {
            throw pb::Discard{};
        }
        g.note(vec ? "vector" : "matrix", " of multiples ", str(f), " of the block ", str(b));
        auto shared = [&](const auto& e) {
            for (std::size_t i = 1; i < k; ++i) {
                if (e.p->e[i].p != e.p->e[0].p) {
                    fail("blocks that differ in the factor ", f[i] / f[0], " do not share a node");
                }
            }
        };
        if (vec) {
            shared(vecDD(*pkg, kron(f, b)));
        } else {
            Mat o(2);
            o.a = f;
            Mat m(1ULL << n);
            m.a = b;
            shared(matDD(*pkg, kron(o, m)));
        }
        if (nonTrivialVec(b)) {
            g.nontrivial();
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C14",
                      "random well-conditioned vectors (1-4 qubits) and matrices (1-3 qubits) built along several routes (direct, sums, circuit and inverse, products, transposes, scaled copies) with collections in between: same node; "
                      "node counts against the number of distinct sub-functions; blocks that differ in a factor down to 1e-7; non-trivial: at least two non-zero entries / a controlled gate / branching sub-functions",
                      {{"vectorRoutes", 4, vectorRoutes}, {"matrixRoutes", 4, matrixRoutes}, {"gates", 2, gates}, {"vectorSize", 2, vectorSize}, {"matrixSize", 2, matrixSize}, {"scaledBlocks", 2, scaledBlocks}}};
    return p;
}
