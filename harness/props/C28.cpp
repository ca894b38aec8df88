// C28: ancilla and garbage reduction.
#include "inv.hpp"
using namespace rf;

namespace {
    std::vector<bool> genFlags(Gen& g, int n) {
        std::vector<bool> f;
        for (int q = 0; q < n; ++q) {
            f.push_back(g.flip());
        }
        for (int k = g.oneIn(8) ? g.irange(1, 2) : 0; k > 0; --k) { // longer than needed
            f.push_back(g.flip());
        }
        return f;
    }
    std::size_t maskOf(const std::vector<bool>& f, int n) {
        std::size_t m = 0;
        for (int q = 0; q < n; ++q) {
            m |= f[static_cast<std::size_t>(q)] ? 1ULL << q : 0U;
        }
        return m;
    }
    std::string flags(const std::vector<bool>& f) {
        std::string d;
        for (const bool b: f) {
            d += b ? "x" : "-";
        }
        return d;
    }
    Mat ancillaeRef(const Mat& m, std::size_t mask, bool regular) {
        auto r = m;
        for (std::size_t i = 0; i < m.n; ++i) {
            for (std::size_t j = 0; j < m.n; ++j) {
                if (((regular ? j : i) & mask) != 0) {
                    r(i, j) = 0.;
                }
            }
        }
        return r;
    }
    Mat garbageRef(const Mat& m, std::size_t mask, bool regular) {
        Mat r(m.n);
        for (std::size_t i = 0; i < m.n; ++i) {
            for (std::size_t j = 0; j < m.n; ++j) {
                if (regular) {
                    r(i & ~mask, j) += m(i, j);
                } else {
                    r(i, j & ~mask) += m(i, j);
                }
            }
        }
        return r;
    }
    // entries whose contributions never meet: at most one per class of merged positions
    bool disjoint(const Mat& m, std::size_t mask, bool regular) {
        std::vector<int> cnt(m.n * m.n);
        for (std::size_t i = 0; i < m.n; ++i) {
            for (std::size_t j = 0; j < m.n; ++j) {
                if (m(i, j) != C{} && cnt[regular ? (i & ~mask) * m.n + j : i * m.n + (j & ~mask)]++ > 0) {
                    return false;
                }
            }
        }
        return true;
    }
    template<class DD>
    void wellFormed(DD& pkg, const dd::mEdge& e) {
        checkMatrix(pkg, e, false);
        checkContained(storedNodes<dd::mNode>(pkg), e);
    }
    // the same block once more, but (almost) vanishing
    void shadow(Gen& g, Mat& m, int n) {
        const auto b    = 1ULL << g.irange(0, n - 1);
        const auto tiny = g.pick({1e-9, 1e-6, 1e-11, 4e-13, 2.5e-13, 1.5e-12}) * std::polar(1., g.flip() ? 0. : g.real(-3.2, 3.2));
        const auto from = g.below(4); // block repeated
        const auto to   = g.below(4); // block replaced
        for (std::size_t i = 0; i < m.n; ++i) {
            for (std::size_t j = 0; j < m.n; ++j) {
                if (((i & b) != 0) == ((to & 2U) != 0) && ((j & b) != 0) == ((to & 1U) != 0) && to != from) {
                    m(i, j) = tiny * m((from & 2U) != 0 ? i | b : i & ~b, (from & 1U) != 0 ? j | b : j & ~b);
                }
            }
        }
        g.tag("almost vanishing copy of a block");
    }
    void ancillae(Gen& g) {
        const int  n   = anySize(g, 1, 4, 6);
        auto       pkg = makePkg(n + g.irange(0, 2));
        auto       m   = g.oneIn(3) ? genUnitary(g, n) : genMat(g, n, false);
        for (int k = g.oneIn(4) ? g.irange(1, 2) : 0; k > 0; --k) {
            shadow(g, m, n);
        }
        auto       e   = matDD(*pkg, m);
        if (e.isTerminal()) {
            throw pb::Discard{};
        }
        auto r = readMat(e, n);
        pkg->incRef(e);
        g.note(str(r));
        for (int k = g.irange(1, 3); k > 0 && !e.isTerminal(); --k) {
            const auto f       = genFlags(g, n);
            const bool regular = g.below(3) != 0;
            g.note("ancillae ", flags(f), regular ? "" : " (rows)");
            const auto mask = maskOf(f, n);
            e               = regular && g.flip() ? pkg->reduceAncillae(e, f) : pkg->reduceAncillae(e, f, regular);
            const auto want = ancillaeRef(r, mask, regular);
            const auto got  = readMat(e, n);
            expectMat(got, want, tolFor(maxAbs(r)), "ancilla reduction of ", flags(f), regular ? "" : " (rows)");
            wellFormed(*pkg, e);
            if (mask != 0 && maxAbs(want) > 1e-6 && maxAbs(add(want, scale(r, -1.))) > 1e-6) {
                g.nontrivial();
            }
            r = got;
        }
        if (!e.isTerminal()) { // exactly the result is referenced
            if (g.flip()) {
                pkg->garbageCollect(true);
                expectMat(readMat(e, n), r, 0., "reduced matrix after a collection");
            }
            pkg->decRef(e);
        }
        pkg->garbageCollect(true);
        if (pkg->mUniqueTable.getNodeCount() != 0) {
            fail(pkg->mUniqueTable.getNodeCount(), " nodes remain after releasing the reduced matrix");
        }
    }
    void initial(Gen& g) {
        const int n   = anySize(g, 1, 6, 8);
        auto      pkg = makePkg(n + g.irange(0, 2));
        for (int k = g.irange(1, 3); k > 0; --k) {
            const auto f = genFlags(g, n);
            g.note("initial matrix ", n, " ", flags(f));
            const auto e    = pkg->createInitialMatrix(static_cast<dd::QubitCount>(n), f);
            const auto mask = maskOf(f, n);
            expectMat(readMat(e, n), ancillaeRef(Mat::ident(1ULL << n), mask, true), 0., "initial matrix for ", flags(f));
            wellFormed(*pkg, e);
            if (g.flip()) {
                pkg->garbageCollect(true);
                expectMat(readMat(e, n), ancillaeRef(Mat::ident(1ULL << n), mask, true), 0., "initial matrix after a collection");
            }
            if (mask != 0 && mask != (1ULL << n) - 1) {
                g.nontrivial();
            }
            pkg->decRef(e);
        }
        pkg->garbageCollect(true);
        if (pkg->mUniqueTable.getNodeCount() != 0) {
            fail(pkg->mUniqueTable.getNodeCount(), " nodes remain after releasing the initial matrices");
        }
    }
    C unitEntry(Gen& g) {
        switch (g.below(5)) {
            case 0: return 1.;
            case 1: return std::pow(C{0., 1.}, static_cast<double>(g.below(4)));
            case 2: return std::polar(1., static_cast<double>(g.below(8)) * 0.78539816339744830962);
            case 3: return std::polar(1., g.real(-3.2, 3.2));
            default: return g.pick({C{0.5}, C{0.25, 0.}, C{0., 0.5}, C{-0.5, 0.5}, C{S2, 0.}, C{0., -S2}});
        }
    }
    void garbageM(Gen& g) {
        const int  n       = anySize(g, 1, 4, 6);
        auto       pkg     = makePkg(n + g.irange(0, 2));
        const auto f       = genFlags(g, n);
        const auto mask    = maskOf(f, n);
        const bool regular = g.below(3) != 0;
        Mat        m;
        switch (g.below(4)) {
            case 0: m = genPermutation(g, n); break;
            case 1: { // reversible circuit
                m = Mat::ident(1ULL << n);
                for (int k = g.irange(1, 8); k > 0; --k) {
                    const auto t = g.irange(0, n - 1);
                    m            = mul(gate1(n, t, genControls(g, n, {t}), toG1(dd::Xmat)), m);
                }
                break;
            }
            case 2: { // permutation with phases
                const auto p = genPermutation(g, n);
                Mat        d(p.n);
                std::vector<C> pool;
                for (int k = g.irange(1, 3); k > 0; --k) {
                    pool.push_back(unitEntry(g));
                }
                for (std::size_t i = 0; i < d.n; ++i) {
                    d(i, i) = g.pick(pool);
                }
                m = mul(p, d);
                break;
            }
            default: { // any matrix whose entries do not meet
                m = Mat(1ULL << n);
                for (std::size_t i = 0; i < m.n; ++i) {
                    for (std::size_t j = 0; j < m.n; ++j) {
                        if (((regular ? i : j) & mask) == 0 && g.flip()) {
                            const auto k = static_cast<std::size_t>(g.below(m.n)) & mask;
                            m(regular ? i | k : i, regular ? j : j | k) = unitEntry(g);
                        }
                    }
                }
                break;
            }
        }
        if (g.oneIn(4)) {
            shadow(g, m, n);
        }
        auto e = matDD(*pkg, m);
        if (e.isTerminal()) {
            throw pb::Discard{};
        }
        auto r = readMat(e, n);
        pkg->incRef(e);
        g.note(str(r));
        if (g.oneIn(3)) { // constant inputs first
            const auto a = genFlags(g, n);
            g.note("ancillae ", flags(a));
            e = pkg->reduceAncillae(e, a, regular);
            expectMat(readMat(e, n), ancillaeRef(r, maskOf(a, n), regular), tolFor(1.), "ancilla reduction of ", flags(a));
            r = readMat(e, n);
            if (e.isTerminal()) {
                return;
            }
        }
        if (!disjoint(r, mask, regular)) {
            throw pb::Discard{};
        }
        g.note("garbage ", flags(f), regular ? "" : " (columns)");
        e               = pkg->reduceGarbage(e, f, regular);
        const auto want = garbageRef(r, mask, regular);
        const auto got  = readMat(e, n);
        expectMat(got, want, tolFor(4.), "garbage reduction of ", flags(f), regular ? "" : " (columns)");
        wellFormed(*pkg, e);
        if (mask != 0 && maxAbs(add(want, scale(r, -1.))) > 1e-6) {
            g.nontrivial();
        }
        pkg->decRef(e);
        pkg->garbageCollect(true);
        if (pkg->mUniqueTable.getNodeCount() != 0) {
            fail(pkg->mUniqueTable.getNodeCount(), " nodes remain after releasing the reduced matrix");
        }
    }
    void garbageV(Gen& g) {
        const int  n    = anySize(g, 1, 6, 8);
        auto       pkg  = makePkg(n + g.irange(0, 2));
        const auto f    = genFlags(g, n);
        const auto mask = maskOf(f, n);
        Vec        v(1ULL << n);
        if (g.oneIn(4)) {
            v[g.below(v.size())] = unitEntry(g);
        } else {
            for (std::size_t i = 0; i < v.size(); ++i) {
                if ((i & mask) == 0 && g.below(3) != 0) {
                    v[i | (static_cast<std::size_t>(g.below(v.size())) & mask)] = unitEntry(g);
                }
            }
            v = normalised(v);
        }
        auto e = vecDD(*pkg, v);
        if (e.isTerminal()) {
            throw pb::Discard{};
        }
        const auto r = readVec(e, n);
        pkg->incRef(e);
        g.note(str(r), " garbage ", flags(f));
        e = pkg->reduceGarbage(e, f);
        Vec want(r.size());
        for (std::size_t i = 0; i < r.size(); ++i) {
            want[i & ~mask] += r[i];
        }
        expectVec(readVec(e, n), want, tolFor(4.), "garbage reduction of ", flags(f));
        checkVector(*pkg, e, false);
        checkContained(storedNodes<dd::vNode>(*pkg), e);
        if (mask != 0 && maxAbs(add(want, scale(r, -1.))) > 1e-6) {
            g.nontrivial();
        }
        pkg->decRef(e);
        pkg->garbageCollect(true);
        if (pkg->vUniqueTable.getNodeCount() != 0) {
            fail(pkg->vUniqueTable.getNodeCount(), " nodes remain after releasing the reduced state");
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C28",
                      "ancilla reduction of arbitrary matrices, garbage reduction of reversible functions with phases and of all matrices and states whose merged entries never meet, initial matrices; "
                      "non-trivial: the reduction changes the matrix or state",
                      {{"ancillae", 4, ancillae}, {"initial", 1, initial}, {"garbage-matrix", 4, garbageM}, {"garbage-state", 3, garbageV}}};
    return p;
}
