// C03: matrices survive the conversion to a decision diagram and back, through every extraction routine.
#include "ref.hpp"
using namespace rf;

namespace {
    void checkAll(Gen& g, Pkg& pkg, const dd::mEdge& e, const Mat& m, int n, double tol) {
        expectMat(readMat(e, n), m, tol, "decision diagram of the matrix");
        if (e.isTerminal()) {
            return;
        }
        if (static_cast<int>(e.p->v) + 1 != n) {
            fail("root of an ", n, "-qubit matrix is at level ", static_cast<int>(e.p->v));
        }
        expectMat(fromCMat(pkg.getMatrix(e)), m, tol, "getMatrix");
        for (std::size_t i = 0; i < m.n; ++i) {
            for (std::size_t j = 0; j < m.n; ++j) {
                if (m.n > 8 && g.below(4) != 0) {
                    continue;
                }
                const auto a = val(pkg.getValueByPath(e, i, j));
                if (!close(a, m(i, j), tol)) {
                    fail("getValueByPath(", i, ",", j, ") is ", a, ", expected ", m(i, j));
                }
                std::string path(static_cast<std::size_t>(n), '0');
                for (int q = 0; q < n; ++q) {
                    path[static_cast<std::size_t>(q)] = static_cast<char>('0' + 2 * ((i >> q) & 1U) + ((j >> q) & 1U));
                }
                const auto b = val(pkg.getValueByPath(e, path));
                if (!close(b, m(i, j), tol)) {
                    fail("getValueByPath(\"", path, "\") is ", b, ", expected ", m(i, j));
                }
            }
        }
        expectMat(readMat(e, n), m, tol, "the matrix changed while being read");
    }
    void roundTrip(Gen& g) {
        const int              n   = anySize(g, 1, 4, 7);
        auto                   pkg = makePkg(n + g.irange(0, 2));
        const auto             k   = 1 + g.irange(0, 2);
        std::vector<dd::mEdge> es;
        std::vector<Mat>       ms;
        std::vector<int>       ns;
        for (int i = 0; i < k; ++i) {
            const auto q = g.flip() ? n : g.irange(1, n);
            ms.push_back(genMat(g, q));
            ns.push_back(q);
            g.note("matrix ", i, ": ", str(ms.back()));
            es.push_back(pkg->makeDDFromMatrix(toCMat(ms.back())));
            if (nonTrivialVec(ms.back().a) && maxAbs(add(ms.back(), scale(Mat::ident(ms.back().n), -ms.back()(0, 0)))) > 1e-9) {
                g.nontrivial();
            }
        }
        for (std::size_t i = 0; i < es.size(); ++i) {
            checkAll(g, *pkg, es[i], ms[i], ns[i], tolFor(4 * maxAbs(ms[i])));
        }
    }
    void circuits(Gen& g) {
        const int n   = anySize(g, 1, 4, 6);
        auto      pkg = makePkg(n);
        auto      e   = pkg->makeIdent(static_cast<dd::QubitCount>(n));
        auto      m   = Mat::ident(1ULL << n);
        for (auto k = g.irange(0, 6); k > 0; --k) {
            const auto x = genGate(g, n);
            g.note(str(x));
            e = pkg->multiply(gateDD(*pkg, x, n), e);
            m = mul(matOf(x, n), m);
            g.nontrivial();
        }
        checkAll(g, *pkg, e, m, n, tolFor(1.));
    }
    void rejection(Gen& g) {
        auto       pkg  = makePkg(3);
        const auto rows = static_cast<std::size_t>(g.irange(0, 9));
        const auto cols = g.flip() ? rows : static_cast<std::size_t>(g.irange(0, 9));
        g.note(rows, " x ", cols);
        dd::CMat m(rows, dd::CVec(cols));
        Mat      want(rows);
        for (std::size_t i = 0; i < rows; ++i) {
            for (std::size_t j = 0; j < cols; ++j) {
                m[i][j] = genExact(g);
                if (j < rows) {
                    want(i, j) = m[i][j];
                }
            }
        }
        bool ragged = false;
        if (rows > 1 && g.oneIn(3)) { // one row of another length
            const auto i = 1 + g.below(rows - 1);
            m[i].resize(static_cast<std::size_t>(g.irange(0, 9)));
            ragged = m[i].size() != cols;
            g.note("row ", i, " has ", m[i].size(), " entries");
        }
        if (rows == 0) {
            const auto e = pkg->makeDDFromMatrix(m);
            if (!e.isTerminal() || val(e.w) != C{1., 0.}) {
                fail("the empty matrix should become the scalar 1");
            }
            return;
        }
        const bool ok     = (rows & (rows - 1)) == 0 && rows == cols && !ragged;
        bool       thrown = false;
        dd::mEdge  e{};
        try {
            e = pkg->makeDDFromMatrix(m);
        } catch (const std::invalid_argument&) {
            thrown = true;
        }
        if (thrown == ok) {
            fail(rows, "x", cols, " matrix was ", ok ? "rejected" : "accepted");
        }
        if (!ok) {
            g.nontrivial();
            return;
        }
        if (rows == 1) {
            const auto got = pkg->getMatrix(e);
            if (!e.isTerminal() || got.size() != 1 || got[0].size() != 1 || !close(got[0][0], m[0][0], 1e-12)) {
                fail("a scalar is read as a matrix with ", got.size(), " rows");
            }
        }
        int n = 0;
        while ((1ULL << n) < rows) {
            ++n;
        }
        expectMat(readMat(e, n), want, tolFor(4 * maxAbs(want)), "matrix");
    }
    // wide matrices: dense blocks among identities and bit flips, read by indices and by path
    void wide(Gen& g) {
        const int n   = g.irange(20, 64);
        auto      pkg = makePkg(n + (n < 64 ? g.irange(0, 3) : 0));
        struct Block {
            int low;
            Mat m;
        };
        std::vector<Block> blocks;
        dd::mEdge          e    = dd::mEdge::one;
        int                at   = 0;
        int                rich = 0;
        while (at < n) {
            const int k = std::min(n - at, g.irange(1, 2));
            Mat       m(1ULL << k);
            if (rich < 3 && g.oneIn(6)) {
                m = genUnitary(g, k);
                ++rich;
            } else {
                const auto mask = g.below(m.n);
                for (std::size_t i = 0; i < m.n; ++i) {
                    m(i, i ^ mask) = g.oneIn(8) ? C{0., 1.} : C{1., 0.};
                }
            }
            const auto part = pkg->makeDDFromMatrix(toCMat(m));
            e               = at == 0 ? part : pkg->kronecker(part, e);
            g.note("qubits ", at, "..", at + k - 1, ": ", str(m));
            blocks.push_back({at, m});
            at += k;
        }
        for (int k = 0; k < 24; ++k) {
            std::size_t i = 0;
            std::size_t j = 0;
            for (const auto& b: blocks) {
                const auto x = g.below(b.m.n);
                auto       y = g.below(b.m.n);
                while (b.m(x, y) == C{}) { // (a row of a unitary matrix)
                    y = (y + 1) % b.m.n;
                }
                i |= static_cast<std::size_t>(x) << b.low;
                j |= static_cast<std::size_t>(y) << b.low;
            }
            if (k % 4 == 1) {
                i ^= 1ULL << g.irange(0, n - 1);
            } else if (k % 4 == 2) {
                j ^= 1ULL << g.irange(0, n - 1);
            }
            C           want{1., 0.};
            std::string path;
            for (const auto& b: blocks) {
                want *= b.m((i >> b.low) & (b.m.n - 1), (j >> b.low) & (b.m.n - 1));
            }
            for (int q = 0; q < n; ++q) {
                path += static_cast<char>('0' + 2 * ((i >> q) & 1U) + ((j >> q) & 1U));
            }
            const auto a = val(pkg->getValueByPath(e, i, j));
            if (!close(a, want, 1e-9)) {
                fail("getValueByPath(", i, ", ", j, ") of a matrix on ", n, " qubits is ", a, ", expected ", want);
            }
            const auto b = val(pkg->getValueByPath(e, path));
            if (!close(b, want, 1e-9)) {
                fail("getValueByPath(\"", path, "\") is ", b, ", expected ", want);
            }
        }
        if (n > 32) {
            g.tag("more than 32 qubits");
            g.nontrivial();
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C03",
                      "matrices of 1-4 qubits (dense, sparse, few values, products, shared blocks, unitary, Hermitian, diagonal, near-tolerance entries), up to three per package, "
                      "read back through every accessor; matrices on 20-64 qubits put together from small blocks, read by indices and by path; non-trivial: at least two non-zero entries and not a multiple of the identity (or a rejected shape)",
                      {{"round-trip", 6, roundTrip}, {"circuits", 2, circuits}, {"shapes", 1, rejection}, {"wide", 1, wide}}};
    return p;
}
