// Reference model: dense vectors and matrices, generators for them, and a traversal of decision diagrams that does not
// use any accessor of the package.
#pragma once
#include "dd/Package.hpp"
#include "pbt.hpp"

#include <memory>

namespace rf {
    using pb::fail;
    using pb::Gen;
    using C   = std::complex<double>;
    using Vec = std::vector<C>;
    struct Mat {
        std::size_t n = 0;
        Vec         a;
        Mat() = default;
        explicit Mat(std::size_t dim):
            n(dim), a(dim * dim, C{0., 0.}) {}
        C&                     operator()(std::size_t i, std::size_t j) { return a[i * n + j]; }
        [[nodiscard]] const C& operator()(std::size_t i, std::size_t j) const { return a[i * n + j]; }
        static Mat             ident(std::size_t dim) {
            Mat m(dim);
            for (std::size_t i = 0; i < dim; ++i) {
                m(i, i) = 1.;
            }
            return m;
        }
    };

    // ---- configurations --------------------------------------------------------------------------------------------
    struct TinyConfig: public dd::DDPackageConfig {
        static constexpr std::size_t UT_VEC_NBUCKET                 = 16U;
        static constexpr std::size_t UT_VEC_INITIAL_ALLOCATION_SIZE = 4U;
        static constexpr std::size_t UT_MAT_NBUCKET                 = 16U;
        static constexpr std::size_t UT_MAT_INITIAL_ALLOCATION_SIZE = 4U;
        static constexpr std::size_t CT_VEC_ADD_NBUCKET             = 16U;
        static constexpr std::size_t CT_MAT_ADD_NBUCKET             = 16U;
        static constexpr std::size_t CT_MAT_TRANS_NBUCKET           = 8U;
        static constexpr std::size_t CT_MAT_CONJ_TRANS_NBUCKET      = 8U;
        static constexpr std::size_t CT_MAT_VEC_MULT_NBUCKET        = 16U;
        static constexpr std::size_t CT_MAT_MAT_MULT_NBUCKET        = 16U;
        static constexpr std::size_t CT_VEC_KRON_NBUCKET            = 8U;
        static constexpr std::size_t CT_MAT_KRON_NBUCKET            = 8U;
        static constexpr std::size_t CT_VEC_INNER_PROD_NBUCKET      = 8U;
    };
#ifdef PBT_TINY
    using Config = TinyConfig;
#else
    using Config = dd::DDPackageConfig;
#endif
    using Pkg = dd::Package<Config>;

    // ---- dense algebra ---------------------------------------------------------------------------------------------
    inline Vec mul(const Mat& m, const Vec& v) {
        Vec r(m.n);
        for (std::size_t i = 0; i < m.n; ++i) {
            for (std::size_t j = 0; j < m.n; ++j) {
                if (m(i, j) != C{}) {
                    r[i] += m(i, j) * v[j];
                }
            }
        }
        return r;
    }
    inline Mat mul(const Mat& x, const Mat& y) {
        Mat r(x.n);
        for (std::size_t i = 0; i < x.n; ++i) {
            for (std::size_t k = 0; k < x.n; ++k) {
                const C f = x(i, k);
                if (f == C{}) {
                    continue;
                }
                for (std::size_t j = 0; j < x.n; ++j) {
                    r(i, j) += f * y(k, j);
                }
            }
        }
        return r;
    }
    inline Vec add(const Vec& x, const Vec& y) {
        Vec r(x.size());
        for (std::size_t i = 0; i < x.size(); ++i) {
            r[i] = x[i] + y[i];
        }
        return r;
    }
    inline Mat add(const Mat& x, const Mat& y) {
        Mat r(x.n);
        r.a = add(x.a, y.a);
        return r;
    }
    inline Vec scale(Vec v, C s) {
        for (auto& x: v) {
            x *= s;
        }
        return v;
    }
    inline Mat scale(Mat m, C s) {
        m.a = scale(m.a, s);
        return m;
    }
    inline Vec kron(const Vec& x, const Vec& y) {
        Vec r;
        r.reserve(x.size() * y.size());
        for (const auto& a: x) {
            for (const auto& b: y) {
                r.push_back(a * b);
            }
        }
        return r;
    }
    inline Mat kron(const Mat& x, const Mat& y) {
        Mat r(x.n * y.n);
        for (std::size_t i = 0; i < x.n; ++i) {
            for (std::size_t j = 0; j < x.n; ++j) {
                for (std::size_t k = 0; k < y.n; ++k) {
                    for (std::size_t l = 0; l < y.n; ++l) {
                        r(i * y.n + k, j * y.n + l) = x(i, j) * y(k, l);
                    }
                }
            }
        }
        return r;
    }
    inline Mat transpose(const Mat& x) {
        Mat r(x.n);
        for (std::size_t i = 0; i < x.n; ++i) {
            for (std::size_t j = 0; j < x.n; ++j) {
                r(j, i) = x(i, j);
            }
        }
        return r;
    }
    inline Mat adjoint(const Mat& x) {
        auto r = transpose(x);
        for (auto& c: r.a) {
            c = std::conj(c);
        }
        return r;
    }
    inline double norm(const Vec& v) {
        double s = 0;
        for (const auto& c: v) {
            s += std::norm(c);
        }
        return std::sqrt(s);
    }
    inline double maxAbs(const Vec& v) {
        double s = 0;
        for (const auto& c: v) {
            s = std::max(s, std::abs(c));
        }
        return s;
    }
    inline double maxAbs(const Mat& m) { return maxAbs(m.a); }
    inline double norm(const Mat& m) { return norm(m.a); }
    inline C      inner(const Vec& x, const Vec& y) {
        C s{};
        for (std::size_t i = 0; i < x.size(); ++i) {
            s += std::conj(x[i]) * y[i];
        }
        return s;
    }

    // ---- reading decision diagrams without the package's accessors ---------------------------------------------------
    inline C val(const dd::Complex& c) { return {dd::CTEntry::val(c.r), dd::CTEntry::val(c.i)}; }
    inline C val(const dd::ComplexValue& c) { return {c.r, c.i}; }

    // `base`: lowest level of the decision diagram (non-zero for diagrams built with a start offset)
    inline void readVecRec(const dd::vEdge& e, int level, C amp, std::size_t idx, Vec& out, int base = 0) {
        amp *= val(e.w);
        if (e.p == nullptr) {
            fail("null node inside a vector DD");
        }
        if (level == 0) {
            if (!e.isTerminal()) {
                fail("vector DD deeper than its number of qubits");
            }
            out[idx] = amp;
            return;
        }
        if (e.isTerminal()) {
            if (val(e.w) != C{}) {
                fail("vector DD skips a level with a non-zero weight");
            }
            return;
        }
        if (static_cast<int>(e.p->v) != base + level - 1) {
            fail("vector DD node has variable ", static_cast<int>(e.p->v), " where ", base + level - 1, " is expected");
        }
        readVecRec(e.p->e[0], level - 1, amp, idx, out, base);
        readVecRec(e.p->e[1], level - 1, amp, idx | (1ULL << (level - 1)), out, base);
    }
    inline Vec readVec(const dd::vEdge& e, int n, int base = 0) {
        Vec v(1ULL << n, C{});
        readVecRec(e, n, 1., 0, v, base);
        return v;
    }
    inline void readMatRec(const dd::mEdge& e, int level, C amp, std::size_t i, std::size_t j, Mat& out, int base = 0) {
        amp *= val(e.w);
        if (e.p == nullptr) {
            fail("null node inside a matrix DD");
        }
        if (level == 0) {
            if (!e.isTerminal()) {
                fail("matrix DD deeper than its number of qubits");
            }
            out(i, j) = amp;
            return;
        }
        if (e.isTerminal()) {
            if (val(e.w) != C{}) {
                fail("matrix DD skips a level with a non-zero weight");
            }
            return;
        }
        if (static_cast<int>(e.p->v) != base + level - 1) {
            fail("matrix DD node has variable ", static_cast<int>(e.p->v), " where ", base + level - 1, " is expected");
        }
        const auto b = 1ULL << (level - 1);
        readMatRec(e.p->e[0], level - 1, amp, i, j, out, base);
        readMatRec(e.p->e[1], level - 1, amp, i, j | b, out, base);
        readMatRec(e.p->e[2], level - 1, amp, i | b, j, out, base);
        readMatRec(e.p->e[3], level - 1, amp, i | b, j | b, out, base);
    }
    inline Mat readMat(const dd::mEdge& e, int n, int base = 0) {
        Mat m(1ULL << n);
        readMatRec(e, n, 1., 0, 0, m, base);
        return m;
    }

    // ---- comparison ------------------------------------------------------------------------------------------------
    inline bool close(C a, C b, double tol) { return std::abs(a - b) <= tol; } // false for NaN
    inline std::string str(const Vec& v) {
        std::ostringstream os;
        os.precision(17);
        os << "[";
        for (std::size_t i = 0; i < v.size() && i < 32; ++i) {
            os << (i > 0 ? ", " : "") << v[i].real();
            if (v[i].imag() != 0.) {
                os << (v[i].imag() < 0. ? "" : "+") << v[i].imag() << "i";
            }
        }
        os << (v.size() > 32 ? ", ...]" : "]");
        return os.str();
    }
    inline std::string str(const Mat& m) {
        if (m.n > 8) {
            return "(" + std::to_string(m.n) + "x" + std::to_string(m.n) + " matrix) " + str(m.a);
        }
        std::string s = "[";
        for (std::size_t i = 0; i < m.n; ++i) {
            s += (i > 0 ? "; " : "") + str(Vec(m.a.begin() + static_cast<long>(i * m.n), m.a.begin() + static_cast<long>((i + 1) * m.n)));
        }
        return s + "]";
    }
    // deviation allowed per entry: 1e-9 relative to the scale of the operands (weights are merged within 2.3e-13)
    inline double tolFor(double scale) { return 1e-9 * std::max(1., scale); }
    template<class... A>
    void expectVec(const Vec& got, const Vec& want, double tol, const A&... what) {
        if (got.size() != want.size()) {
            fail(what..., ": size ", got.size(), " instead of ", want.size());
        }
        for (std::size_t i = 0; i < got.size(); ++i) {
            if (!close(got[i], want[i], tol)) {
                fail(what..., ": entry ", i, " is ", got[i], ", expected ", want[i]);
            }
        }
    }
    template<class... A>
    void expectMat(const Mat& got, const Mat& want, double tol, const A&... what) {
        if (got.n != want.n) {
            fail(what..., ": dimension ", got.n, " instead of ", want.n);
        }
        for (std::size_t i = 0; i < got.n; ++i) {
            for (std::size_t j = 0; j < got.n; ++j) {
                if (!close(got(i, j), want(i, j), tol)) {
                    fail(what..., ": entry (", i, ",", j, ") is ", got(i, j), ", expected ", want(i, j));
                }
            }
        }
    }

    // ---- conversions -----------------------------------------------------------------------------------------------
    inline dd::CMat toCMat(const Mat& m) {
        dd::CMat r(m.n, dd::CVec(m.n));
        for (std::size_t i = 0; i < m.n; ++i) {
            for (std::size_t j = 0; j < m.n; ++j) {
                r[i][j] = m(i, j);
            }
        }
        return r;
    }
    inline Mat fromCMat(const dd::CMat& m) {
        Mat r(m.size());
        for (std::size_t i = 0; i < m.size(); ++i) {
            if (m[i].size() != m.size()) {
                fail("extracted matrix is not square");
            }
            for (std::size_t j = 0; j < m.size(); ++j) {
                r(i, j) = m[i][j];
            }
        }
        return r;
    }
    template<class DD>
    dd::mEdge matDD(DD& p, const Mat& m) { return p.makeDDFromMatrix(toCMat(m)); }
    template<class DD>
    dd::vEdge vecDD(DD& p, const Vec& v) { return p.makeStateFromVector(v); }

    // ---- gates -----------------------------------------------------------------------------------------------------
    using G1 = std::array<C, 4>;
    using G2 = std::array<std::array<C, 4>, 4>;
    struct Ctrl {
        int  q;
        bool pos;
    };
    inline bool active(std::size_t i, const std::vector<Ctrl>& cs) {
        return std::all_of(cs.begin(), cs.end(), [&](const Ctrl& c) { return (((i >> c.q) & 1U) != 0U) == c.pos; });
    }
    inline Mat gate1(int n, int t, const std::vector<Ctrl>& cs, const G1& u) {
        Mat m(1ULL << n);
        for (std::size_t j = 0; j < m.n; ++j) {
            if (!active(j, cs)) {
                m(j, j) = 1.;
                continue;
            }
            const std::size_t b = (j >> t) & 1U;
            for (std::size_t r = 0; r < 2; ++r) {
                const std::size_t i = (j & ~(1ULL << t)) | (r << t);
                m(i, j) += u[2 * r + b];
            }
        }
        return m;
    }
    // row/column index of the 4x4 matrix = 2*bit(t0) + bit(t1)
    inline Mat gate2(int n, int t0, int t1, const std::vector<Ctrl>& cs, const G2& u) {
        Mat m(1ULL << n);
        for (std::size_t j = 0; j < m.n; ++j) {
            if (!active(j, cs)) {
                m(j, j) = 1.;
                continue;
            }
            const std::size_t b = 2 * ((j >> t0) & 1U) + ((j >> t1) & 1U);
            for (std::size_t r = 0; r < 4; ++r) {
                const std::size_t i = (j & ~((1ULL << t0) | (1ULL << t1))) | ((r >> 1U) << t0) | ((r & 1U) << t1);
                m(i, j) += u[r][b];
            }
        }
        return m;
    }
    inline G1 toG1(const dd::GateMatrix& g) { return {val(g[0]), val(g[1]), val(g[2]), val(g[3])}; }
    inline dd::GateMatrix fromG1(const G1& g) {
        dd::GateMatrix r{};
        for (std::size_t i = 0; i < 4; ++i) {
            r[i] = {g[i].real(), g[i].imag()};
        }
        return r;
    }
    inline dd::TwoQubitGateMatrix fromG2(const G2& g) {
        dd::TwoQubitGateMatrix r{};
        for (std::size_t i = 0; i < 4; ++i) {
            for (std::size_t j = 0; j < 4; ++j) {
                r[i][j] = {g[i][j].real(), g[i][j].imag()};
            }
        }
        return r;
    }
    inline dd::Controls toControls(const std::vector<Ctrl>& cs) {
        dd::Controls r;
        for (const auto& c: cs) {
            r.insert(dd::Control{static_cast<dd::Qubit>(c.q), c.pos ? dd::Control::Type::pos : dd::Control::Type::neg});
        }
        return r;
    }
    inline std::string str(const std::vector<Ctrl>& cs) {
        std::string s = "{";
        for (const auto& c: cs) {
            s += std::to_string(c.q) + (c.pos ? "+" : "-") + " ";
        }
        return s + "}";
    }

    // ---- generators ------------------------------------------------------------------------------------------------
    static constexpr double S2  = 0.70710678118654752440;
    static constexpr double TOL = 2.220446049250313e-16 * 1024; // documented default tolerance of the number table

    inline C genExact(Gen& g) {
        static const std::vector<C> pool = {{0., 0.}, {1., 0.}, {-1., 0.}, {0., 1.}, {0., -1.}, {0.5, 0.}, {S2, 0.}, {-S2, 0.}, {0., S2}, {0., -S2}, {0.5, 0.5}, {0.5, -0.5}, {-0.5, 0.}, {S2, S2}, {0.25, 0.}, {-0.5, -0.5}};
        return g.pick(pool);
    }
    inline C genReal01(Gen& g) { return {static_cast<double>(g.range(-64, 64)) / 64., static_cast<double>(g.range(-64, 64)) / 64.}; }
    inline C genRandom(Gen& g) { return {g.real(-1., 1.), g.real(-1., 1.)}; }
    inline C genScalar(Gen& g, bool extremes = true) {
        switch (g.weighted({6, 2, 4, extremes ? 1U : 0U, extremes ? 1U : 0U})) {
            case 0: return genExact(g);
            case 1: return genReal01(g);
            case 2: return genRandom(g);
            case 3: { // wide range of magnitudes
                const double m = std::pow(10., static_cast<double>(g.oneIn(3) ? g.range(-13, -7) : g.range(-6, 2)));
                return genRandom(g) * m;
            }
            default: { // close to the merge tolerance, or close to a special value
                const double d = TOL * g.pick({0., 0.25, 0.5, 0.99, 1., 1.01, 2., 10., 1000.}) * (g.flip() ? 1. : -1.);
                return genExact(g) + (g.flip() ? C{d, 0.} : C{0., d});
            }
        }
    }
    // magnitudes around one, around the tolerance and around its square root, next to each other
    inline C genMixed(Gen& g) { return genExact(g) * g.pick({1., 1., 0.5, 1e-3, 1e-6, 5e-7, 4e-7, 2e-7, 1e-8, 1e-10, 1e-11, 1e-12, 4e-13, 3e-13, 2e-13, 1e-13}); }
    inline Vec normalised(Vec v) {
        const auto n = norm(v);
        if (n < 1e-3) {
            std::fill(v.begin(), v.end(), C{});
            v[0] = 1.;
            return v;
        }
        return scale(v, 1. / n);
    }
    inline Vec genVecRec(Gen& g, int n, std::vector<std::vector<Vec>>& pool, bool ext) {
        auto& p = pool[static_cast<std::size_t>(n)];
        if (!p.empty() && g.below(3) != 0) { // reuse a sub-vector, possibly scaled
            const auto& v = g.pick(p);
            return g.flip() ? scale(v, genExact(g)) : v;
        }
        Vec v;
        if (n == 0) {
            v = {genScalar(g, ext)};
        } else {
            v            = genVecRec(g, n - 1, pool, ext);
            const auto w = genVecRec(g, n - 1, pool, ext);
            v.insert(v.end(), w.begin(), w.end());
        }
        p.push_back(v);
        return v;
    }
    // a number of qubits: mostly few, now and then more
    inline int anySize(Gen& g, int lo, int usual, int large, unsigned one = 24) { return g.oneIn(one) ? g.irange(usual + 1, large) : g.irange(lo, usual); }
    // arbitrary vector of 2^n entries, of many shapes
    inline Vec genVec(Gen& g, int n, bool ext = true) {
        const std::size_t d = 1ULL << n;
        Vec               v(d, C{});
        switch (g.weighted({2, 3, 3, 2, 3, 4, 2, ext ? 1U : 0U})) {
            case 0: v[g.below(d)] = g.flip() ? genScalar(g, ext) : C{1., 0.}; break;
            case 1: { // few distinct values
                std::vector<C> pool;
                for (auto k = 1U + g.below(4); k > 0; --k) {
                    pool.push_back(genScalar(g, ext));
                }
                for (auto& x: v) {
                    x = g.pick(pool);
                }
                break;
            }
            case 2:
                for (auto& x: v) {
                    x = genRandom(g);
                }
                break;
            case 3: // sparse
                for (auto k = g.below(4); k > 0; --k) {
                    v[g.below(d)] = genScalar(g, ext);
                }
                break;
            case 4: { // product
                v = {C{1., 0.}};
                for (int i = 0; i < n; ++i) {
                    v = kron(Vec{genScalar(g, ext), genScalar(g, ext)}, v);
                }
                break;
            }
            case 5: { // recursive with sharing
                std::vector<std::vector<Vec>> pool(static_cast<std::size_t>(n) + 1);
                v = genVecRec(g, n, pool, ext);
                break;
            }
            case 7:
                for (auto& x: v) {
                    x = genMixed(g);
                }
                break;
            default: // exact amplitudes
                for (auto& x: v) {
                    x = genExact(g);
                }
                break;
        }
        return v;
    }
    inline Vec genState(Gen& g, int n) { return normalised(genVec(g, n, false)); }

    inline Mat genMatRec(Gen& g, int n, std::vector<std::vector<Mat>>& pool, bool ext) {
        auto& p = pool[static_cast<std::size_t>(n)];
        if (!p.empty() && g.below(3) != 0) {
            const auto& m = g.pick(p);
            switch (g.below(4)) {
                case 0: return m;
                case 1: return scale(m, genExact(g));
                case 2: return transpose(m);
                default: return Mat(m.n);
            }
        }
        Mat m(1ULL << n);
        if (n == 0) {
            m(0, 0) = genScalar(g, ext);
        } else if (g.oneIn(5)) {
            m = Mat::ident(m.n);
        } else {
            for (std::size_t q = 0; q < 4; ++q) {
                const auto s = genMatRec(g, n - 1, pool, ext);
                for (std::size_t i = 0; i < s.n; ++i) {
                    for (std::size_t j = 0; j < s.n; ++j) {
                        m((q >> 1U) * s.n + i, (q & 1U) * s.n + j) = s(i, j);
                    }
                }
            }
        }
        p.push_back(m);
        return m;
    }
    inline G1 randomUnitary1(Gen& g) {
        const double t = g.real(0, 3.2);
        const double a = g.real(-3.2, 3.2);
        const double b = g.real(-3.2, 3.2);
        const double c = g.real(-3.2, 3.2);
        const C      e = std::polar(1., c);
        return {e * std::cos(t), -e * std::polar(1., b) * std::sin(t), e * std::polar(1., a) * std::sin(t), e * std::polar(1., a + b) * std::cos(t)};
    }
    inline const std::vector<std::pair<std::string, dd::GateMatrix>>& constGates() {
        static const std::vector<std::pair<std::string, dd::GateMatrix>> v = {
                {"X", dd::Xmat},
                {"H", dd::Hmat},
                {"Z", dd::Zmat},
                {"Y", dd::Ymat},
                {"S", dd::Smat},
                {"T", dd::Tmat},
                {"Sdg", dd::Sdagmat},
                {"Tdg", dd::Tdagmat},
                {"SX", dd::SXmat},
                {"SXdg", dd::SXdagmat},
                {"V", dd::Vmat},
                {"Vdg", dd::Vdagmat},
                {"I", dd::Imat}};
        return v;
    }
    inline std::vector<Ctrl> genControls(Gen& g, int n, std::vector<int> exclude, int max = 4, int lo = 0) {
        std::vector<Ctrl> cs;
        std::vector<int>  free;
        for (int q = lo; q < n; ++q) {
            if (std::find(exclude.begin(), exclude.end(), q) == exclude.end()) {
                free.push_back(q);
            }
        }
        auto k = g.below(static_cast<std::uint64_t>(std::min<int>(max, static_cast<int>(free.size()))) + 1U);
        while (k-- > 0) {
            const auto i = g.below(free.size());
            cs.push_back({free[i], !g.flip()});
            free.erase(free.begin() + static_cast<long>(i));
        }
        return cs;
    }
    struct Gate {
        std::string       name;
        int               t0 = 0;
        int               t1 = -1; // second target, or -1
        std::vector<Ctrl> cs;
        G1                u{};
        G2                u2{};
    };
    inline std::string str(const Gate& x) {
        std::ostringstream os;
        os << x.name << "(";
        os << x.t0;
        if (x.t1 >= 0) {
            os << "," << x.t1;
        }
        os << ")" << str(x.cs);
        return os.str();
    }
    inline Mat matOf(const Gate& x, int n) { return x.t1 < 0 ? gate1(n, x.t0, x.cs, x.u) : gate2(n, x.t0, x.t1, x.cs, x.u2); }
    inline Gate genGate(Gen& g, int n, bool exactOnly = false, int maxControls = 3) {
        Gate x;
        x.t0 = g.irange(0, n - 1);
        x.cs = genControls(g, n, {x.t0}, maxControls);
        if (exactOnly || g.below(3) != 0) {
            const auto& c = g.pick(constGates());
            x.name        = c.first;
            x.u           = toG1(c.second);
        } else {
            x.name = "U";
            x.u    = randomUnitary1(g);
        }
        return x;
    }
    template<class DD>
    dd::mEdge gateDD(DD& p, const Gate& x, int n) {
        return p.makeGateDD(fromG1(x.u), static_cast<dd::QubitCount>(n), toControls(x.cs), static_cast<dd::Qubit>(x.t0));
    }
    inline Mat genUnitary(Gen& g, int n, bool exactOnly = false) {
        auto m = Mat::ident(1ULL << n);
        for (auto k = 1U + g.below(6); k > 0; --k) {
            m = mul(matOf(genGate(g, n, exactOnly), n), m);
        }
        return m;
    }
    inline Mat genPermutation(Gen& g, int n) {
        Mat        m(1ULL << n);
        const auto p = g.permutation(1 << n);
        for (std::size_t i = 0; i < m.n; ++i) {
            m(static_cast<std::size_t>(p[i]), i) = 1.;
        }
        return m;
    }
    inline Mat genHermitian(Gen& g, int n);
    inline Mat genMat(Gen& g, int n, bool ext = true) {
        const std::size_t d = 1ULL << n;
        Mat               m(d);
        if (n == 0) {
            m(0, 0) = genScalar(g, ext);
            return m;
        }
        const bool big = n > 5; // (no matrices without any structure)
        switch (g.weighted({big ? 1U : 2U, big ? 0U : 3U, big ? 0U : 2U, 2, 4, 5, 4, big ? 1U : 2U, 2, big ? 1U : 2U, 1, ext && !big ? 2U : 0U})) {
            case 0: m = Mat::ident(d); break;
            case 1: { // few distinct values
                std::vector<C> pool;
                for (auto k = 1U + g.below(4); k > 0; --k) {
                    pool.push_back(genScalar(g, ext));
                }
                for (auto& x: m.a) {
                    x = g.pick(pool);
                }
                break;
            }
            case 2:
                for (auto& x: m.a) {
                    x = genRandom(g);
                }
                break;
            case 3:
                for (auto k = g.below(6); k > 0; --k) {
                    m.a[g.below(d * d)] = genScalar(g, ext);
                }
                break;
            case 4: {
                m = Mat::ident(1);
                for (int i = 0; i < n; ++i) {
                    Mat f(2);
                    if (g.oneIn(3)) {
                        f = Mat::ident(2);
                    } else {
                        for (auto& x: f.a) {
                            x = genScalar(g, ext);
                        }
                    }
                    m = kron(f, m);
                }
                break;
            }
            case 5: {
                std::vector<std::vector<Mat>> pool(static_cast<std::size_t>(n) + 1);
                m = genMatRec(g, n, pool, ext);
                break;
            }
            case 6: m = genUnitary(g, n); break;
            case 7: m = genPermutation(g, n); break;
            case 8: // diagonal
                for (std::size_t i = 0; i < d; ++i) {
                    m(i, i) = genScalar(g, ext);
                }
                break;
            case 9: m = genHermitian(g, n); break;
            case 11:
                for (auto& x: m.a) {
                    x = genMixed(g);
                }
                break;
            default: { // identity up to one entry
                m                   = Mat::ident(d);
                m.a[g.below(d * d)] = genScalar(g, ext);
                break;
            }
        }
        if (g.oneIn(6)) {
            m = scale(m, genScalar(g, false));
        }
        return m;
    }
    inline Mat genHermitian(Gen& g, int n) {
        auto m = scale(genMat(g, n, false), 0.5);
        return add(m, adjoint(m));
    }

    // order in which a random circuit is applied
    template<class DD>
    dd::vEdge runCircuit(DD& p, const std::vector<Gate>& c, int n) {
        auto v = p.makeZeroState(static_cast<dd::QubitCount>(n));
        for (const auto& x: c) {
            v = p.multiply(gateDD(p, x, n), v);
        }
        return v;
    }
    inline Vec runCircuitRef(const std::vector<Gate>& c, int n) {
        Vec v(1ULL << n, C{});
        v[0] = 1.;
        for (const auto& x: c) {
            v = mul(matOf(x, n), v);
        }
        return v;
    }

    inline std::unique_ptr<Pkg> makePkg(int nq) { return std::make_unique<Pkg>(static_cast<std::size_t>(nq)); }

    inline bool nonTrivialVec(const Vec& v) {
        int nz = 0;
        for (const auto& c: v) {
            nz += std::abs(c) > 1e-9 ? 1 : 0;
        }
        return nz >= 2;
    }
} // namespace rf
