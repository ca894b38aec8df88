// C01: state vectors survive the conversion to a decision diagram and back, through every extraction routine.
#include "ref.hpp"
using namespace rf;

namespace {
    C parseComplex(const std::string& s) { // "a", "bi", "a+bi", "a-bi" with any exponent
        if (s.empty()) {
            fail("empty amplitude text");
        }
        const char*  p   = s.c_str();
        char*        end = nullptr;
        const double a   = std::strtod(p, &end);
        if (end == p) {
            fail("unreadable amplitude text '", s, "'");
        }
        if (*end == '\0') {
            return {a, 0.};
        }
        if (*end == 'i' && end[1] == '\0') {
            return {0., a};
        }
        const char*  q = end;
        const double b = std::strtod(q, &end);
        if (end == q || *end != 'i' || end[1] != '\0') {
            fail("unreadable amplitude text '", s, "'");
        }
        return {a, b};
    }

    void checkAll(Gen& g, Pkg& pkg, const dd::vEdge& e, const Vec& v, int n, double tol) {
        const auto d = v.size();
        expectVec(readVec(e, n), v, tol, "decision diagram of the state");
        if (e.isTerminal()) { // the zero vector has no dimension of its own
            return;
        }
        if (static_cast<int>(e.p->v) + 1 != n) {
            fail("root of an ", n, "-qubit state is at level ", static_cast<int>(e.p->v));
        }
        {
            const auto got = pkg.getVector(e);
            expectVec(Vec(got.begin(), got.end()), v, tol, "getVector");
        }
        for (std::size_t i = 0; i < d; ++i) {
            const auto a = val(pkg.getValueByPath(e, i));
            if (!close(a, v[i], tol)) {
                fail("getValueByPath(", i, ") is ", a, ", expected ", v[i]);
            }
            std::string path(static_cast<std::size_t>(n), '0');
            for (int q = 0; q < n; ++q) {
                path[static_cast<std::size_t>(q)] = ((i >> q) & 1U) != 0U ? '1' : '0';
            }
            if (i % 3 == 0) {
                path += "1"; // longer strings are allowed
            }
            const auto b = val(pkg.getValueByPath(e, path));
            if (!close(b, v[i], tol)) {
                fail("getValueByPath(\"", path, "\") is ", b, ", expected ", v[i]);
            }
        }
        {
            std::vector<std::complex<double>> amp(d, C{7., 7.});
            pkg.exportAmplitudes(e, amp, static_cast<dd::QubitCount>(n));
            expectVec(amp, v, tol, "exportAmplitudes to a vector");
        }
        {
            Vec acc(d);
            for (auto& x: acc) {
                x = genExact(g);
            }
            auto want = acc;
            for (std::size_t i = 0; i < d; ++i) {
                want[i] += v[i];
            }
            pkg.addAmplitudes(e, acc, static_cast<dd::QubitCount>(n));
            expectVec(acc, want, tol, "addAmplitudes");
        }
        {
            std::ostringstream os;
            pkg.exportAmplitudes(e, os, static_cast<dd::QubitCount>(n), false);
            std::istringstream is(os.str());
            std::string        line;
            Vec                got;
            while (std::getline(is, line)) {
                got.push_back(parseComplex(line));
            }
            expectVec(got, v, tol, "exportAmplitudes as text");
        }
        {
            std::stringstream os(std::ios::in | std::ios::out | std::ios::binary);
            pkg.exportAmplitudes(e, os, static_cast<dd::QubitCount>(n), true);
            Vec                got;
            dd::ComplexValue   c{};
            const auto         bytes = os.str().size();
            if (bytes != d * 16) {
                fail("exportAmplitudes wrote ", bytes, " bytes for ", d, " amplitudes");
            }
            for (std::size_t i = 0; i < d; ++i) {
                c.readBinary(os);
                got.push_back(val(c));
            }
            expectVec(got, v, tol, "exportAmplitudes as binary");
        }
        if (const char* dir = std::getenv("PBT_SCRATCH"); dir != nullptr && g.oneIn(8)) {
            const auto file = std::string(dir) + "/amp-" + std::to_string(getpid());
            const bool bin  = g.flip();
            pkg.exportAmplitudes(e, file, static_cast<dd::QubitCount>(n), bin);
            std::ifstream      is(file, std::ios::binary);
            std::ostringstream os;
            os << is.rdbuf();
            std::ostringstream want(std::ios::binary);
            pkg.exportAmplitudes(e, want, static_cast<dd::QubitCount>(n), bin);
            unlink(file.c_str());
            if (os.str() != want.str()) {
                fail("exportAmplitudes to a file differs from the export to a stream");
            }
            g.tag("file");
        }
        expectVec(readVec(e, n), v, tol, "the state changed while being read");
    }

    void roundTrip(Gen& g) {
        const int  n   = anySize(g, 1, 6, 12);
        const int  cap = n + g.irange(0, 2);
        auto       pkg = makePkg(cap);
        const auto k   = 1 + g.irange(0, 2);
        std::vector<dd::vEdge> es;
        std::vector<Vec>       vs;
        for (int i = 0; i < k; ++i) { // several states share one package
            const auto m = g.flip() ? n : g.irange(1, n);
            const auto v = genVec(g, m);
            g.note("state ", i, ": ", str(v));
            vs.push_back(v);
            es.push_back(pkg->makeStateFromVector(v));
            int distinctValues = 0;
            for (std::size_t j = 1; j < v.size(); ++j) {
                distinctValues += std::abs(v[j] - v[0]) > 1e-9 ? 1 : 0;
            }
            if (nonTrivialVec(v) && distinctValues > 0) {
                g.nontrivial();
            }
        }
        for (std::size_t i = 0; i < es.size(); ++i) {
            int m = 0;
            while ((1ULL << m) < vs[i].size()) {
                ++m;
            }
            checkAll(g, *pkg, es[i], vs[i], m, tolFor(norm(vs[i])));
        }
    }

    // the same accessors on states produced by circuits instead of from vectors
    void circuits(Gen& g) {
        const int         n   = anySize(g, 1, 6, 8);
        auto              pkg = makePkg(n);
        std::vector<Gate> c;
        const auto        k = g.irange(0, 10);
        for (int i = 0; i < k; ++i) {
            c.push_back(genGate(g, n));
            g.note(str(c.back()));
        }
        const auto want = runCircuitRef(c, n);
        const auto e    = runCircuit(*pkg, c, n);
        if (nonTrivialVec(want)) {
            g.nontrivial();
        }
        checkAll(g, *pkg, e, want, n, tolFor(1.));
    }

    void rejection(Gen& g) {
        auto       pkg = makePkg(4);
        const auto len = static_cast<std::size_t>(g.irange(0, 40));
        Vec        v(len);
        for (auto& x: v) {
            x = genExact(g);
        }
        g.note("length ", len);
        const bool pow2 = (len & (len - 1)) == 0;
        bool       thrown = false;
        dd::vEdge  e{};
        try {
            if (len <= 16) {
                e = pkg->makeStateFromVector(v);
            } else if (!pow2) {
                e = pkg->makeStateFromVector(v);
            } else {
                throw pb::Discard{};
            }
        } catch (const std::invalid_argument&) {
            thrown = true;
        }
        if (thrown == pow2) {
            fail("vector of length ", len, pow2 ? " was rejected" : " was accepted");
        }
        if (!pow2) {
            g.nontrivial();
        } else if (len == 0) {
            if (!e.isTerminal() || val(e.w) != C{1., 0.}) {
                fail("the empty vector should become the scalar 1");
            }
        } else if (len == 1) {
            if (!e.isTerminal() || !close(val(e.w), v[0], 1e-12)) {
                fail("a vector of length 1 should become a scalar");
            }
            const auto got = pkg->getVector(e);
            if (got.size() != 1 || !close(got[0], v[0], 1e-12)) {
                fail("a scalar is read as a vector of length ", got.size());
            }
        } else {
            int n = 0;
            while ((1ULL << n) < len) {
                ++n;
            }
            expectVec(readVec(e, n), v, tolFor(norm(v)), "state");
        }
    }
    // wide states: dense blocks between long stretches of basis states, read by index and by path
    void wide(Gen& g) {
        const int n   = g.irange(20, 64);
        auto      pkg = makePkg(n + (n < 64 ? g.irange(0, 3) : 0));
        struct Block {
            int low, size;
            Vec v;
        };
        std::vector<Block> blocks;
        dd::vEdge          e    = dd::vEdge::one;
        int                at   = 0;
        int                rich = 0;
        while (at < n) {
            const int m = std::min(n - at, g.irange(1, 3));
            Vec       v(1ULL << m, C{});
            if (rich < 4 && g.oneIn(6)) {
                v = normalised(genVec(g, m, true));
                if (norm(v) < 0.5) {
                    v    = Vec(1ULL << m, C{});
                    v[0] = 1.;
                }
                ++rich;
            } else {
                v[g.below(v.size())] = 1.;
            }
            const auto part = pkg->makeStateFromVector(v);
            e               = at == 0 ? part : pkg->kronecker(part, e);
            g.note("qubits ", at, "..", at + m - 1, ": ", str(v));
            blocks.push_back({at, m, v});
            at += m;
        }
        for (int k = 0; k < 24; ++k) {
            std::size_t i = 0;
            C           want{1., 0.};
            for (const auto& b: blocks) {
                auto x = g.below(b.v.size());
                for (int t = 0; t < 8 && (k % 4 != 0 || t > 6) && b.v[x] == C{}; ++t) { // an entry that is not zero
                    x = (x + 1) % b.v.size();
                }
                i |= static_cast<std::size_t>(x) << b.low;
                want *= b.v[x];
            }
            if (k % 4 == 1) { // one bit away
                const auto  q = g.irange(0, n - 1);
                i ^= 1ULL << q;
                want = 1.;
                for (const auto& c: blocks) {
                    want *= c.v[(i >> c.low) & (c.v.size() - 1)];
                }
            }
            const auto a = val(pkg->getValueByPath(e, i));
            if (!close(a, want, 1e-9)) {
                fail("getValueByPath(", i, ") of a state of ", n, " qubits is ", a, ", expected ", want);
            }
            std::string path;
            for (int q = 0; q < n; ++q) {
                path += ((i >> q) & 1U) != 0U ? '1' : '0';
            }
            const auto b = val(pkg->getValueByPath(e, path));
            if (!close(b, want, 1e-9)) {
                fail("getValueByPath(\"", path, "\") is ", b, ", expected ", want);
            }
        }
        if (n > 32) {
            g.tag("more than 32 qubits");
            g.nontrivial();
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C01",
                      "vectors of 1-6 qubits (dense, sparse, few values, products, shared blocks, near-tolerance entries), up to three per package, and states produced by random circuits, "
                      "read back through every accessor; states of 20-64 qubits put together from small blocks, read by index and by path; non-trivial: at least two non-zero and two different entries (or a rejected length)",
                      {{"round-trip", 6, roundTrip}, {"circuits", 3, circuits}, {"lengths", 1, rejection}, {"wide", 1, wide}}};
    return p;
}
