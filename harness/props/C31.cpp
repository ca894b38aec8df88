// C31: wide decision diagrams, up to the 128 qubits the package allows.
#include "dd/Export.hpp"
#include "inv.hpp"

#include <sstream>

#include <bitset>
#include <map>
#include <random>
#include <unordered_map>
#include <unordered_set>
using namespace rf;

namespace {
    using Bits = std::bitset<128>;
    struct Less {
        bool operator()(const Bits& a, const Bits& b) const { return a.to_string() < b.to_string(); }
    };
    using Sparse = std::map<Bits, C, Less>;

    Sparse apply(const Sparse& s, int t0, int t1, const std::vector<Ctrl>& cs, const G2& u2, const G1& u) {
        Sparse r;
        for (const auto& [b, a]: s) {
            if (!std::all_of(cs.begin(), cs.end(), [&, &bb = b](const Ctrl& c) { return bb[static_cast<std::size_t>(c.q)] == c.pos; })) {
                r[b] += a;
                continue;
            }
            const auto p0 = static_cast<std::size_t>(t0);
            if (t1 < 0) {
                for (std::size_t k = 0; k < 2; ++k) {
                    auto x = b;
                    x[p0]  = k == 1;
                    r[x] += u[2 * k + (b[p0] ? 1 : 0)] * a;
                }
            } else {
                const auto p1 = static_cast<std::size_t>(t1);
                for (std::size_t k = 0; k < 4; ++k) {
                    auto x = b;
                    x[p0]  = (k >> 1U) == 1;
                    x[p1]  = (k & 1U) == 1;
                    r[x] += u2[k][2 * (b[p0] ? 1 : 0) + (b[p1] ? 1 : 0)] * a;
                }
            }
        }
        for (auto it = r.begin(); it != r.end();) {
            it = std::abs(it->second) < 1e-13 ? r.erase(it) : std::next(it);
        }
        return r;
    }
    double norm2(const Sparse& s) {
        double r = 0;
        for (const auto& x: s) {
            r += std::norm(x.second);
        }
        return r;
    }
    C amplitude(const dd::vEdge& e, const Bits& b, int n, int base) {
        auto amp = val(e.w);
        auto p   = e.p;
        for (int l = n - 1; l >= 0; --l) {
            if (amp == C{}) {
                return 0.;
            }
            if (dd::vNode::isTerminal(p) || p->v != l + base) {
                fail("the state has no node of qubit ", l + base, " where one is expected");
            }
            const auto& c = p->e[b[static_cast<std::size_t>(l)] ? 1 : 0];
            amp *= val(c.w);
            p = c.p;
        }
        if (amp != C{} && !dd::vNode::isTerminal(p)) {
            fail("the state is deeper than its number of qubits");
        }
        return amp;
    }
    // squared norm of the state of a diagram, every node once
    double ddNorm2(const dd::vEdge& e, std::unordered_map<const void*, double>& memo) {
        if (e.isTerminal()) {
            return std::norm(val(e.w));
        }
        const auto it = memo.find(e.p);
        double     s  = 0;
        if (it != memo.end()) {
            s = it->second;
        } else {
            s         = ddNorm2(e.p->e[0], memo) + ddNorm2(e.p->e[1], memo);
            memo[e.p] = s;
        }
        return std::norm(val(e.w)) * s;
    }
    std::string show(const Bits& b, int n) { return b.to_string().substr(static_cast<std::size_t>(128 - n)); }

    // all terms have their amplitude, and together they account for the whole norm
    void compare(const dd::vEdge& e, const Sparse& s, int n, int base, const std::string& what) {
        for (const auto& [b, a]: s) {
            const auto got = amplitude(e, b, n, base);
            if (!close(got, a, 1e-9)) {
                fail(what, ": amplitude of ", show(b, n), " is ", got, ", expected ", a);
            }
        }
        std::unordered_map<const void*, double> memo;
        const auto                              d = ddNorm2(e, memo);
        if (!(std::abs(d - norm2(s)) < 1e-9 * (1 + norm2(s)))) {
            fail(what, ": the squared norm is ", d, ", the expected terms have ", norm2(s));
        }
    }
    int width(Gen& g) {
        switch (g.below(4)) {
            case 0: return 128 - g.irange(0, 3);
            case 1: return 64 + g.irange(-2, 2);
            case 2: return g.irange(2, 128);
            default: return g.irange(100, 128);
        }
    }
    std::vector<int> someQubits(Gen& g, int n, std::size_t k) { // distinct, the ends preferred
        std::vector<int> r;
        while (r.size() < k) {
            int q = 0;
            switch (g.below(4)) {
                case 0: q = n - 1 - g.irange(0, std::min(2, n - 1)); break;
                case 1: q = g.irange(0, std::min(2, n - 1)); break;
                default: q = g.irange(0, n - 1); break;
            }
            while (std::find(r.begin(), r.end(), q) != r.end()) {
                q = (q + 1) % n;
            }
            r.push_back(q);
        }
        return r;
    }
    const G2& swapLike(std::uint64_t k) {
        static const C              i{0., 1.};
        static const std::vector<G2> v = {
                {{{1., 0., 0., 0.}, {0., 0., 1., 0.}, {0., 1., 0., 0.}, {0., 0., 0., 1.}}},
                {{{1., 0., 0., 0.}, {0., 0., i, 0.}, {0., i, 0., 0.}, {0., 0., 0., 1.}}},
                {{{1., 0., 0., 0.}, {0., 1., 0., 0.}, {0., 0., 0., 1.}, {0., 0., 1., 0.}}},
                {{{1., 0., 0., 0.}, {0., 1., 0., 0.}, {0., 0., 1., 0.}, {0., 0., 0., -1.}}},
                {{{S2, 0., 0., -i * S2}, {0., S2, -i * S2, 0.}, {0., -i * S2, S2, 0.}, {-i * S2, 0., 0., S2}}}};
        return v[k % v.size()];
    }
    void controls(Gen& g, const std::vector<int>& qs, std::size_t from, std::vector<Ctrl>& cs) {
        for (std::size_t i = from; i < qs.size(); ++i) {
            cs.push_back({qs[i], !g.oneIn(3)});
        }
    }
    std::vector<Ctrl> shifted(std::vector<Ctrl> cs, int by) {
        for (auto& c: cs) {
            c.q += by;
        }
        return cs;
    }
    struct Wide {
        std::unique_ptr<Pkg> pkg;
        int                  n    = 0;
        int                  base = 0;
        dd::vEdge            e;
        Sparse               s;
    };
    Wide start(Gen& g, bool offset) {
        Wide w;
        w.n    = width(g);
        w.base = offset && w.n < 128 && g.oneIn(3) ? g.irange(0, 128 - w.n) : 0;
        if (w.base > 0 && g.flip()) {
            w.base = 128 - w.n;
        }
        const int cap = g.flip() ? 128 : w.n + w.base;
        w.pkg         = std::make_unique<Pkg>(static_cast<std::size_t>(cap));
        Bits b;
        if (w.base == 0 && g.flip()) {
            std::vector<bool> st;
            for (int q = 0; q < w.n; ++q) {
                st.push_back(g.flip());
                b[static_cast<std::size_t>(q)] = st.back();
            }
            w.e = w.pkg->makeBasisState(static_cast<dd::QubitCount>(w.n), st);
        } else {
            w.e = w.pkg->makeZeroState(static_cast<dd::QubitCount>(w.n), static_cast<std::size_t>(w.base));
        }
        w.s[b] = 1.;
        w.pkg->incRef(w.e);
        g.note(w.n, " qubits from ", w.base, " in a package of ", cap, ", initially ", show(b, w.n));
        return w;
    }
    // entries of a matrix: the given column, and a few others of it
    void entries(Gen& g, Pkg& p, const dd::mEdge& m, const Bits& col, const Sparse& want, int n, const std::string& what) {
        std::vector<Bits> rows;
        for (const auto& x: want) {
            rows.push_back(x.first);
        }
        for (int k = 0; k < 3; ++k) {
            Bits row = rows.empty() ? col : g.pick(rows);
            if (k == 2) {
                row.flip(static_cast<std::size_t>(g.irange(0, n - 1)));
            }
            const auto  it = want.find(row);
            const auto  x  = it == want.end() ? C{} : it->second;
            std::string path;
            for (int q = 0; q < n; ++q) {
                path += static_cast<char>('0' + 2 * (row[static_cast<std::size_t>(q)] ? 1 : 0) + (col[static_cast<std::size_t>(q)] ? 1 : 0));
            }
            auto got = val(p.getValueByPath(m, path));
            if (!close(got, x, 1e-9)) {
                fail(what, ": entry ", show(row, n), ", ", show(col, n), " is ", got, " by its path, expected ", x);
            }
            if (n <= 64) {
                got = val(p.getValueByPath(m, static_cast<std::size_t>((row & Bits{~0ULL}).to_ullong()), static_cast<std::size_t>((col & Bits{~0ULL}).to_ullong())));
                if (!close(got, x, 1e-9)) {
                    fail(what, ": entry ", show(row, n), ", ", show(col, n), " is ", got, ", expected ", x);
                }
            }
        }
    }
    void gates(Gen& g, Wide& w, int count) {
        auto&      p  = *w.pkg;
        const auto qn = static_cast<dd::QubitCount>(w.n);
        const auto st = static_cast<std::size_t>(w.base);
        for (int k = 0; k < count; ++k) {
            dd::mEdge         m;
            std::vector<Ctrl> cs;
            Gate              x;
            const bool        two = w.n > 1 && g.below(3) == 0;
            const auto        nc  = g.below(std::min<std::uint64_t>(4, static_cast<std::uint64_t>(w.n - (two ? 2 : 1)) + 1));
            if (two) {
                const auto which = g.below(8);
                const bool named = which >= 5; // controlled swap constructions
                const auto qs    = someQubits(g, w.n, 2 + (named ? nc : 0));
                x.t0             = qs[0];
                x.t1             = qs[1];
                if (named) {
                    controls(g, qs, 2, cs);
                    x.u2 = swapLike(which == 5 ? 0 : 1);
                    const auto c = toControls(shifted(cs, w.base));
                    const auto a = static_cast<dd::Qubit>(x.t0 + w.base);
                    const auto b = static_cast<dd::Qubit>(x.t1 + w.base);
                    m            = which == 5 ? p.makeSWAPDD(qn, c, a, b, st) : p.makeiSWAPDD(qn, c, a, b, st);
                    x.name       = which == 5 ? "SWAP" : "iSWAP";
                } else {
                    x.u2   = swapLike(which);
                    x.name = "two-qubit gate " + std::to_string(which);
                    m      = p.makeTwoQubitGateDD(fromG2(x.u2), qn, static_cast<dd::Qubit>(x.t0 + w.base), static_cast<dd::Qubit>(x.t1 + w.base), st);
                }
            } else {
                const auto qs = someQubits(g, w.n, 1 + nc);
                x.t0          = qs[0];
                controls(g, qs, 1, cs);
                if (w.s.size() > 16 || g.below(3) == 0) { // keep the number of terms small
                    static const std::vector<std::pair<std::string, dd::GateMatrix>> mono = {{"X", dd::Xmat}, {"Y", dd::Ymat}, {"Z", dd::Zmat}, {"S", dd::Smat}, {"T", dd::Tmat}};
                    const auto&                                                      c    = g.pick(mono);
                    x.name        = c.first;
                    x.u           = toG1(c.second);
                } else if (g.flip()) {
                    x.name = "H";
                    x.u    = toG1(dd::Hmat);
                } else {
                    x.name = "U";
                    x.u    = randomUnitary1(g);
                }
                m = p.makeGateDD(fromG1(x.u), qn, toControls(shifted(cs, w.base)), static_cast<dd::Qubit>(x.t0 + w.base), st);
            }
            x.cs = cs;
            g.note(str(x));
            if (w.base == 0 && g.oneIn(3)) {
                Bits col;
                for (int q = 0; q < w.n; ++q) {
                    col[static_cast<std::size_t>(q)] = g.flip();
                }
                for (const auto& c: cs) { // often a column on which the gate acts
                    if (g.mostly(4)) {
                        col[static_cast<std::size_t>(c.q)] = c.pos;
                    }
                }
                entries(g, p, m, col, apply(Sparse{{col, 1.}}, x.t0, x.t1, cs, x.u2, x.u), w.n, str(x));
            }
            if (g.oneIn(6)) { // undo and redo
                const auto f = p.multiply(p.conjugateTranspose(m), p.multiply(m, w.e, static_cast<dd::Qubit>(w.base)), static_cast<dd::Qubit>(w.base));
                compare(f, w.s, w.n, w.base, "state after a gate and its inverse");
            }
            const auto f = p.multiply(m, w.e, static_cast<dd::Qubit>(w.base));
            p.incRef(f);
            p.decRef(w.e);
            w.e = f;
            w.s = apply(w.s, x.t0, x.t1, cs, x.u2, x.u);
            compare(w.e, w.s, w.n, w.base, "state after " + str(x));
            if (g.oneIn(6)) {
                p.garbageCollect(true);
                compare(w.e, w.s, w.n, w.base, "state after a collection");
            }
        }
    }
    void circuit(Gen& g) {
        auto w = start(g, true);
        gates(g, w, g.irange(1, 8));
        if (w.n + w.base > 64 && w.s.size() > 1) {
            g.nontrivial();
        }
        g.tag(w.n + w.base > 127 ? "128" : w.n + w.base > 64 ? "65-127" :
                                                               "up to 64");
        if (w.base == 0) { // accessors
            auto&             p = *w.pkg;
            std::vector<Bits> bs;
            for (const auto& x: w.s) {
                bs.push_back(x.first);
            }
            for (int k = 0; k < 4; ++k) {
                auto b = g.pick(bs);
                if (k > 0) {
                    b.flip(static_cast<std::size_t>(g.irange(0, w.n - 1)));
                }
                const auto it   = w.s.find(b);
                const auto want = it == w.s.end() ? C{} : it->second;
                std::string path;
                for (int q = 0; q < w.n; ++q) {
                    path += b[static_cast<std::size_t>(q)] ? '1' : '0';
                }
                auto got = val(p.getValueByPath(w.e, path));
                if (!close(got, want, 1e-9)) {
                    fail("value of path ", path, " is ", got, ", expected ", want);
                }
                if (w.n <= 64) {
                    got = val(p.getValueByPath(w.e, static_cast<std::size_t>((b & Bits{~0ULL}).to_ullong())));
                    if (!close(got, want, 1e-9)) {
                        fail("value of index ", show(b, w.n), " is ", got, ", expected ", want);
                    }
                }
            }
            // other packages, files, deleted successors
            switch (g.below(6)) {
                case 0: {
                    Pkg  q(static_cast<std::size_t>(w.n));
                    auto e = w.e;
                    compare(q.transfer(e), w.s, w.n, 0, "state in another package");
                    break;
                }
                case 1: {
                    Pkg               q(static_cast<std::size_t>(w.n));
                    const bool        bin = g.flip();
                    std::stringstream ss;
                    dd::serialize(w.e, ss, bin);
                    compare(q.deserialize<dd::vNode>(ss, bin), w.s, w.n, 0, bin ? "state read from binary" : "state read from text");
                    break;
                }
                case 2: {
                    const auto qs  = someQubits(g, w.n, 1)[0];
                    const auto bit = g.flip();
                    Sparse     rest;
                    for (const auto& [b, a]: w.s) {
                        if (b[static_cast<std::size_t>(qs)] != bit) {
                            rest[b] = a;
                        }
                    }
                    compare(p.deleteEdge(w.e, static_cast<dd::Qubit>(qs), bit ? 1U : 0U), rest, w.n, 0, "state without a successor");
                    break;
                }
                case 3: { // a matrix
                    const auto        qs = someQubits(g, w.n, 1 + g.below(std::min(w.n, 3)));
                    std::vector<Ctrl> cs;
                    controls(g, qs, 1, cs);
                    const auto u   = randomUnitary1(g);
                    auto       m   = p.makeGateDD(fromG1(u), static_cast<dd::QubitCount>(w.n), toControls(cs), static_cast<dd::Qubit>(qs[0]));
                    Bits       col;
                    for (const auto& c: cs) {
                        col[static_cast<std::size_t>(c.q)] = c.pos;
                    }
                    const auto        want = apply(Sparse{{col, 1.}}, qs[0], -1, cs, {}, u);
                    Pkg               q(static_cast<std::size_t>(w.n));
                    const bool        bin = g.flip();
                    std::stringstream ss;
                    dd::serialize(m, ss, bin);
                    entries(g, q, q.deserialize<dd::mNode>(ss, bin), col, want, w.n, "gate read from a file");
                    entries(g, q, q.transfer(m), col, want, w.n, "gate in another package");
                    auto back = apply(Sparse{{col, 1.}}, qs[0], -1, cs, {}, {u[0], u[2], u[1], u[3]});
                    entries(g, p, p.transpose(m), col, back, w.n, "transposed gate");
                    for (auto& x: back) {
                        x.second = std::conj(x.second);
                    }
                    entries(g, p, p.conjugateTranspose(m), col, back, w.n, "inverse gate");
                    break;
                }
                default: break;
            }
            const auto ip = val(p.innerProduct(w.e, w.e));
            if (!close(ip, 1., 1e-9) || !(std::abs(p.fidelity(w.e, w.e) - 1.) < 1e-9)) {
                fail("inner product of a state with itself is ", ip);
            }
            std::unordered_set<const void*> nodes;
            std::function<void(const dd::vEdge&)> rec = [&](const dd::vEdge& x) {
                if (nodes.insert(x.p).second && !x.isTerminal()) {
                    rec(x.p->e[0]);
                    rec(x.p->e[1]);
                }
            };
            rec(w.e);
            if (p.size(w.e) != nodes.size()) {
                fail("size is ", p.size(w.e), ", but there are ", nodes.size(), " nodes with the terminal");
            }
        }
        w.pkg->decRef(w.e);
        w.pkg->garbageCollect(true);
        if (w.pkg->vUniqueTable.getNodeCount() != 0) {
            fail(w.pkg->vUniqueTable.getNodeCount(), " nodes remain after releasing the state");
        }
    }
    void measure(Gen& g) {
        auto  w = start(g, false);
        auto& p = *w.pkg;
        gates(g, w, g.irange(1, 6));
        std::mt19937_64 mt(g.below(1ULL << 32U));
        for (int k = g.irange(0, 3); k > 0; --k) {
            const auto q  = someQubits(g, w.n, 1)[0];
            double     p1 = 0;
            for (const auto& x: w.s) {
                p1 += x.first[static_cast<std::size_t>(q)] ? std::norm(x.second) : 0.;
            }
            const bool a   = g.flip();
            const auto got = p.determineMeasurementProbabilities(w.e, static_cast<dd::Qubit>(q), a);
            if (!(std::abs(got.second - p1) < 1e-9) || !(std::abs(got.first - (1 - p1)) < 1e-9)) {
                fail("probabilities of qubit ", q, " are ", got.first, " and ", got.second, ", expected ", 1 - p1, " and ", p1);
            }
            const char r = p.measureOneCollapsing(w.e, static_cast<dd::Qubit>(q), a, mt);
            g.note("qubit ", q, " measured ", r);
            const auto pr = r == '1' ? p1 : 1 - p1;
            if (pr < 1e-6) {
                if (pr < 1e-12) {
                    fail("outcome ", r, " of qubit ", q, " has probability ", pr);
                }
                throw pb::Discard{};
            }
            Sparse t;
            for (const auto& x: w.s) {
                if (x.first[static_cast<std::size_t>(q)] == (r == '1')) {
                    t[x.first] = x.second / std::sqrt(pr);
                }
            }
            w.s = t;
            compare(w.e, w.s, w.n, 0, "state after measuring qubit " + std::to_string(q));
        }
        for (int k = g.irange(1, 3); k > 0; --k) {
            const bool collapse = g.flip();
            const auto r        = p.measureAll(w.e, collapse, mt);
            g.note("all measured: ", r, collapse ? " (collapse)" : "");
            if (static_cast<int>(r.size()) != w.n) {
                fail("outcome has ", r.size(), " digits");
            }
            const Bits b(r);
            const auto it = w.s.find(b);
            if (it == w.s.end()) {
                fail("outcome ", r, " has probability 0");
            }
            if (collapse) {
                w.s = Sparse{{b, 1.}};
            }
            compare(w.e, w.s, w.n, 0, "state after measuring all qubits");
        }
        if (w.n > 64) {
            g.nontrivial();
        }
        g.tag(w.n > 127 ? "128" : w.n > 64 ? "65-127" :
                                             "up to 64");
        p.decRef(w.e);
        p.garbageCollect(true);
        if (p.vUniqueTable.getNodeCount() != 0) {
            fail(p.vUniqueTable.getNodeCount(), " nodes remain after releasing the state");
        }
    }
    // Kronecker products and identities
    void composed(Gen& g) {
        const int  n = g.irange(1, 127);
        const int  m = g.flip() ? 128 - n : g.irange(1, 128 - n);
        auto       p = std::make_unique<Pkg>(static_cast<std::size_t>(n + m));
        const auto mk = [&](int k, Sparse& s) {
            const auto qn = static_cast<dd::QubitCount>(k);
            auto       e  = p->makeZeroState(qn);
            s             = Sparse{{Bits{}, 1.}};
            for (int i = g.irange(0, 4); i > 0; --i) {
                const auto        nc = g.below(std::min(k, 3));
                const auto        qs = someQubits(g, k, 1 + nc);
                std::vector<Ctrl> cs;
                controls(g, qs, 1, cs);
                const auto u = s.size() > 8 ? toG1(dd::Ymat) : randomUnitary1(g);
                g.note("gate on ", qs[0], str(cs));
                e = p->multiply(p->makeGateDD(fromG1(u), qn, toControls(cs), static_cast<dd::Qubit>(qs[0])), e);
                s = apply(s, qs[0], -1, cs, {}, u);
            }
            return e;
        };
        g.note(n, " and ", m, " qubits");
        Sparse     a;
        Sparse     b;
        const auto x = mk(n, a);
        const auto y = mk(m, b);
        compare(x, a, n, 0, "first factor");
        compare(y, b, m, 0, "second factor");
        const auto z = p->kronecker(x, y);
        Sparse     c;
        for (const auto& [u, au]: a) {
            for (const auto& [v, av]: b) {
                c[(u << static_cast<std::size_t>(m)) | v] = au * av;
            }
        }
        compare(z, c, n + m, 0, "Kronecker product");
        // gates on the factors, as one gate, and on the product
        const auto        qa = someQubits(g, n, 1)[0];
        const auto        ua = randomUnitary1(g);
        const auto        ga = p->makeGateDD(fromG1(ua), static_cast<dd::QubitCount>(n), static_cast<dd::Qubit>(qa));
        const auto        gb = p->makeIdent(static_cast<dd::QubitCount>(m));
        const auto        gz = p->kronecker(ga, gb);
        const auto        gd = p->makeGateDD(fromG1(ua), static_cast<dd::QubitCount>(n + m), static_cast<dd::Qubit>(qa + m));
        if (!(gz == gd)) {
            fail("the product of a gate with the identity is not the gate on ", n + m, " qubits");
        }
        compare(p->multiply(gz, z), apply(c, qa + m, -1, {}, {}, ua), n + m, 0, "gate on a product");
        const auto id = p->makeIdent(static_cast<dd::QubitCount>(n + m));
        if (!(p->multiply(p->conjugateTranspose(gd), gd) == id) && !p->isCloseToIdentity(p->multiply(p->conjugateTranspose(gd), gd))) {
            fail("a gate times its inverse is not the identity");
        }
        if (!(p->multiply(id, z) == z)) {
            fail("the identity changes a state");
        }
        if (n + m <= 12) { // (takes exponential time)
            const auto t = val(p->trace(id));
            if (!close(t, std::ldexp(1., n + m), 1e-9 * std::ldexp(1., n + m))) {
                fail("trace of the identity is ", t);
            }
        }
        const auto sum = p->add(z, z);
        compare(sum, apply(c, 0, -1, {}, {}, G1{2., 0., 0., 2.}), n + m, 0, "sum of a state with itself");
        if (n + m > 64 && c.size() > 1) {
            g.nontrivial();
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C31",
                      "circuits with few terms on up to 128 qubits, also placed at a start offset, against a sparse reference: amplitudes, norm, accessors, measurements, Kronecker products, identities, collections; "
                      "non-trivial: more than 64 qubits and more than one term, or a measurement on more than 64 qubits",
                      {{"circuit", 4, circuit}, {"measure", 3, measure}, {"composed", 3, composed}}};
    return p;
}
