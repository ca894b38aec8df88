// C19: the tables caching results of operations never return anything but the latest result for exactly those operands.
#include "inv.hpp"
using namespace rf;

namespace {
    // edges over a few nodes and numbers; equality of edges (== of the library) is what the tables promise to respect
    template<class Node>
    struct Pool {
        std::vector<Node>                       nodes;
        std::vector<dd::CTEntry>                numbers;
        explicit Pool(Gen& g) {
            nodes.resize(2 + g.below(6));
            for (auto& n: nodes) {
                n.v = static_cast<dd::Qubit>(g.below(3));
                if constexpr (!std::is_same_v<Node, dd::vNode>) {
                    n.flags = g.flip() ? 8 : 0;
                }
            }
            for (auto k = 2 + g.below(5); k > 0; --k) {
                dd::CTEntry e{};
                e.value = g.pick({0.25, 0.5, 0.1, 0.3, 0.7, 0.25 + 1e-9});
                numbers.push_back(e);
            }
        }
        dd::Complex weight(Gen& g) {
            if (g.oneIn(4)) {
                return g.flip() ? dd::Complex::one : dd::Complex::zero;
            }
            auto* r = &numbers[g.below(numbers.size())];
            auto* i = &numbers[g.below(numbers.size())];
            if (g.oneIn(3)) {
                r = dd::CTEntry::getNegativePointer(r);
            }
            return {r, i};
        }
        dd::Edge<Node> edge(Gen& g) { return {&nodes[g.below(nodes.size())], weight(g)}; }
        dd::CachedEdge<Node> cached(Gen& g) {
            const double jig = g.oneIn(4) ? 1e-13 : 0.;
            return {&nodes[g.below(nodes.size())], dd::ComplexValue{g.pick({1., 0.5, 0.25, -0.5}) + jig, g.pick({0., 0.5, -0.25, 0.})}};
        }
    };
    template<class E>
    bool same(const E& a, const E& b) {
        if (a.p != b.p) {
            return false;
        }
        if constexpr (std::is_same_v<decltype(a.w), dd::Complex>) {
            return a.w == b.w;
        } else {
            return val(a.w) == val(b.w);
        }
    }

    // binary operations
    template<class Table, class GL, class GR, class GRes>
    void binary(Gen& g, GL gl, GR gr, GRes gres, bool density = false) {
        auto  table = std::make_unique<Table>();
        auto& t     = *table;
        using L     = decltype(gl());
        using R     = decltype(gr());
        using Res   = decltype(gres());
        struct Rec {
            L   l;
            R   r;
            Res res;
        };
        std::vector<Rec> hist;
        std::size_t      hits = 0;
        for (auto k = 1 + g.below(60); k > 0; --k) {
            if (g.oneIn(25)) {
                g.note("clear");
                t.clear();
                hist.clear();
                continue;
            }
            const bool ins = g.oneIn(2);
            // reuse operands often
            L l = !hist.empty() && g.below(3) != 0 ? g.pick(hist).l : gl();
            R r = !hist.empty() && g.below(3) != 0 ? g.pick(hist).r : gr();
            auto check = [&](const Res& got, bool dm, bool must) {
                if (got.p == nullptr) {
                    if (must) {
                        fail("a result just stored is not found");
                    }
                    return;
                }
                ++hits;
                for (auto it = hist.rbegin(); it != hist.rend(); ++it) {
                    if (it->l == l && it->r == r) {
                        if (!same(it->res, got)) {
                            // several stored operands may be equal up to the tolerance; any of them will do
                            bool other = false;
                            for (const auto& h: hist) {
                                other = other || (h.l == l && h.r == r && same(h.res, got) && !(same(h.l, it->l) && same(h.r, it->r)));
                            }
                            if (!other) {
                                fail("lookup returned an outdated or foreign result");
                            }
                        }
                        if (density) {
                            if constexpr (std::is_same_v<R, dd::dEdge>) {
                                if (((got.p->flags & 8U) != 0) != dm) {
                                    fail("lookup returned a ", dm ? "matrix" : "density matrix", " where the other kind was asked for");
                                }
                            }
                        }
                        return;
                    }
                }
                fail("lookup returned a result for operands that were never stored");
            };
            if (ins) {
                const Res res = gres();
                g.note("insert");
                t.insert(l, r, res);
                hist.push_back({l, r, res});
                bool dm = false;
                if constexpr (std::is_same_v<R, dd::dEdge>) {
                    dm = (res.p->flags & 8U) != 0;
                }
                check(t.lookup(l, r, dm), dm, true);
            } else {
                g.note("lookup");
                const bool dm = g.flip();
                check(t.lookup(l, r, dm), dm, false);
            }
        }
        if (hits > 2) {
            g.nontrivial();
        }
    }
    void compute(Gen& g) {
        Pool<dd::vNode> pv(g);
        Pool<dd::mNode> pm(g);
        Pool<dd::dNode> pd(g);
        auto            vc = [&] { return pv.cached(g); };
        auto            mc = [&] { return pm.cached(g); };
        auto            ve = [&] { return pv.edge(g); };
        auto            me = [&] { return pm.edge(g); };
        auto            de = [&] { return pd.edge(g); };
        auto            dc = [&] { return pd.cached(g); };
        switch (g.below(7)) {
            case 0: binary<dd::ComputeTable<dd::vCachedEdge, dd::vCachedEdge, dd::vCachedEdge, 16>>(g, vc, vc, vc); break;
            case 1: binary<dd::ComputeTable<dd::mCachedEdge, dd::mCachedEdge, dd::mCachedEdge, 1>>(g, mc, mc, mc); break;
            case 2: binary<dd::ComputeTable<dd::mEdge, dd::vEdge, dd::vCachedEdge, 16>>(g, me, ve, vc); break;
            case 3: binary<dd::ComputeTable<dd::mEdge, dd::mEdge, dd::mCachedEdge, 64>>(g, me, me, mc); break;
            case 4: binary<dd::ComputeTable<dd::vEdge, dd::vEdge, dd::vCachedEdge, 4>>(g, ve, ve, vc); break;
            case 5: binary<dd::ComputeTable<dd::dEdge, dd::dEdge, dd::dCachedEdge, 16>>(g, de, de, dc, true); break;
            default: binary<dd::ComputeTable<dd::dCachedEdge, dd::dCachedEdge, dd::dCachedEdge, 2>>(g, dc, dc, dc); break;
        }
    }
    // unary operations and noise: operand (and list of qubits)
    template<class Table, bool noise, class GO>
    void unary(Gen& g, GO go) {
        auto  table = std::make_unique<Table>();
        auto& t     = *table;
        using O     = decltype(go());
        struct Rec {
            O                      o;
            std::vector<dd::Qubit> q;
            O                      res;
        };
        std::vector<Rec> hist;
        std::size_t      hits = 0;
        for (auto k = 1 + g.below(60); k > 0; --k) {
            if (g.oneIn(25)) {
                t.clear();
                hist.clear();
                continue;
            }
            const bool ins = g.flip();
            O          o   = !hist.empty() && g.below(3) != 0 ? g.pick(hist).o : go();
            std::vector<dd::Qubit> q;
            if (noise) {
                if (!hist.empty() && g.below(3) != 0) {
                    q = g.pick(hist).q;
                } else {
                    for (auto m = g.below(4); m > 0; --m) {
                        q.push_back(static_cast<dd::Qubit>(g.below(3)));
                    }
                }
            }
            auto find = [&]() -> O {
                if constexpr (noise) {
                    return t.lookup(o, q);
                } else {
                    return t.lookup(o);
                }
            };
            auto check = [&](const O& got, bool must) {
                if (got.p == nullptr) {
                    if (must) {
                        fail("a result just stored is not found");
                    }
                    return;
                }
                ++hits;
                bool first = true;
                bool ok    = false;
                O    lastKey{};
                for (auto it = hist.rbegin(); it != hist.rend() && !ok; ++it) {
                    if (it->o == o && it->q == q) {
                        if (first) {
                            ok      = same(it->res, got);
                            lastKey = it->o;
                            first   = false;
                        } else if (!same(it->o, lastKey)) {
                            ok = same(it->res, got);
                        }
                    }
                }
                if (first) {
                    fail("lookup returned a result for an operand that was never stored");
                }
                if (!ok) {
                    fail("lookup returned an outdated or foreign result");
                }
            };
            if (ins) {
                const O res = go();
                if constexpr (noise) {
                    t.insert(o, res, q);
                } else {
                    t.insert(o, res);
                }
                hist.push_back({o, q, res});
                check(find(), true);
            } else {
                check(find(), false);
            }
        }
        if (hits > 2) {
            g.nontrivial();
        }
    }
    void single(Gen& g) {
        Pool<dd::mNode> pm(g);
        Pool<dd::vNode> pv(g);
        Pool<dd::dNode> pd(g);
        auto            me = [&] { return pm.edge(g); };
        auto            ve = [&] { return pv.edge(g); };
        auto            de = [&] { return pd.edge(g); };
        auto            dc = [&] { return pd.cached(g); };
        switch (g.below(5)) {
            case 0: unary<dd::UnaryComputeTable<dd::mEdge, dd::mEdge, 16>, false>(g, me); break;
            case 1: unary<dd::UnaryComputeTable<dd::mEdge, dd::mEdge, 1>, false>(g, me); break;
            case 2: unary<dd::UnaryComputeTable<dd::vEdge, dd::vEdge, 4>, false>(g, ve); break;
            case 3: unary<dd::DensityNoiseTable<dd::dEdge, dd::dEdge, 16>, true>(g, de); break;
            default: unary<dd::DensityNoiseTable<dd::dCachedEdge, dd::dCachedEdge, 1>, true>(g, dc); break;
        }
    }
    void stochastic(Gen& g) {
        Pool<dd::mNode>                                    pm(g);
        auto                                               nq = 1 + g.below(5);
        dd::StochasticNoiseOperationTable<dd::mEdge, 8>    t(nq);
        std::map<std::pair<std::uint64_t, std::uint64_t>, dd::mEdge> m;
        for (auto k = 1 + g.below(60); k > 0; --k) {
            const auto kind = g.below(8);
            const auto q    = g.below(nq);
            switch (g.weighted({8, 8, 1, 1})) {
                case 0: {
                    const auto e = pm.edge(g);
                    t.insert(static_cast<std::uint8_t>(kind), static_cast<dd::Qubit>(q), e);
                    m[{kind, q}] = e;
                    g.nontrivial();
                    break;
                }
                case 1: {
                    const auto r  = t.lookup(static_cast<std::uint8_t>(kind), static_cast<dd::Qubit>(q));
                    const auto it = m.find({kind, q});
                    if ((r.p != nullptr) != (it != m.end())) {
                        fail("operation ", kind, " on qubit ", q, it == m.end() ? " found though never stored" : " not found though stored");
                    }
                    if (r.p != nullptr && !same(r, it->second)) {
                        fail("operation ", kind, " on qubit ", q, " returned for another one");
                    }
                    break;
                }
                case 2:
                    t.clear();
                    m.clear();
                    break;
                default: {
                    nq = 1 + g.below(6);
                    t.resize(nq);
                    for (auto it = m.begin(); it != m.end();) {
                        it = it->first.second >= nq ? m.erase(it) : std::next(it);
                    }
                    break;
                }
            }
        }
    }
    void toffoli(Gen& g) {
        Pool<dd::mNode>                   pm(g);
        dd::ToffoliTable<dd::mEdge, 4>    t4;
        dd::ToffoliTable<dd::mEdge, 2048> tBig;
        struct Rec {
            int               n;
            std::vector<Ctrl> cs;
            int               target;
            dd::mEdge         e;
        };
        std::vector<Rec> hist;
        auto             sig = [](const std::vector<Ctrl>& cs) {
            std::set<std::pair<int, bool>> s;
            for (const auto& c: cs) {
                s.insert({c.q, c.pos});
            }
            return s;
        };
        for (auto k = 1 + g.below(40); k > 0; --k) {
            if (g.oneIn(20)) {
                t4.clear();
                tBig.clear();
                hist.clear();
                continue;
            }
            int               n      = g.irange(1, 6);
            int               target = g.irange(0, n - 1);
            std::vector<Ctrl> cs     = genControls(g, n, {target}, 4);
            if (!hist.empty() && g.flip()) { // a stored gate with one detail changed
                const auto& h = g.pick(hist);
                n = h.n, target = h.target, cs = h.cs;
                switch (g.below(5)) {
                    case 0: n += 1; break;
                    case 1:
                        if (!cs.empty()) {
                            auto& c = cs[g.below(cs.size())];
                            c.pos   = !c.pos;
                        }
                        break;
                    case 2:
                        if (!cs.empty()) {
                            std::swap(target, cs[g.below(cs.size())].q);
                        }
                        break;
                    case 3:
                        if (!cs.empty()) {
                            cs.pop_back();
                        }
                        break;
                    default: break;
                }
            }
            auto check = [&](const dd::mEdge& got, bool must) {
                const Rec* want = nullptr;
                for (const auto& h: hist) {
                    if (h.n == n && h.target == target && sig(h.cs) == sig(cs)) {
                        want = &h;
                    }
                }
                if (got.p == nullptr) {
                    if (must) {
                        fail("a gate just stored is not found");
                    }
                    return;
                }
                if (want == nullptr) {
                    fail("lookup of a gate on ", n, " qubits, target ", target, ", controls ", str(cs), " returned a gate although it was never stored");
                }
                g.nontrivial();
                if (!same(want->e, got)) {
                    fail("lookup of a gate on ", n, " qubits, target ", target, ", controls ", str(cs), " returned another gate");
                }
            };
            const auto qn = static_cast<dd::QubitCount>(n);
            const auto qt = static_cast<dd::Qubit>(target);
            if (g.flip()) {
                const auto e = pm.edge(g);
                t4.insert(qn, toControls(cs), qt, e);
                tBig.insert(qn, toControls(cs), qt, e);
                hist.push_back({n, cs, target, e});
                check(t4.lookup(qn, toControls(cs), qt), true);
                check(tBig.lookup(qn, toControls(cs), qt), true);
            } else {
                check(t4.lookup(qn, toControls(cs), qt), false);
                check(tBig.lookup(qn, toControls(cs), qt), false);
            }
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C19",
                      "random sequences of insertions, lookups and clears on every kind of operation table (1-2048 buckets, operands that differ in one node, one weight, one sign, one qubit or one control), "
                      "against a list of everything stored; non-trivial: at least one (binary: three) hits",
                      {{"compute", 4, compute}, {"unary", 3, single}, {"stochastic", 1, stochastic}, {"toffoli", 2, toffoli}}};
    return p;
}
