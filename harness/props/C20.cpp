// C20: unique tables: equal nodes are stored once, counts and collections are exact, memory is handed out once.
#include "ref.hpp"

#include <map>
#include <set>
using namespace rf;

namespace {
    template<class Node>
    unsigned flagsOf(const Node* p) {
        if constexpr (std::is_same_v<Node, dd::dNode>) {
            return p->flags; // nodes of density matrices are told apart by their marks, too
        } else {
            return 0U;
        }
    }
    template<class Node>
    using Key = std::pair<int, std::vector<const void*>>;
    template<class Node>
    Key<Node> keyOf(const Node* p) {
        Key<Node> k{static_cast<int>(p->v), {}};
        for (const auto& c: p->e) {
            k.second.push_back(c.p);
            k.second.push_back(c.w.r);
            k.second.push_back(c.w.i);
        }
        k.second.push_back(reinterpret_cast<const void*>(static_cast<std::uintptr_t>(flagsOf(p))));
        return k;
    }

    template<class Node, std::size_t NB, std::size_t ALLOC, std::size_t GROW, std::size_t LIM>
    struct Run {
        using Table = dd::UniqueTable<Node, NB, ALLOC, GROW, LIM>;
        using Edge  = dd::Edge<Node>;
        struct Info {
            std::uint64_t ref   = 0; // references held from outside and by referenced nodes
            bool          fixed = false;
        };
        Gen&                             g;
        std::size_t                      nv;
        dd::ComplexNumbers               cn{};
        Table                            t;
        std::map<Key<Node>, Node*>       stored;
        std::map<Node*, Info>            info; // of the stored nodes
        std::set<Node*>                  held; // taken and not yet stored or returned
        std::vector<std::vector<Node*>>  levels;
        std::vector<Edge>                refs; // references held
        std::vector<dd::Complex>         weights;
        std::size_t                      lookups = 0, hits = 0, peak = 0, maxActive = 0, most = 0;
        std::set<Node*>                  recycled;
        bool                             reused = false, collected = false;

        Run(Gen& gen, std::size_t n):
            g(gen), nv(n), t(n), levels(n) {
            weights = {dd::Complex::one, dd::Complex::one};
            for (auto k = 1 + g.below(3); k > 0; --k) {
                weights.push_back(cn.lookup(g.real(-1., 1.), g.flip() ? 0. : g.real(-1., 1.)));
            }
            weights.push_back({weights[2].r, dd::CTEntry::flipPointerSign(weights[2].i)});
        }
        Edge child(std::size_t v) {
            if (g.oneIn(4)) {
                return Edge::zero;
            }
            if (v == 0) {
                return {Node::terminal, g.pick(weights)};
            }
            if (levels[v - 1].empty()) {
                return Edge::zero;
            }
            return {g.pick(levels[v - 1]), g.pick(weights)};
        }
        Node* take() {
            auto* p = t.getNode();
            if (p == nullptr) {
                fail("no node");
            }
            if (info.count(p) != 0) {
                fail("a node in use was handed out");
            }
            if (!held.insert(p).second) {
                fail("a node was handed out twice");
            }
            if (p->ref != 0) {
                fail("a node with ", p->ref, " references was handed out");
            }
            reused = reused || recycled.erase(p) != 0;
            if (t.getAllocations() < info.size() + held.size()) {
                fail(info.size() + held.size(), " nodes in use, ", t.getAllocations(), " allocated");
            }
            most = std::max(most, info.size() + held.size());
            if (t.getAllocations() > ALLOC + static_cast<std::size_t>(2.F + t.getGrowthFactor()) * most) {
                fail(t.getAllocations(), " nodes allocated although there were never more than ", most, " (collected ones are not reused)");
            }
            return p;
        }
        std::size_t active(std::size_t v) {
            return static_cast<std::size_t>(std::count_if(levels[v].begin(), levels[v].end(), [&](auto* p) { return info.at(p).ref > 0; }));
        }
        void rec(const Edge& e, bool inc) {
            if (e.p == nullptr || e.isTerminal()) {
                return;
            }
            auto& i = info.at(e.p);
            if (i.fixed) {
                return;
            }
            if (inc ? i.ref++ == 0 : --i.ref == 0) {
                for (const auto& c: e.p->e) {
                    rec(c, inc);
                }
            }
            if (i.ref == std::numeric_limits<decltype(e.p->ref)>::max()) {
                i.fixed = true;
            }
        }
        void check(const char* when) {
            std::size_t n = 0;
            for (std::size_t v = 0; v < nv; ++v) {
                for (std::size_t b = 0; b < t.getTables().at(v).size(); ++b) {
                    std::size_t guard = 0;
                    for (const auto* p = t.getTables()[v][b]; p != nullptr; p = p->next) {
                        if (++guard > info.size()) {
                            fail(when, ": a bucket holds more nodes than there are");
                        }
                        ++n;
                        const auto it = info.find(const_cast<Node*>(p));
                        if (it == info.end()) {
                            fail(when, ": a node that should be gone is stored");
                        }
                        if (static_cast<std::size_t>(p->v) != v) {
                            fail(when, ": a node of level ", static_cast<int>(p->v), " on level ", v);
                        }
                        const auto k = stored.find(keyOf(p));
                        if (k == stored.end() || k->second != p) {
                            fail(when, ": a stored node changed");
                        }
                        if (p->ref != it->second.ref) {
                            fail(when, ": a node has ", p->ref, " references, expected ", it->second.ref);
                        }
                    }
                }
            }
            if (n != info.size() || t.getNodeCount() != n) {
                fail(when, ": ", n, " nodes stored, ", t.getNodeCount(), " reported, expected ", info.size());
            }
            std::size_t total = 0;
            for (std::size_t v = 0; v < nv; ++v) {
                const auto a = active(v);
                total += a;
                if (t.getActiveNodeCount(static_cast<dd::Qubit>(v)) != a) {
                    fail(when, ": level ", v, " reports ", t.getActiveNodeCount(static_cast<dd::Qubit>(v)), " active nodes, expected ", a);
                }
            }
            maxActive = std::max(maxActive, total);
            if (t.getActiveNodeCount() != total) {
                fail(when, ": ", t.getActiveNodeCount(), " active nodes reported, expected ", total);
            }
            if (t.getPeakNodeCount() != peak) {
                fail(when, ": peak of ", t.getPeakNodeCount(), " nodes reported, expected ", peak);
            }
            if (t.getMaxActiveNodes() != maxActive) {
                fail(when, ": at most ", t.getMaxActiveNodes(), " active nodes reported, expected ", maxActive);
            }
            if (lookups > 0 && std::abs(t.hitRatio() - static_cast<double>(hits) / static_cast<double>(lookups)) > 1e-12) {
                fail(when, ": hit ratio ", t.hitRatio(), ", expected ", hits, " of ", lookups);
            }
        }
        void lookupNew() {
            const auto v = g.below(nv);
            auto*      p = take();
            p->v         = static_cast<dd::Qubit>(v);
            if constexpr (std::is_same_v<Node, dd::dNode>) {
                p->flags = static_cast<std::uint8_t>(g.pick({0, 0, 8}));
            }
            if (g.oneIn(3) && !levels[v].empty()) { // like a stored one, or nearly so
                p->e = g.pick(levels[v])->e;
                if (g.oneIn(3)) {
                    p->e[g.below(p->e.size())] = child(v);
                }
            } else {
                for (auto& c: p->e) {
                    c = child(v);
                }
            }
            const auto key  = keyOf(p);
            const auto it   = stored.find(key);
            const bool keep = g.oneIn(4);
            const auto w    = g.pick(weights);
            g.note("look up a node of level ", v, it == stored.end() ? " (new)" : " (known)", keep ? " keeping it" : "");
            const auto r = keep ? t.lookup({p, w}, true) : t.lookup({p, w});
            ++lookups;
            if (!(r.w == w)) {
                fail("the lookup of a node changed the weight of the edge");
            }
            if (it == stored.end()) {
                if (r.p != p) {
                    fail("a node stored nowhere was found");
                }
                held.erase(p);
                stored[key] = p;
                info[p]     = {};
                levels[v].push_back(p);
                peak = std::max(peak, info.size());
            } else {
                ++hits;
                if (r.p != it->second) {
                    fail(r.p == p ? "a node was stored twice" : "another node was found");
                }
                if (!keep) {
                    held.erase(p);
                    recycled.insert(p);
                }
            }
        }
        bool collect(bool force) {
            const bool needs = t.possiblyNeedsCollection();
            const auto dead  = static_cast<std::size_t>(std::count_if(info.begin(), info.end(), [](const auto& i) { return i.second.ref == 0; }));
            const auto got   = force ? t.garbageCollect(true) : t.garbageCollect();
            g.note(force ? "forced" : "unforced", " collection: ", got);
            if (!force && !needs) {
                if (got != 0) {
                    fail("an unforced collection below the limit removed ", got, " nodes");
                }
                return false;
            }
            if (got != dead) {
                fail("a collection reports ", got, " removed nodes, expected ", dead);
            }
            for (auto it = info.begin(); it != info.end();) {
                if (it->second.ref == 0) {
                    for (auto s = stored.begin(); s != stored.end(); ++s) {
                        if (s->second == it->first) {
                            stored.erase(s);
                            break;
                        }
                    }
                    auto& l = levels[static_cast<std::size_t>(it->first->v)];
                    l.erase(std::find(l.begin(), l.end(), it->first));
                    recycled.insert(it->first);
                    it = info.erase(it);
                } else {
                    ++it;
                }
            }
            if (dead > 0) {
                collected = true;
            }
            if (needs && t.possiblyNeedsCollection()) {
                fail("right after a collection the table asks for another one");
            }
            return true;
        }
        void run() {
            const auto steps = 5 + g.below(120);
            for (std::uint64_t s = 0; s < steps; ++s) {
                switch (g.weighted({12, 5, 4, 1, 1, 1, 1, 1, 1, 1})) {
                    case 0: lookupNew(); break;
                    case 1: {
                        const auto v = g.below(nv);
                        if (levels[v].empty()) {
                            break;
                        }
                        refs.push_back({g.pick(levels[v]), g.pick(weights)});
                        g.note("reference a node of level ", v);
                        t.incRef(refs.back());
                        rec(refs.back(), true);
                        break;
                    }
                    case 2: {
                        if (refs.empty()) {
                            break;
                        }
                        const auto i = g.below(refs.size());
                        g.note("release a node of level ", static_cast<int>(refs[i].p->v));
                        t.decRef(refs[i]);
                        rec(refs[i], false);
                        refs.erase(refs.begin() + static_cast<long>(i));
                        break;
                    }
                    case 3: collect(true); break;
                    case 4: collect(false); break;
                    case 5: { // a stored node is found as itself
                        const auto v = g.below(nv);
                        if (!levels[v].empty()) {
                            auto* p = g.pick(levels[v]);
                            ++lookups;
                            ++hits;
                            if (t.lookup({p, dd::Complex::one}).p != p) {
                                fail("the lookup of a stored node returned another one");
                            }
                        }
                        const auto e = t.lookup({Node::terminal, weights[0]});
                        if (!e.isTerminal() || !(e.w == weights[0])) {
                            fail("the lookup of a terminal edge returned something else");
                        }
                        break;
                    }
                    case 6: { // give a node back
                        if (!held.empty()) {
                            auto* p = *held.begin();
                            held.erase(held.begin());
                            recycled.insert(p);
                            t.returnNode(p);
                        } else {
                            take();
                        }
                        break;
                    }
                    case 7: { // more releases than references
                        for (auto& l: levels) {
                            for (auto* p: l) {
                                if (info.at(p).ref == 0) {
                                    bool thrown = false;
                                    try {
                                        t.decRef({p, dd::Complex::one});
                                    } catch (const std::runtime_error&) {
                                        thrown = true;
                                    }
                                    if (!thrown) {
                                        fail("releasing a node that is not referenced was accepted");
                                    }
                                    goto done;
                                }
                            }
                        }
                    done:
                        break;
                    }
                    case 8: {
                        if (g.flip()) {
                            nv += 1 + g.below(2);
                            g.note("resize to ", nv);
                            t.resize(nv);
                            levels.resize(nv);
                        } else if (g.oneIn(4)) {
                            g.note("clear");
                            t.clear();
                            stored.clear();
                            info.clear();
                            held.clear();
                            refs.clear();
                            recycled.clear();
                            levels.assign(nv, {});
                            lookups = hits = peak = maxActive = 0;
                        }
                        break;
                    }
                    default: { // a node whose count of references reaches its maximum keeps it
                        if (!refs.empty() && g.oneIn(4)) {
                            auto* p   = g.pick(refs).p;
                            auto& i   = info.at(p);
                            using Ref = decltype(p->ref);
                            if (!i.fixed) {
                                g.note("saturate a node");
                                p->ref = std::numeric_limits<Ref>::max() - 1U;
                                i.ref  = p->ref;
                                std::clog.setstate(std::ios::failbit);
                                for (int k = 0; k < 3; ++k) {
                                    t.incRef({p, dd::Complex::one});
                                    rec({p, dd::Complex::one}, true);
                                }
                                std::clog.clear();
                                g.tag("saturated");
                            }
                        }
                        break;
                    }
                }
                // what a reference of maximal count entails is the warning alone
                if (g.oneIn(4)) {
                    check("in between");
                } else {
                    std::size_t total = 0;
                    for (std::size_t v = 0; v < nv; ++v) {
                        total += active(v);
                    }
                    maxActive = std::max(maxActive, total);
                }
            }
            check("at the end");
            collect(true);
            check("after a final collection");
            // every node on offer is a different one
            for (auto k = g.below(2 * ALLOC + 4); k > 0; --k) {
                take();
            }
            check("after taking nodes");
            std::ostringstream os;
            auto*              old = std::cout.rdbuf(os.rdbuf());
            t.print();
            t.printActive();
            std::cout.rdbuf(old);
            const auto  s = os.str();
            std::size_t n = 0;
            for (auto at = s.find("\t\t"); at != std::string::npos; at = s.find("\t\t", at + 1)) {
                ++n;
            }
            if (n != info.size()) {
                fail("the printed table shows ", n, " nodes, expected ", info.size());
            }
            if (s.find("#printActive: " + std::to_string(t.getActiveNodeCount()) + ",") == std::string::npos) {
                fail("the printed number of active nodes is wrong");
            }
            if (hits > 0 && collected && reused) {
                g.nontrivial();
            }
        }
    };
    template<class Node>
    void tables(Gen& g) {
        const std::size_t n = 1 + g.below(4);
        switch (g.below(3)) {
            case 0: Run<Node, 1, 2, 2, 8>(g, n).run(); break;
            case 1: Run<Node, 8, 3, 3, 12>(g, n).run(); break;
            default: Run<Node, 64, 16, 1, 20>(g, n).run(); break;
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C20",
                      "random histories of taking, filling, looking up, keeping and returning nodes, references taken and released (up to the maximal count), collections, resizing and clearing on unique tables of state, "
                      "matrix and density nodes with few buckets and tiny allocations, against a map of nodes; non-trivial: a known node was found, a collection removed nodes, and a removed node was handed out again",
                      {{"states", 1, tables<dd::vNode>}, {"matrices", 1, tables<dd::mNode>}, {"densities", 1, tables<dd::dNode>}}};
    return p;
}
