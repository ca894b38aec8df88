// C17: reference counts and garbage collection: what is referenced survives unchanged, everything else goes.
#include "inv.hpp"
using namespace rf;

namespace {
    struct World {
        std::unique_ptr<Pkg>                   pkg;
        int                                    n;
        std::vector<std::pair<dd::vEdge, Vec>> vs; // one entry per reference held
        std::vector<std::pair<dd::mEdge, Mat>> ms;

        void verifyContents(const std::string& when) {
            for (const auto& [e, v]: vs) {
                expectVec(readVec(e, n), v, tolFor(norm(v)), "a referenced vector changed ", when);
            }
            for (const auto& [e, m]: ms) {
                expectMat(readMat(e, n), m, tolFor(4 * maxAbs(m)), "a referenced matrix changed ", when);
            }
        }
        // reference counts are exactly those implied by the references held
        void verifyCounts(const std::string& when) {
            Live lv;
            Live all;
            for (const auto& x: vs) {
                lv.add(x.first);
            }
            for (const auto& [node, refs]: lv.nodes) {
                if (static_cast<const dd::vNode*>(node)->ref != refs) {
                    fail("vector node has reference count ", static_cast<const dd::vNode*>(node)->ref, ", but ", refs, " references exist ", when);
                }
            }
            Live lm;
            for (const auto& x: ms) {
                lm.add(x.first);
            }
            for (const auto& [node, refs]: lm.nodes) {
                if (static_cast<const dd::mNode*>(node)->ref != refs) {
                    fail("matrix node has reference count ", static_cast<const dd::mNode*>(node)->ref, ", but ", refs, " references exist ", when);
                }
            }
            std::map<const void*, std::size_t> numbers = lv.numbers;
            for (const auto& [k, c]: lm.numbers) {
                numbers[k] += c;
            }
            for (const auto& [k, c]: numbers) {
                const auto* en   = static_cast<const dd::CTEntry*>(k);
                const auto  base = en->value == 0.5 ? 1U : 0U; // the package itself holds one half
                if (en->refCount != c + base) {
                    fail("number ", en->value, " has reference count ", en->refCount, ", but ", c, " references exist ", when);
                }
            }
            if (pkg->vUniqueTable.getActiveNodeCount() != lv.nodes.size()) {
                fail("table reports ", pkg->vUniqueTable.getActiveNodeCount(), " active vector nodes, ", lv.nodes.size(), " are referenced ", when);
            }
            if (pkg->mUniqueTable.getActiveNodeCount() != lm.nodes.size()) {
                fail("table reports ", pkg->mUniqueTable.getActiveNodeCount(), " active matrix nodes, ", lm.nodes.size(), " are referenced ", when);
            }
            std::vector<std::size_t> perLevel(static_cast<std::size_t>(n), 0);
            for (const auto& x: lv.nodes) {
                ++perLevel[static_cast<std::size_t>(static_cast<const dd::vNode*>(x.first)->v)];
            }
            for (int q = 0; q < n; ++q) {
                if (pkg->vUniqueTable.getActiveNodeCount(static_cast<dd::Qubit>(q)) != perLevel[static_cast<std::size_t>(q)]) {
                    fail("table reports ", pkg->vUniqueTable.getActiveNodeCount(static_cast<dd::Qubit>(q)), " active vector nodes of qubit ", q, ", ", perLevel[static_cast<std::size_t>(q)], " are referenced ", when);
                }
            }
            auto& ct = pkg->cn.complexTable;
            (void)all;
            const auto av = storedNodes<dd::vNode>(*pkg);
            const auto am = storedNodes<dd::mNode>(*pkg);
            for (const auto& x: vs) {
                checkContained(av, x.first);
            }
            for (const auto& x: ms) {
                checkContained(am, x.first);
            }
            (void)ct;
        }
        // after a forced collection exactly the referenced nodes and numbers remain
        void verifyCollected() {
            Live lv;
            Live lm;
            for (const auto& x: vs) {
                lv.add(x.first);
            }
            for (const auto& x: ms) {
                lm.add(x.first);
            }
            if (pkg->vUniqueTable.getNodeCount() != lv.nodes.size()) {
                fail("after a forced collection ", pkg->vUniqueTable.getNodeCount(), " vector nodes remain, ", lv.nodes.size(), " are referenced");
            }
            if (pkg->mUniqueTable.getNodeCount() != lm.nodes.size()) {
                fail("after a forced collection ", pkg->mUniqueTable.getNodeCount(), " matrix nodes remain, ", lm.nodes.size(), " are referenced");
            }
            std::set<double> numbers{0.5};
            for (const auto* l: {&lv, &lm}) {
                for (const auto& x: l->numbers) {
                    numbers.insert(static_cast<const dd::CTEntry*>(x.first)->value);
                }
            }
            if (pkg->cn.complexTable.getCount() != numbers.size()) {
                fail("after a forced collection ", pkg->cn.complexTable.getCount(), " numbers remain, ", numbers.size(), " are in use");
            }
        }
    };

    void history(Gen& g) {
        World w;
        w.n   = g.irange(1, 4);
        w.pkg = makePkg(w.n);
        auto& p = *w.pkg;
        // results not referenced yet: may be used until the next collection
        std::vector<std::pair<dd::vEdge, Vec>> fv;
        std::vector<std::pair<dd::mEdge, Mat>> fm;
        const auto steps     = 3 + g.irange(0, 20);
        bool       collected = false;
        for (int s = 0; s < steps; ++s) {
            auto pickV = [&]() -> std::pair<dd::vEdge, Vec> {
                const auto k = w.vs.size() + fv.size();
                if (k == 0) {
                    const auto e = p.makeZeroState(static_cast<dd::QubitCount>(w.n));
                    fv.emplace_back(e, readVec(e, w.n));
                    return fv.back();
                }
                const auto i = g.below(k);
                return i < w.vs.size() ? w.vs[i] : fv[i - w.vs.size()];
            };
            auto pickM = [&]() -> std::pair<dd::mEdge, Mat> {
                const auto k = w.ms.size() + fm.size();
                if (k == 0) {
                    const auto e = gateDD(p, genGate(g, w.n), w.n);
                    fm.emplace_back(e, readMat(e, w.n));
                    return fm.back();
                }
                const auto i = g.below(k);
                return i < w.ms.size() ? w.ms[i] : fm[i - w.ms.size()];
            };
            auto putV = [&](const dd::vEdge& e, const Vec& want) {
                expectVec(readVec(e, w.n), want, tolFor(16 * (1 + norm(want))), "result of step ", s);
                if (norm(want) < 1e3) {
                    fv.emplace_back(e, readVec(e, w.n));
                }
            };
            auto putM = [&](const dd::mEdge& e, const Mat& want) {
                expectMat(readMat(e, w.n), want, tolFor(64 * (1 + maxAbs(want))), "result of step ", s);
                if (maxAbs(want) < 1e3) {
                    fm.emplace_back(e, readMat(e, w.n));
                }
            };
            const auto k = g.below(16);
            g.note("step ", s, ": op ", k, " (", w.vs.size(), " vectors and ", w.ms.size(), " matrices referenced)");
            switch (k) {
                case 0: {
                    const auto v = genVec(g, w.n, false);
                    g.note(str(v));
                    const auto e = vecDD(p, v);
                    putV(e, v);
                    break;
                }
                case 1: {
                    const auto m = genMat(g, w.n, false);
                    const auto e = matDD(p, m);
                    putM(e, m);
                    break;
                }
                case 2: {
                    const auto x = genGate(g, w.n);
                    putM(gateDD(p, x, w.n), matOf(x, w.n));
                    break;
                }
                case 3: {
                    const auto m = pickM();
                    const auto v = pickV();
                    putV(p.multiply(m.first, v.first), mul(m.second, v.second));
                    break;
                }
                case 4: {
                    const auto a = pickV();
                    const auto b = pickV();
                    putV(p.add(a.first, b.first), add(a.second, b.second));
                    break;
                }
                case 5: {
                    const auto a = pickM();
                    const auto b = pickM();
                    putM(p.multiply(a.first, b.first), mul(a.second, b.second));
                    break;
                }
                case 6: {
                    const auto a = pickM();
                    putM(g.flip() ? p.conjugateTranspose(p.transpose(a.first)) : p.conjugateTranspose(p.transpose(a.first)), [&] {
                        auto r = a.second;
                        for (auto& c: r.a) {
                            c = std::conj(c);
                        }
                        return r;
                    }());
                    break;
                }
                case 7:
                case 8: { // reference a vector (perhaps again)
                    const auto v = pickV();
                    p.incRef(v.first);
                    w.vs.push_back(v);
                    break;
                }
                case 9: {
                    const auto m = pickM();
                    p.incRef(m.first);
                    w.ms.push_back(m);
                    break;
                }
                case 10:
                case 11: {
                    if (!w.vs.empty()) {
                        const auto i = g.below(w.vs.size());
                        p.decRef(w.vs[i].first);
                        w.vs.erase(w.vs.begin() + static_cast<long>(i));
                    }
                    break;
                }
                case 12: {
                    if (!w.ms.empty()) {
                        const auto i = g.below(w.ms.size());
                        p.decRef(w.ms[i].first);
                        w.ms.erase(w.ms.begin() + static_cast<long>(i));
                    }
                    break;
                }
                case 13: { // not forced: nothing may be lost, far below the limit nothing happens
                    const bool need = p.cn.complexTable.possiblyNeedsCollection();
                    if (p.garbageCollect() && !need) {
                        fail("an unforced collection far below the limits collected something");
                    }
                    break;
                }
                default: {
                    const auto before = p.vUniqueTable.getNodeCount() + p.mUniqueTable.getNodeCount();
                    const auto nums   = p.cn.complexTable.getCount();
                    bool       r      = true;
                    if (g.oneIn(50)) {
                        g.tag("collection because of numbers");
                        collectByNumbers(p, false);
                    } else {
                        r = p.garbageCollect(true);
                        if (r && p.vUniqueTable.getNodeCount() + p.mUniqueTable.getNodeCount() == before && p.cn.complexTable.getCount() == nums) {
                            fail("a collection that removed nothing reports success");
                        }
                    }
                    const auto after  = p.vUniqueTable.getNodeCount() + p.mUniqueTable.getNodeCount();
                    if (after < before && !r) {
                        fail("a collection that removed ", before - after, " nodes reports that nothing was collected");
                    }
                    if (!w.vs.empty() || !w.ms.empty()) {
                        collected = collected || after < before;
                    }
                    fv.clear();
                    fm.clear();
                    w.verifyContents("by a collection");
                    w.verifyCollected();
                    break;
                }
            }
            if (g.oneIn(4)) {
                w.verifyCounts("after step " + std::to_string(s));
            }
        }
        w.verifyContents("at the end");
        w.verifyCounts("at the end");
        p.garbageCollect(true);
        w.verifyContents("by the final collection");
        w.verifyCollected();
        while (!w.vs.empty()) {
            p.decRef(w.vs.back().first);
            w.vs.pop_back();
        }
        while (!w.ms.empty()) {
            p.decRef(w.ms.back().first);
            w.ms.pop_back();
        }
        w.verifyCounts("after releasing everything");
        p.garbageCollect(true);
        w.verifyCollected();
        if (collected) {
            g.nontrivial();
        }
    }

    // releasing what is not referenced is reported
    void underflow(Gen& g) {
        const int  n   = g.irange(1, 3);
        auto       pkg = makePkg(n);
        const auto v   = genState(g, n);
        const auto e   = vecDD(*pkg, v);
        const auto k   = g.irange(0, 2);
        for (int i = 0; i < k; ++i) {
            pkg->incRef(e);
        }
        for (int i = 0; i < k; ++i) {
            pkg->decRef(e);
        }
        bool thrown = false;
        try {
            pkg->decRef(e);
        } catch (const std::runtime_error&) {
            thrown = true;
        }
        if (!thrown) {
            fail("releasing an unreferenced state is not reported");
        }
        g.nontrivial();
    }

#ifndef PBT_TINY
    // automatic collection: tables beyond their limit are collected, referenced states survive
    void automatic(Gen& g) {
        const int n = 14;
        World     w;
        w.n   = n;
        w.pkg = makePkg(n);
        auto& p = *w.pkg;
        std::uint64_t seed = g.below(1ULL << 40U);
        for (int k = 0; k < 2; ++k) {
            Vec v(1ULL << n);
            for (auto& c: v) {
                c = C{static_cast<double>(pb::splitmix(seed) >> 11U) / 9007199254740992.0, 0.25};
            }
            const auto e = vecDD(p, v);
            p.incRef(e);
            w.vs.emplace_back(e, v);
        }
        bool collected = false;
        for (int k = 0; k < 20 && !collected; ++k) {
            Vec v(1ULL << n);
            for (auto& c: v) {
                c = C{static_cast<double>(pb::splitmix(seed) >> 11U) / 9007199254740992.0, 0.125};
            }
            vecDD(p, v);
            const auto total = p.vUniqueTable.getNodeCount();
            collected        = p.garbageCollect();
            if (collected && p.vUniqueTable.getNodeCount() >= total) {
                fail("an automatic collection reports success but removed no vector node");
            }
        }
        if (!collected) {
            fail("the tables grow beyond 300000 unreferenced nodes without ever being collected");
        }
        w.verifyContents("by an automatic collection");
        g.nontrivial();
    }
#endif
} // namespace

pb::Property& pb::property() {
    static Property p{"C17",
                      "random histories of 3-23 operations over vectors and matrices of 1-4 qubits with references taken, released and collections forced; reference counts, table contents and values against the set of references held; "
                      "automatic collection of 14-qubit vectors; non-trivial: a collection removed nodes while others were referenced",
                      {{"history", 600, history}, {"underflow", 20, underflow}
#ifndef PBT_TINY
                       ,
                       {"automatic", 1, automatic}
#endif
                      }};
    return p;
}
