// C42: memory handed out is in use or available again, at any point of any program.
#ifndef PBT_TINY
#define PBT_TINY
#endif
#include "extras.hpp"

#include <set>
using namespace rf;

namespace {
    // nodes: stored or available, never both, none missing
    template<class Node, class Table>
    void accountNodes(Pkg& p, Table& t, const char* what, const std::string& when) {
        const auto total  = t.getAllocations();
        const auto stored = t.getNodeCount();
        if (stored > total) {
            fail(stored, " ", what, " nodes are stored, but only ", total, " were allocated ", when);
        }
        const auto            all = storedNodes<Node>(p);
        std::set<const Node*> seen;
        for (const auto* s: all) {
            seen.insert(static_cast<const Node*>(s));
        }
        if (seen.size() != stored) {
            fail(seen.size(), " ", what, " nodes are stored, ", stored, " are counted ", when);
        }
        std::vector<Node*> taken;
        for (std::size_t k = stored; k < total; ++k) {
            auto* node = t.getNode();
            if (t.getAllocations() != total) {
                fail(total - k, " of ", total, " ", what, " nodes are neither stored nor available ", when);
            }
            if (!seen.insert(node).second) {
                fail("a ", what, " node is available although it is stored, or twice ", when);
            }
            if (node->ref != 0) {
                fail("a new ", what, " node has the reference count ", node->ref, " ", when);
            }
            taken.push_back(node);
        }
        for (auto it = taken.rbegin(); it != taken.rend(); ++it) {
            t.returnNode(*it);
        }
    }
    void accountNumbers(Pkg& p, const std::string& when) {
        auto&      t      = p.cn.complexTable;
        const auto total  = t.getAllocations();
        const auto stored = t.getCount();
        if (stored > total) {
            fail(stored, " numbers are stored, but only ", total, " were allocated ", when);
        }
        std::set<const void*> seen;
        for (const auto& bucket: t.getTable()) {
            for (const auto* e = bucket; e != nullptr; e = e->next) {
                if (!seen.insert(e).second) {
                    fail("a number is stored twice ", when);
                }
            }
        }
        if (seen.size() != stored) {
            fail(seen.size(), " numbers are stored, ", stored, " are counted ", when);
        }
        std::vector<dd::CTEntry*> taken;
        for (std::size_t k = stored; k < total; ++k) {
            auto* e = t.getEntry();
            if (t.getAllocations() != total) {
                fail(total - k, " of ", total, " numbers are neither stored nor available ", when);
            }
            if (!seen.insert(e).second) {
                fail("a number is available although it is stored, or twice ", when);
            }
            taken.push_back(e);
        }
        for (auto it = taken.rbegin(); it != taken.rend(); ++it) {
            t.returnEntry(*it);
        }
    }
    void accountCache(Pkg& p, const std::string& when) {
        auto&      c     = p.cn.complexCache;
        const auto total = c.getAllocations();
        if (c.getCount() != 0) {
            fail(c.getCount(), " cached numbers are in use ", when);
        }
        std::set<const void*>    seen;
        std::vector<dd::Complex> taken;
        for (std::size_t k = 0; k + 1 < total; k += 2) {
            auto x = c.getCachedComplex();
            if (c.getAllocations() != total) {
                fail(total - k, " of ", total, " cached numbers are neither in use nor available ", when);
            }
            if (!seen.insert(x.r).second || !seen.insert(x.i).second) {
                fail("a cached number is available twice ", when);
            }
            taken.push_back(x);
        }
        for (auto it = taken.rbegin(); it != taken.rend(); ++it) {
            c.returnToCache(*it);
        }
    }
    void account(Pkg& p, const std::string& when, bool all) {
        accountNodes<dd::vNode>(p, p.vUniqueTable, "vector", when);
        accountNodes<dd::mNode>(p, p.mUniqueTable, "matrix", when);
        accountNodes<dd::dNode>(p, p.dUniqueTable, "density matrix", when);
        accountCache(p, when);
        if (all) {
            accountNumbers(p, when);
        }
    }
    void programs(Gen& g) {
        const int  n      = g.irange(1, 3);
        auto       pkg    = makePkg(2 * n);
        auto&      p      = *pkg;
        const auto rounds = g.irange(1, 4);
        const bool same   = g.flip();
        g.note(n, " qubits, ", rounds, " rounds");
        Extras           j{n, {}};
        std::vector<Op>  ops;
        std::vector<int> extras;
        std::size_t      results = 0;
        account(p, "at the beginning", true);
        for (int r = 0; r < rounds; ++r) {
            if (r == 0 || !same) {
                ops = genProgram(g, n, g.irange(2, 10));
                extras.clear();
                for (std::size_t s = 0; s < ops.size(); ++s) {
                    extras.push_back(g.flip() ? g.irange(0, 175) : -1);
                }
                j.noise.clear();
                for (int s = g.irange(0, 3); s > 0; --s) {
                    j.noise.push_back(genGate(g, n));
                }
                g.note("program: ", brief(ops));
            }
            Exec    x(p, n);
            Outcome o;
            for (std::size_t i = 0; i < ops.size(); ++i) {
                x.step(ops[i]);
                account(p, "after step " + std::to_string(i), false);
                if (extras[i] >= 0) {
                    extra(p, x, j, extras[i], o);
                    account(p, "after step " + std::to_string(i) + ", operation " + std::to_string(extras[i] % 22) + "/" + std::to_string(extras[i] / 22), false);
                    g.tag("operation " + std::to_string(extras[i] % 22));
                }
            }
            account(p, "at the end of a program", g.flip());
            results += x.out.size() + o.out.size();
            // the same in a package of its own
            if (g.oneIn(3)) {
                auto    fresh = makePkg(2 * n);
                Exec    y(*fresh, n);
                Outcome w;
                for (std::size_t i = 0; i < ops.size(); ++i) {
                    y.step(ops[i]);
                    if (extras[i] >= 0) {
                        extra(*fresh, y, j, extras[i], w);
                    }
                }
                sameResults(x.out, y.out, "a program in reused memory and in a new package");
                sameResults(o.out, w.out, "further operations in reused memory and in a new package");
            }
            x.release();
            account(p, "after releasing everything", true);
            if (p.dUniqueTable.getNodeCount() != 0) {
                fail(p.dUniqueTable.getNodeCount(), " density matrix nodes remain after releasing everything");
            }
        }
        if (results > 3) {
            g.nontrivial();
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C42",
                      "random programs, one after the other in a package with small chunks of memory, with all kinds of operations; after each operation the allocated nodes, numbers and cached numbers are taken one by one and compared with "
                      "what is stored; results are compared with a new package's; non-trivial: more than three results",
                      {{"programs", 1, programs}}};
    return p;
}
