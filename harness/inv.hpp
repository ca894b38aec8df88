// Structural invariants of decision diagrams and reference counts, checked from the outside.
#pragma once
#include "ref.hpp"

#include <map>
#include <set>

namespace rf {
    template<class E, class F>
    void forNodes(const E& root, std::set<const void*>& seen, F f) {
        if (root.p == nullptr || root.isTerminal() || !seen.insert(root.p).second) {
            return;
        }
        f(root.p);
        for (const auto& c: root.p->e) {
            forNodes(c, seen, f);
        }
    }
    inline void checkWeight(const dd::Complex& w, const char* what) {
        const auto c = val(w);
        if (!std::isfinite(c.real()) || !std::isfinite(c.imag())) {
            fail(what, " is ", c);
        }
        for (const auto* p: {w.r, w.i}) {
            const auto* a = dd::CTEntry::getAlignedPointer(p);
            if (!(a->value >= 0.)) {
                fail(what, ": number table entry holds ", a->value);
            }
            if (p != a && a == &dd::ComplexTable<>::zero) {
                fail(what, ": negative zero");
            }
        }
    }
    // the weight is the very entry a lookup of its value returns
    template<class DD>
    void checkStored(DD& pkg, const dd::Complex& w, const char* what) {
        checkWeight(w, what);
        const auto l = pkg.cn.lookup(val(w).real(), val(w).imag());
        if (l.r != w.r || l.i != w.i) {
            fail(what, " ", val(w), " is not the number table's entry for that value");
        }
    }
    // a result that vanishes is the terminal
    template<class E>
    void checkRoot(const E& root) {
        if (root.p == nullptr) {
            fail("null result");
        }
        if (val(root.w) == C{} && !root.isTerminal()) {
            fail("root edge with weight zero does not point to the terminal");
        }
    }
    // vector nodes: children one level below or zero terminals; norm one; first largest weight real and positive
    template<class DD>
    void checkVector(DD& pkg, const dd::vEdge& root, bool bounded = true) {
        std::set<const void*> seen;
        checkRoot(root);
        checkStored(pkg, root.w, "root weight");
        forNodes(root, seen, [&](const dd::vNode* p) {
            double s = 0;
            for (const auto& c: p->e) {
                checkStored(pkg, c.w, "edge weight");
                if (c.p == nullptr) {
                    fail("null successor");
                }
                if (val(c.w) == C{}) {
                    if (!c.isTerminal()) {
                        fail("edge with weight zero does not point to the terminal");
                    }
                } else if (p->v > 0 ? (c.isTerminal() || c.p->v != p->v - 1) : !c.isTerminal()) {
                    fail("successor of a node of qubit ", static_cast<int>(p->v), " is on level ", static_cast<int>(c.p->v));
                }
                s += std::norm(val(c.w));
            }
            if (!bounded) {
                return;
            }
            if (!(std::abs(s - 1.) < 1e-10)) {
                fail("squared weights of a vector node add up to ", s);
            }
            const double m0 = std::norm(val(p->e[0].w));
            const double m1 = std::norm(val(p->e[1].w));
            if (std::abs(m0 - m1) > 1e-11) {
                const auto big = val(p->e[m0 > m1 ? 0 : 1].w);
                if (big.imag() != 0. || !(big.real() > 0.)) {
                    fail("larger weight of a vector node is ", big);
                }
            }
        });
    }
    // `bounded`: no computation so far involved entries so small that their squares drown in the tolerance
    template<class DD>
    void checkMatrix(DD& pkg, const dd::mEdge& root, bool bounded = true) {
        std::set<const void*> seen;
        checkRoot(root);
        checkStored(pkg, root.w, "root weight");
        forNodes(root, seen, [&](const dd::mNode* p) {
            double mx = 0;
            for (const auto& c: p->e) {
                checkStored(pkg, c.w, "edge weight");
                if (c.p == nullptr) {
                    fail("null successor");
                }
                if (val(c.w) == C{}) {
                    if (!c.isTerminal()) {
                        fail("edge with weight zero does not point to the terminal");
                    }
                } else if (p->v > 0 ? (c.isTerminal() || c.p->v != p->v - 1) : !c.isTerminal()) {
                    fail("successor of a node of qubit ", static_cast<int>(p->v), " is on level ", static_cast<int>(c.p->v));
                }
                mx = std::max(mx, std::abs(val(c.w)));
            }
            bool one = false;
            for (const auto& c: p->e) {
                one = one || val(c.w) == C{1., 0.};
            }
            if (!one || (bounded && !(mx <= 1. + 1e-3))) {
                fail("largest weight of a matrix node is ", mx, one ? "" : ", and none is exactly one");
            }
        });
    }
    // all nodes of a table: every node is on the level it is stored under, no two nodes have the same successors, and the
    // number of nodes is what the table reports
    template<class Node, class DD>
    std::set<const void*> storedNodes(DD& pkg) {
        std::set<const void*> all;
        auto&                 ut    = pkg.template getUniqueTable<Node>();
        std::size_t           level = 0;
        for (const auto& table: ut.getTables()) {
            std::set<std::vector<const void*>> keys;
            for (const auto* p: table) {
                for (; p != nullptr; p = p->next) {
                    if (!all.insert(p).second) {
                        fail("a node is stored twice");
                    }
                    if (static_cast<std::size_t>(p->v) != level) {
                        fail("node of qubit ", static_cast<int>(p->v), " stored on level ", level);
                    }
                    std::vector<const void*> k;
                    for (const auto& c: p->e) {
                        k.push_back(c.p);
                        k.push_back(c.w.r);
                        k.push_back(c.w.i);
                    }
                    // density nodes are conjugated in place while they are operands, and are not found meanwhile
                    if (!std::is_same_v<Node, dd::dNode> && !keys.insert(k).second) {
                        fail("two nodes of qubit ", level, " have the same successors and weights");
                    }
                }
            }
            ++level;
        }
        if (all.size() != ut.getNodeCount()) {
            fail("the table reports ", ut.getNodeCount(), " nodes but holds ", all.size());
        }
        return all;
    }
    template<class E>
    void checkContained(const std::set<const void*>& all, const E& root) {
        std::set<const void*> seen;
        forNodes(root, seen, [&](const auto* p) {
            if (all.count(p) == 0) {
                fail("a node in use (qubit ", static_cast<int>(p->v), ") is missing from the unique table");
            }
        });
    }
    // ---- what has to be alive, given the referenced edges ------------------------------------------------------------
    struct Live {
        std::map<const void*, std::size_t> nodes;   // node -> references
        std::map<const void*, std::size_t> numbers; // number table entry -> references
        void number(const dd::Complex& w) {
            if (w == dd::Complex::zero || w == dd::Complex::one) {
                return;
            }
            for (const auto* p: {w.r, w.i}) {
                const auto* a = dd::CTEntry::getAlignedPointer(p);
                if (a != &dd::ComplexTable<>::zero && a != &dd::ComplexTable<>::one && a != &dd::ComplexTable<>::sqrt2_2) {
                    ++numbers[a];
                }
            }
        }
        template<class E>
        void add(const E& e) {
            number(e.w);
            if (e.p == nullptr || e.isTerminal()) {
                return;
            }
            if (nodes[e.p]++ == 0) {
                for (const auto& c: e.p->e) {
                    add(c);
                }
            }
        }
    };

    // whatever is stored in the unique tables (after a collection) is made of stored numbers
    template<class P>
    void checkNumbersStored(P& p) {
        std::set<const void*> all{&dd::ComplexTable<>::zero, &dd::ComplexTable<>::one, &dd::ComplexTable<>::sqrt2_2};
        for (const auto* e: p.cn.complexTable.getTable()) {
            for (; e != nullptr; e = e->next) {
                all.insert(e);
            }
        }
        const auto check = [&](const auto& ut, const char* kind) {
            for (const auto& table: ut.getTables()) {
                for (const auto* q: table) {
                    for (; q != nullptr; q = q->next) {
                        for (const auto& c: q->e) {
                            for (const auto* w: {c.w.r, c.w.i}) {
                                if (all.count(dd::CTEntry::getAlignedPointer(w)) == 0) {
                                    fail("a stored ", kind, " node of qubit ", static_cast<int>(q->v), " has a number that has been collected");
                                }
                            }
                        }
                    }
                }
            }
        };
        check(p.vUniqueTable, "vector");
        check(p.mUniqueTable, "matrix");
        check(p.dUniqueTable, "density matrix");
    }
    // the diagram consists of nodes that are stored in the unique table
    template<class P, class Node>
    void checkNodesStored(P& p, const dd::Edge<Node>& root, const char* what) {
        const auto&           ut = p.template getUniqueTable<Node>();
        std::set<const void*> seen;
        forNodes(root, seen, [&](const Node* n) {
            const auto& table = ut.getTables().at(static_cast<std::size_t>(n->v));
            for (const auto* q = table[std::decay_t<decltype(ut)>::hash(n)]; q != nullptr; q = q->next) {
                if (q == n) {
                    return;
                }
            }
            for (const auto* q: table) { // (wherever it is)
                for (; q != nullptr; q = q->next) {
                    if (q == n) {
                        return;
                    }
                }
            }
            fail(what, ": a node of qubit ", static_cast<int>(n->v), " in the result is not stored");
        });
    }

    // looks up numbers nobody refers to until the table of numbers asks for a collection, then collects without force
    template<class P>
    void collectByNumbers(P& p, bool reuse = true) {
        double x = 0.3125003;
        for (int k = 0; k < 400000 && !p.cn.complexTable.possiblyNeedsCollection(); ++k) {
            x += 2.3e-6;
            p.cn.lookup(x, -x / 2.);
        }
        const auto before = p.cn.complexTable.getCount();
        if (!p.garbageCollect()) {
            fail("a table of ", before, " numbers, hardly any of them referenced, is not collected");
        }
        if (p.cn.complexTable.getCount() >= before) {
            fail("a collection for lack of space in the table of numbers removed none of ", before);
        }
        checkNumbersStored(p);
        if (reuse) { // give the removed entries to other numbers
            double y = 0.7123457;
            for (auto k = before; k > p.cn.complexTable.getCount() && !p.cn.complexTable.possiblyNeedsCollection(); k -= 2) {
                y += 3.1e-6;
                p.cn.lookup(y, -y / 3.);
            }
        }
    }

    // lowers the limit at which the table of numbers asks for a collection (forced collections of a nearly empty table halve it)
    template<class P>
    void lowerCollectionLimit(P& p) {
        for (int k = 0; k < 8; ++k) {
            p.cn.lookup(0.3125 + 0.01 * k, 0.1);
            p.garbageCollect(true);
        }
    }
    // the next unforced collection takes place, for want of space in the table of numbers
    template<class P>
    void makeCollectionDue(P& p) {
        double x = 0.2500007;
        for (int k = 0; k < 400000 && !p.cn.complexTable.possiblyNeedsCollection(); ++k) {
            x += 3.7e-6;
            p.cn.lookup(x, -x / 3.);
        }
    }
} // namespace rf
