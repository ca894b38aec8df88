// C15: every decision diagram handed out is normalised, reduced, ordered, and stored.
#include "inv.hpp"
#include "dd/Export.hpp"

#include <sstream>
using namespace rf;

namespace {
    // scale of intermediate results stays moderate, so that the number table's absolute tolerance is meaningful
    Vec genV(Gen& g, int n) { return g.oneIn(4) ? genVec(g, n, true) : genVec(g, n, false); }
    void history(Gen& g) {
        const int              n   = anySize(g, 1, 4, 6);
        auto                   pkg = makePkg(n + 1);
        auto&                  p   = *pkg;
        std::vector<dd::vEdge> vs;
        std::vector<dd::mEdge> ms;
        // set to false once entries occur that are so small that tolerances distort the normalisation
        const auto             id = p.makeIdent(static_cast<dd::QubitCount>(n));
        p.incRef(id);
        ms.push_back(id);
        auto e0 = p.makeZeroState(static_cast<dd::QubitCount>(n));
        p.incRef(e0);
        vs.push_back(e0);
        const auto steps = 2 + g.irange(0, 12);
        int        ops   = 0;
        bool       boundedV = true;
        auto       keepV    = [&](const dd::vEdge& e) {
            for (const auto& c: readVec(e, n)) {
                boundedV = boundedV && (c == C{} || std::abs(c) > 1e-8);
            }
            p.incRef(e);
            vs.push_back(e);
        };
        bool bounded = true;
        auto keepM = [&](const dd::mEdge& e) {
            for (const auto& c: readMat(e, n).a) {
                bounded = bounded && (c == C{} || std::abs(c) > 1e-8);
            }
            p.incRef(e);
            ms.push_back(e);
        };
        for (int s = 0; s < steps; ++s) {
            const auto a = g.below(vs.size());
            const auto b = g.below(vs.size());
            const auto x = g.below(ms.size());
            const auto y = g.below(ms.size());
            const auto k = g.below(12);
            g.note("step ", s, " op ", k, " v", a, " v", b, " M", x, " M", y);
            ++ops;
            switch (k) {
                case 0: {
                    const auto v = genV(g, n);
                    g.note(str(v));
                    keepV(vecDD(p, v));
                    break;
                }
                case 1: {
                    const auto m = genMat(g, n, g.oneIn(4));
                    g.note(str(m));
                    keepM(matDD(p, m));
                    break;
                }
                case 2: {
                    const auto gt = genGate(g, n);
                    g.note(str(gt));
                    keepM(gateDD(p, gt, n));
                    break;
                }
                case 3: keepV(p.add(vs[a], vs[b])); break;
                case 4: keepM(p.add(ms[x], ms[y])); break;
                case 5: keepV(p.multiply(ms[x], vs[a])); break;
                case 6: keepM(p.multiply(ms[x], ms[y])); break;
                case 7: keepM(p.transpose(ms[x])); break;
                case 8: keepM(p.conjugateTranspose(ms[x])); break;
                case 9: {
                    if (vs.size() > 1) {
                        p.decRef(vs[a]);
                        vs.erase(vs.begin() + static_cast<long>(a));
                    }
                    break;
                }
                case 10: p.garbageCollect(true); break;
                default: {
                    std::vector<bool> el(static_cast<std::size_t>(n));
                    const int         q = g.irange(0, n - 1);
                    for (int i = 0; i < n; ++i) {
                        el[static_cast<std::size_t>(i)] = i == q;
                    }
                    if (n > 1 && !ms[x].isTerminal()) {
                        checkMatrix(p, p.partialTrace(ms[x], el), false);
                    }
                    break;
                }
            }
            // keep the magnitudes moderate
            if (!vs.empty() && (std::abs(val(vs.back().w)) > 1e4)) {
                p.decRef(vs.back());
                vs.pop_back();
                if (vs.empty()) {
                    keepV(p.makeZeroState(static_cast<dd::QubitCount>(n)));
                }
            }
            if (std::abs(val(ms.back().w)) > 1e4) {
                p.decRef(ms.back());
                ms.pop_back();
            }
            if (g.oneIn(3) || s + 1 == steps) {
                const auto av = storedNodes<dd::vNode>(p);
                const auto am = storedNodes<dd::mNode>(p);
                for (const auto& e: vs) {
                    checkVector(p, e, boundedV);
                    checkContained(av, e);
                }
                for (const auto& e: ms) {
                    checkMatrix(p, e, bounded);
                    checkContained(am, e);
                }
                if (p.cn.cacheCount() != 0) {
                    fail("after operation ", k, ", ", p.cn.cacheCount(), " temporary numbers are still in use");
                }
            }
        }
        if (ops > 3) {
            g.nontrivial();
        }
    }
    // products and parts of diagrams so small that results vanish
    void vanishing(Gen& g) {
        const int  n   = anySize(g, 1, 3, 5);
        auto       pkg = makePkg(std::max(6, 2 * n));
        auto&      p   = *pkg;
        const auto small = [&]() { return std::pow(10., -g.irange(0, 13)) * g.pick({1., 0.5, 3., 1.5}); };
        const auto any   = [&]() { return std::pow(10., g.irange(-13, 3)) * g.pick({1., 0.5, 3., 1.5}); };
        const auto vec   = [&]() {
            auto v = genVec(g, n, false);
            for (auto& x: v) {
                x *= g.oneIn(3) ? small() : 1.;
            }
            v = scale(v, C{any()});
            if (g.oneIn(3)) { // one part vanishes next to the other
                const auto big  = g.irange(0, 4);
                const auto half = 1ULL << g.irange(0, n - 1);
                for (std::size_t i = 0; i < v.size(); ++i) {
                    v[i] = g.oneIn(4) ? C{} : C{g.pick({1., 0.5, 3., 1.5}) * std::pow(10., (i & half) != 0 ? big : big - g.irange(11, 15)), 0.};
                }
                g.tag("successors of very different weight");
            }
            g.note(str(v));
            return vecDD(p, v);
        };
        const auto mat = [&]() {
            auto m = g.oneIn(4) ? Mat::ident(1ULL << n) : genMat(g, n, false);
            for (auto& x: m.a) {
                x *= g.oneIn(3) ? small() : 1.;
            }
            m = scale(m, C{any()});
            g.note(str(m));
            return matDD(p, m);
        };
        const auto flags = [&]() {
            std::vector<bool> f;
            for (int i = 0; i < n; ++i) {
                f.push_back(g.flip());
            }
            return f;
        };
        std::vector<dd::vEdge> vs{vec(), vec()};
        std::vector<dd::mEdge> ms{mat(), mat()};
        for (auto& e: vs) {
            p.incRef(e);
        }
        for (auto& e: ms) {
            p.incRef(e);
        }
        const auto checkV = [&](const dd::vEdge& e) {
            checkVector(p, e, false);
            if (e.w == dd::Complex::zero) {
                g.tag("vanished");
                g.nontrivial();
            }
        };
        const auto checkM = [&](const dd::mEdge& e) {
            checkMatrix(p, e, false);
            if (e.w == dd::Complex::zero) {
                g.tag("vanished");
                g.nontrivial();
            }
        };
        for (int k = g.irange(1, 5); k > 0; --k) {
            const auto& x = g.pick(vs);
            const auto& y = g.pick(vs);
            const auto& a = g.pick(ms);
            const auto& b = g.pick(ms);
            const auto  q = static_cast<dd::Qubit>(g.irange(0, n - 1));
            const auto  o = g.below(14);
            g.note("operation ", o);
            switch (o) {
                case 0: checkV(p.add(x, y)); break;
                case 1: checkM(p.add(a, b)); break;
                case 2: checkV(p.multiply(a, x)); break;
                case 3: checkM(p.multiply(a, b)); break;
                case 4: checkM(p.transpose(a)); break;
                case 5: checkM(p.conjugateTranspose(a)); break;
                case 6:
                    if (!x.isTerminal() && !y.isTerminal()) {
                        checkV(p.kronecker(x, y));
                    }
                    break;
                case 7:
                    if (!a.isTerminal() && !b.isTerminal()) {
                        checkM(p.kronecker(a, b));
                    }
                    break;
                case 8: checkV(p.deleteEdge(x, q, g.below(2))); break;
                case 9: checkM(p.deleteEdge(a, q, g.below(4))); break;
                case 10: {
                    auto f = flags();
                    if (!a.isTerminal()) {
                        checkM(p.partialTrace(a, f));
                    }
                    break;
                }
                case 11: { // to another package
                    auto there = makePkg(n);
                    if (g.flip()) {
                        auto e = x;
                        checkVector(*there, there->transfer(e), false);
                    } else {
                        auto e = a;
                        checkMatrix(*there, there->transfer(e), false);
                    }
                    break;
                }
                case 12: { // through a file
                    auto              there  = makePkg(n);
                    const bool        binary = g.flip();
                    std::stringstream file;
                    if (x.isTerminal() || a.isTerminal()) {
                        break;
                    }
                    if (g.flip()) {
                        dd::serialize(x, file, binary);
                        checkVector(*there, there->deserialize<dd::vNode>(file, binary), false);
                    } else {
                        dd::serialize(a, file, binary);
                        checkMatrix(*there, there->deserialize<dd::mNode>(file, binary), false);
                    }
                    break;
                }
                default: {
                    const auto f = flags();
                    if (g.flip()) {
                        auto e = x;
                        p.incRef(e);
                        e = p.reduceGarbage(e, f);
                        checkV(e);
                        p.decRef(e);
                    } else {
                        auto e = a;
                        p.incRef(e);
                        e = g.flip() ? p.reduceGarbage(e, f, g.flip()) : p.reduceAncillae(e, f, g.flip());
                        checkM(e);
                        p.decRef(e);
                    }
                }
            }
            if (p.cn.cacheCount() != 0) {
                fail("operation ", o, " keeps ", p.cn.cacheCount(), " temporary numbers");
            }
        }
        const auto av = storedNodes<dd::vNode>(p);
        const auto am = storedNodes<dd::mNode>(p);
        for (const auto& e: vs) {
            checkVector(p, e, false);
            checkContained(av, e);
        }
        for (const auto& e: ms) {
            checkMatrix(p, e, false);
            checkContained(am, e);
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C15",
                      "random histories of 2-14 constructions, sums, products, transposes, partial traces, releases and forced collections on 1-4 qubits; all referenced diagrams and both unique tables are inspected; "
                      "operations on diagrams so small that results vanish; non-trivial: at least four operations, or a result vanished",
                      {{"history", 2, history}, {"vanishing", 1, vanishing}}};
    return p;
}
