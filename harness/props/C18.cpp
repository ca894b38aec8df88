// C18: operation caches are transparent: a result never depends on what was computed before.
#include "inv.hpp"
using namespace rf;

namespace {
    struct World {
        std::unique_ptr<Pkg>                   pkg;
        int                                    n;
        std::vector<std::pair<dd::vEdge, Vec>> vs;
        std::vector<std::pair<dd::mEdge, Mat>> ms;
    };
    // a few nodes, many edges to them that differ in the weight only
    template<class E>
    E rescale(Pkg& p, const E& e, C f) {
        const auto w = val(e.w) * f;
        auto       r = e;
        r.w          = p.cn.lookup(w);
        return r.w.exactlyZero() ? E::zero : r;
    }
    void history(Gen& g) {
        World w;
        w.n     = anySize(g, 1, 4, 6, 40);
        w.pkg   = makePkg(w.n + 3);
        auto& p = *w.pkg;
        auto  addV = [&](const dd::vEdge& e) {
            p.incRef(e);
            w.vs.emplace_back(e, readVec(e, w.n));
        };
        auto addM = [&](const dd::mEdge& e) {
            p.incRef(e);
            w.ms.emplace_back(e, readMat(e, w.n));
        };
        // plain: only entries 0, 1, -1, i, -i, so that collections remove nodes of one kind and no numbers
        const bool plain = g.oneIn(3);
        auto       monomial = [&] {
            const std::size_t dim  = 1ULL << w.n;
            const auto        mask = g.below(dim);
            const auto        bit  = g.below(static_cast<std::uint64_t>(w.n));
            Mat               m(dim);
            for (std::size_t i = 0; i < dim; ++i) {
                m(i, i ^ mask) = g.pick<C>({{1., 0.}, {1., 0.}, {-1., 0.}, {0., 1.}});
                if (((i >> bit) & 1U) != 0U && g.oneIn(4)) {
                    m(i, i ^ mask) = C{};
                }
            }
            return m;
        };
        if (plain) {
            g.note("entries of magnitude one only");
        }
        for (auto k = 1 + g.below(2); k > 0; --k) {
            Vec v(1ULL << w.n, C{});
            if (plain) {
                v[g.below(v.size())] = 1.;
            } else {
                v = genVec(g, w.n, false);
            }
            const auto m = plain ? monomial() : (g.flip() ? genMat(g, w.n, false) : genUnitary(g, w.n));
            g.note("v", w.vs.size(), " = ", str(v));
            g.note("M", w.ms.size(), " = ", str(m));
            addV(vecDD(p, v));
            addM(matDD(p, m));
        }
        // further operands of Kronecker products, which stay
        std::vector<std::pair<dd::vEdge, Vec>> us;
        std::vector<std::pair<dd::mEdge, Mat>> ums;
        auto                                   smallV = [&] {
            if (us.size() < 2 || g.oneIn(8)) {
                const int m = g.irange(1, 2);
                Vec       u(1ULL << m, C{});
                if (plain) {
                    u[g.below(u.size())] = 1.;
                } else {
                    u = genVec(g, m, false);
                }
                us.emplace_back(vecDD(p, u), u);
                p.incRef(us.back().first);
            }
            return g.pick(us);
        };
        auto smallM = [&] {
            if (ums.size() < 2 || g.oneIn(8)) {
                const int m = g.irange(1, 2);
                Mat       u = genMat(g, m, false);
                if (plain) {
                    const auto mask = g.below(u.n);
                    for (std::size_t i = 0; i < u.n; ++i) {
                        for (std::size_t j = 0; j < u.n; ++j) {
                            u(i, j) = (i ^ mask) == j ? g.pick<C>({{1., 0.}, {-1., 0.}}) : C{};
                        }
                    }
                }
                ums.emplace_back(matDD(p, u), u);
                p.incRef(ums.back().first);
            }
            return g.pick(ums);
        };
        const auto steps = 4 + g.below(24);
        int        warm  = 0;
        std::set<std::tuple<std::uint64_t, std::size_t, std::size_t>> done;
        auto collect = [&] {
            if (g.oneIn(20)) {
                g.tag("collection because of numbers");
                collectByNumbers(p);
            } else {
                p.garbageCollect(true);
            }
        };
        const bool pressed = g.oneIn(10); // unforced collections become due
        if (pressed) {
            g.tag("collections due");
            lowerCollectionLimit(p);
        }
        for (std::uint64_t s = 0; s < steps; ++s) {
            if (pressed && g.flip()) {
                makeCollectionDue(p);
            }
            const auto i  = g.below(w.vs.size());
            const auto j  = g.below(w.vs.size());
            const auto a  = g.below(w.ms.size());
            const auto b  = g.below(w.ms.size());
            auto       x  = w.vs[i];
            auto       y  = w.vs[j];
            auto       A  = w.ms[a];
            auto       B  = w.ms[b];
            // (in plain mode no sums, no fractions)
            const auto op = plain ? g.weighted({5, 0, 1, 2, 0, 1, 1, 3, 2, 1, 0, 0, 2, 0, 0, 6}) : g.weighted({3, 3, 3, 3, 2, 2, 2, 1, 1, 1, 1, 1, 1, 3, 1, 1});
            g.note("step ", s, ": op ", op, " on v", i, " v", j, " M", a, " M", b);
            // every operation: as the history left the caches, once more, with empty caches, and against the dense model
            auto vec = [&](auto f, const Vec& want, const char* name, int n) {
                const auto tol = tolFor(64 * (1 + maxAbs(want)));
                const auto r1  = f();
                const auto v1  = readVec(r1, n);
                expectVec(v1, want, tol, name);
                const auto r2 = f();
                if (r2.p != r1.p || std::abs(val(r1.w) - val(r2.w)) > tol) {
                    fail(name, ": repeating the operation gave another result");
                }
                checkNodesStored(p, r1, name);
                if (g.oneIn(3)) {
                    p.clearComputeTables();
                    expectVec(readVec(f(), n), v1, tol, name, " with empty caches");
                }
                return r1;
            };
            auto mat = [&](auto f, const Mat& want, const char* name, int n) {
                const auto tol = tolFor(64 * (1 + maxAbs(want)));
                const auto r1  = f();
                const auto v1  = readMat(r1, n);
                expectMat(v1, want, tol, name);
                const auto r2 = f();
                if (r2.p != r1.p || std::abs(val(r1.w) - val(r2.w)) > tol) {
                    fail(name, ": repeating the operation gave another result");
                }
                checkNodesStored(p, r1, name);
                if (g.oneIn(3)) {
                    p.clearComputeTables();
                    expectMat(readMat(f(), n), v1, tol, name, " with empty caches");
                }
                return r1;
            };
            auto num = [&](auto f, C want, const char* name) {
                const auto tol = tolFor(64 * (1 + std::abs(want)));
                const C    r1  = f();
                const C    r2  = f();
                if (!close(r1, want, tol) || !close(r2, want, tol)) {
                    fail(name, ": ", r1, ", then ", r2, ", expected ", want);
                }
                if (g.oneIn(3)) {
                    p.clearComputeTables();
                    const C r3 = f();
                    if (!close(r3, want, tol)) {
                        fail(name, " with empty caches: ", r3, ", expected ", want);
                    }
                }
            };
            if (!done.insert({op, op == 3 || op == 13 ? a : i, op == 3 ? b : j}).second) {
                ++warm;
            }
            switch (op) {
                case 0: {
                    const auto r = vec([&] { return p.multiply(A.first, x.first); }, mul(A.second, x.second), "product matrix * vector", w.n);
                    if (norm(readVec(r, w.n)) < 1e2 && w.vs.size() < 8 && !g.oneIn(3)) {
                        addV(r);
                    }
                    break;
                }
                case 1: {
                    const auto r = vec([&] { return p.add(x.first, y.first); }, add(x.second, y.second), "sum of vectors", w.n);
                    if (norm(readVec(r, w.n)) < 1e2 && w.vs.size() < 8 && !g.oneIn(3)) {
                        addV(r);
                    }
                    break;
                }
                case 2: num([&] { return val(p.innerProduct(x.first, y.first)); }, inner(x.second, y.second), "inner product"); break;
                case 3: {
                    const auto r = mat([&] { return p.multiply(A.first, B.first); }, mul(A.second, B.second), "product of matrices", w.n);
                    if (maxAbs(readMat(r, w.n)) < 1e2 && w.ms.size() < 8 && !g.oneIn(3)) {
                        addM(r);
                    }
                    break;
                }
                case 4: {
                    const auto r = mat([&] { return p.add(A.first, B.first); }, add(A.second, B.second), "sum of matrices", w.n);
                    if (maxAbs(readMat(r, w.n)) < 1e2 && w.ms.size() < 8 && !g.oneIn(3)) {
                        addM(r);
                    }
                    break;
                }
                case 5: mat([&] { return p.transpose(A.first); }, transpose(A.second), "transpose", w.n); break;
                case 6: mat([&] { return p.conjugateTranspose(A.first); }, adjoint(A.second), "conjugate transpose", w.n); break;
                case 7: { // second operand: a small vector
                    if (x.first.isTerminal()) {
                        break;
                    }
                    const auto [e, u] = smallV();
                    const int m       = static_cast<int>(std::lround(std::log2(u.size())));
                    vec([&, e = e] { return p.kronecker(x.first, e); }, kron(x.second, u), "Kronecker product of vectors", w.n + m);
                    break;
                }
                case 8: {
                    const auto [e, u] = smallM();
                    const int m       = static_cast<int>(std::lround(std::log2(u.n)));
                    if (w.n + m > 5 || A.first.isTerminal() || e.isTerminal()) {
                        break;
                    }
                    mat([&, e = e] { return p.kronecker(A.first, e); }, kron(A.second, u), "Kronecker product of matrices", w.n + m);
                    break;
                }
                case 9: {
                    C t{};
                    for (std::size_t k = 0; k < A.second.n; ++k) {
                        t += A.second(k, k);
                    }
                    num([&] { return val(p.trace(A.first)); }, t, "trace");
                    break;
                }
                case 10: num([&] { return C{p.fidelity(x.first, y.first), 0.}; }, std::norm(inner(x.second, y.second)), "fidelity"); break;
                case 11: {
                    const auto h = p.add(A.first, p.conjugateTranspose(A.first));
                    if (h.isTerminal() || x.first.isTerminal()) {
                        break;
                    }
                    p.incRef(h); // the operation may collect
                    num([&] { return C{p.expectationValue(h, x.first), 0.}; }, inner(x.second, mul(add(A.second, adjoint(A.second)), x.second)), "expectation value");
                    p.decRef(h);
                    break;
                }
                case 12: collect(); break;
                case 13: { // another edge to a known node
                    const auto f = g.pick<C>({{-1., 0.}, {0., 1.}, {0.5, 0.}, {S2, 0.}, {S2, S2}, {0., -0.5}, {2., 0.}});
                    if (g.flip()) {
                        const auto e = rescale(p, x.first, f);
                        if (w.vs.size() < 8 && norm(x.second) < 50.) {
                            addV(e);
                        }
                    } else {
                        const auto e = rescale(p, A.first, f);
                        if (w.ms.size() < 8 && maxAbs(A.second) < 50.) {
                            addM(e);
                        }
                    }
                    break;
                }
                case 14: {
                    const auto gate = genGate(g, w.n);
                    mat([&] { return gateDD(p, gate, w.n); }, matOf(gate, w.n), "gate", w.n);
                    break;
                }
                default: { // drop something (and with it, perhaps, nodes that are in a cache), make something new in its place
                    const auto what = g.below(3);
                    if (what != 0 && w.vs.size() > 1) {
                        p.decRef(w.vs[i].first);
                        w.vs.erase(w.vs.begin() + static_cast<long>(i));
                    }
                    if (what != 1 && (w.ms.size() > 1 || plain)) {
                        p.decRef(w.ms[a].first);
                        w.ms.erase(w.ms.begin() + static_cast<long>(a));
                    }
                    if (plain || g.flip()) {
                        collect();
                        done.clear();
                    }
                    if (plain && what != 1) {
                        const auto m = monomial();
                        g.note("new matrix ", str(m));
                        addM(matDD(p, m));
                    }
                    break;
                }
            }
            if (p.cn.cacheCount() != 0) {
                fail("operation ", op, " left ", p.cn.cacheCount(), " numbers in the cache of temporaries");
            }
        }
        for (const auto& [e, v]: w.vs) {
            expectVec(readVec(e, w.n), v, tolFor(norm(v)), "an operand changed");
        }
        for (const auto& [e, m]: w.ms) {
            expectMat(readMat(e, w.n), m, tolFor(maxAbs(m)), "an operand changed");
        }
        if (warm > 0) {
            g.nontrivial();
        }
    }
    // the same program in a package used for something else before, and in a new one
    void freshVersusUsed(Gen& g) {
        const int  n    = g.irange(1, 4);
        auto       used = makePkg(n);
        auto       cold = makePkg(n);
        for (auto k = g.below(6); k > 0; --k) { // earlier work
            const auto m = matDD(*used, genMat(g, n, false));
            const auto v = vecDD(*used, genVec(g, n, false));
            auto       e = used->multiply(m, v);
            e            = used->add(e, v);
            used->multiply(used->conjugateTranspose(m), used->add(m, used->transpose(m)));
            used->innerProduct(e, v);
            if (g.oneIn(4)) {
                used->garbageCollect(true);
            }
        }
        std::vector<Gate> c;
        for (auto k = 1 + g.below(12); k > 0; --k) {
            c.push_back(genGate(g, n));
            g.note(str(c.back()));
        }
        const auto a = runCircuit(*used, c, n);
        const auto b = runCircuit(*cold, c, n);
        expectVec(readVec(a, n), readVec(b, n), 1e-9, "a circuit in a used package");
        expectVec(readVec(b, n), runCircuitRef(c, n), 1e-9, "a circuit in a new package");
        if (used->size(a) != cold->size(b)) {
            g.tag("sizes differ");
        }
        g.nontrivial();
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C18",
                      "random histories of every cached operation over a small pool of diagrams and rescaled edges to the same nodes (1-4 qubits), with collections in between: each result against the dense model, against "
                      "its repetition, and against empty caches, including histories in which collections remove nodes of one kind only; circuits in a used and in a new package; non-trivial: an operation repeated on the same operands later / any circuit",
                      {{"history", 5, history}, {"freshVersusUsed", 1, freshVersusUsed}}};
    return p;
}
