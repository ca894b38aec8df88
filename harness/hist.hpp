// Programs over a package: generated once, executed in any package, giving a list of dense results.
#pragma once
#include "inv.hpp"

#include <random>

namespace rf {
    struct Op {
        int           kind = 0;
        std::uint64_t a    = 0;
        std::uint64_t b    = 0;
        Vec           v;
        Mat           m;
        Gate          gate;
        std::uint64_t seed = 0;
    };
    inline std::vector<Op> genProgram(Gen& g, int n, int len, bool measure = true) {
        std::vector<Op> p;
        for (int k = 0; k < len; ++k) {
            Op o;
            o.kind = static_cast<int>(g.weighted({3, 1, 3, 2, 6, 3, 3, 2, 2, measure ? 2U : 0U, 2, 2, 1, 1, 2}));
            o.a    = g.below(16);
            o.b    = g.below(16);
            switch (o.kind) {
                case 0: o.v = g.flip() ? genState(g, n) : genVec(g, n, false); break;
                case 2: o.gate = genGate(g, n); break;
                case 3: o.m = genMat(g, n, false); break;
                case 9: o.seed = g.below(1ULL << 32); break;
                default: break;
            }
            p.push_back(std::move(o));
        }
        return p;
    }
    struct Exec {
        Pkg&                   p;
        int                    n;
        std::vector<dd::vEdge> vs;
        std::vector<dd::mEdge> ms;
        std::vector<Vec>       out;

        Exec(Pkg& pkg, int nq):
            p(pkg), n(nq) {}
        void keep(const dd::vEdge& e) {
            const auto r = readVec(e, n);
            out.push_back(r);
            if (vs.size() < 6 && norm(r) < 1e2) {
                p.incRef(e);
                vs.push_back(e);
            }
        }
        void keep(const dd::mEdge& e) {
            const auto r = readMat(e, n);
            out.push_back(r.a);
            if (ms.size() < 6 && maxAbs(r) < 1e2) {
                p.incRef(e);
                ms.push_back(e);
            }
        }
        // one operation; operations without operands do nothing (in every package alike)
        void step(const Op& o) {
            const auto qn = static_cast<dd::QubitCount>(n);
            if (o.kind == 0) {
                keep(vecDD(p, o.v));
            } else if (o.kind == 1) {
                switch (o.a % 3) {
                    case 0: keep(p.makeZeroState(qn)); break;
                    case 1: {
                        static const dd::BasisStates all[] = {dd::BasisStates::zero, dd::BasisStates::one, dd::BasisStates::plus, dd::BasisStates::minus, dd::BasisStates::right, dd::BasisStates::left};
                        std::vector<dd::BasisStates> s;
                        for (int q = 0; q < n; ++q) {
                            s.push_back(all[(o.b * 5 + static_cast<std::uint64_t>(q) * (1 + o.b % 3)) % 6]);
                        }
                        keep(p.makeBasisState(qn, s));
                        break;
                    }
                    default: {
                        std::vector<bool> s;
                        for (int q = 0; q < n; ++q) {
                            s.push_back(((o.b >> q) & 1U) != 0);
                        }
                        keep(p.makeBasisState(qn, s));
                        break;
                    }
                }
            } else if (o.kind == 2) {
                keep(gateDD(p, o.gate, n));
            } else if (o.kind == 3) {
                keep(matDD(p, o.m));
            } else if (o.kind == 10) {
                p.garbageCollect(true);
            } else if (o.kind == 12) {
                p.clearComputeTables();
            } else if (o.kind == 13) {
                keep(p.makeIdent(qn));
            }
            if (!vs.empty()) {
                const auto i = o.a % vs.size();
                const auto j = o.b % vs.size();
                if (o.kind == 6) {
                    keep(p.add(vs[i], vs[j]));
                } else if (o.kind == 8) {
                    const auto c = p.innerProduct(vs[i], vs[j]);
                    out.push_back({val(c), C{p.fidelity(vs[i], vs[j]), 0.}});
                } else if (o.kind == 9 && std::abs(norm(readVec(vs[i], n)) - 1.) < 1e-9) {
                    std::mt19937_64 mt(o.seed);
                    const auto      s = p.measureAll(vs[i], (o.b & 1U) != 0, mt);
                    Vec             r;
                    for (const char c: s) {
                        r.push_back(C{static_cast<double>(c - '0'), 0.});
                    }
                    out.push_back(r);
                    out.push_back(readVec(vs[i], n));
                } else if (o.kind == 11 && vs.size() > 1) {
                    p.decRef(vs[i]);
                    vs.erase(vs.begin() + static_cast<long>(i));
                }
            }
            if (!ms.empty()) {
                const auto i = o.a % ms.size();
                const auto j = o.b % ms.size();
                if (o.kind == 4 && !vs.empty()) {
                    keep(p.multiply(ms[i], vs[o.b % vs.size()]));
                } else if (o.kind == 5) {
                    keep(p.multiply(ms[i], ms[j]));
                } else if (o.kind == 7) {
                    keep((o.b & 1U) != 0 ? p.transpose(ms[i]) : p.conjugateTranspose(ms[i]));
                } else if (o.kind == 14) {
                    if ((o.b & 1U) != 0) {
                        keep(p.add(ms[i], ms[j]));
                    } else {
                        out.push_back({val(p.trace(ms[i]))});
                    }
                } else if (o.kind == 11 && ms.size() > 1 && (o.b & 2U) != 0) {
                    p.decRef(ms[i]);
                    ms.erase(ms.begin() + static_cast<long>(i));
                }
            }
        }
        void run(const std::vector<Op>& ops) {
            for (const auto& o: ops) {
                step(o);
            }
        }
        // everything kept consists of nodes and numbers of this package, counted once per reference
        void audit(const std::string& when) {
            const auto av = storedNodes<dd::vNode>(p);
            const auto am = storedNodes<dd::mNode>(p);
            Live       lv;
            Live       lm;
            for (const auto& e: vs) {
                checkContained(av, e);
                checkVector(p, e, false);
                lv.add(e);
            }
            for (const auto& e: ms) {
                checkContained(am, e);
                checkMatrix(p, e, false);
                lm.add(e);
            }
            for (const auto& [node, refs]: lv.nodes) {
                if (static_cast<const dd::vNode*>(node)->ref != refs) {
                    fail("vector node has reference count ", static_cast<const dd::vNode*>(node)->ref, ", but ", refs, " references exist ", when);
                }
            }
            for (const auto& [node, refs]: lm.nodes) {
                if (static_cast<const dd::mNode*>(node)->ref != refs) {
                    fail("matrix node has reference count ", static_cast<const dd::mNode*>(node)->ref, ", but ", refs, " references exist ", when);
                }
            }
            if (p.vUniqueTable.getActiveNodeCount() != lv.nodes.size() || p.mUniqueTable.getActiveNodeCount() != lm.nodes.size()) {
                fail("the tables report ", p.vUniqueTable.getActiveNodeCount(), " vector and ", p.mUniqueTable.getActiveNodeCount(), " matrix nodes in use, but ", lv.nodes.size(), " and ", lm.nodes.size(), " are ", when);
            }
            if (p.cn.cacheCount() != 0) {
                fail(p.cn.cacheCount(), " cached numbers are missing ", when);
            }
        }
        void release() {
            for (const auto& e: vs) {
                p.decRef(e);
            }
            for (const auto& e: ms) {
                p.decRef(e);
            }
            vs.clear();
            ms.clear();
            p.garbageCollect(true);
            if (p.vUniqueTable.getNodeCount() != 0 || p.mUniqueTable.getNodeCount() != 0) {
                fail(p.vUniqueTable.getNodeCount(), " vector and ", p.mUniqueTable.getNodeCount(), " matrix nodes remain after releasing everything");
            }
        }
    };
    inline void sameResults(const std::vector<Vec>& got, const std::vector<Vec>& want, const std::string& what) {
        if (got.size() != want.size()) {
            fail(what, ": ", got.size(), " results instead of ", want.size());
        }
        for (std::size_t i = 0; i < got.size(); ++i) {
            expectVec(got[i], want[i], tolFor(8 * (1 + norm(want[i]))), what, ", result ", i);
        }
    }
    inline std::string brief(const std::vector<Op>& ops) {
        static const char* names[] = {"vector", "basis", "gate", "matrix", "mat*vec", "mat*mat", "vec+vec", "transpose", "inner", "measure", "collect", "drop", "clear-caches", "identity", "mat+mat/trace"};
        std::string        s;
        for (const auto& o: ops) {
            s += std::string(s.empty() ? "" : " ") + names[o.kind];
            if (o.kind == 2) {
                s += ":" + str(o.gate);
            } else if (o.kind == 0) {
                s += ":" + str(o.v);
            } else if (o.kind == 3) {
                s += ":" + str(o.m);
            } else {
                s += "(" + std::to_string(o.a) + "," + std::to_string(o.b) + ")";
            }
        }
        return s;
    }
} // namespace rf
