// C41: requests that are rejected leave the package as it was.
#include "dd/Export.hpp"
#include "hist.hpp"

#include <sstream>
using namespace rf;

namespace {
    template<class X, class F>
    void rejected(const char* what, F f) {
        bool thrown = false;
        try {
            f();
        } catch (const X&) {
            thrown = true;
        }
        if (!thrown) {
            fail(what, " was not rejected");
        }
    }
    struct Snapshot {
        std::vector<dd::vEdge> vs;
        std::vector<dd::mEdge> ms;
        std::vector<Vec>       rv;
        std::vector<Mat>       rm;
        Snapshot(const Exec& x, int n):
            vs(x.vs), ms(x.ms) {
            for (const auto& e: vs) {
                rv.push_back(readVec(e, n));
            }
            for (const auto& e: ms) {
                rm.push_back(readMat(e, n));
            }
        }
        void compare(const Exec& x, int n, const std::string& when) const {
            for (std::size_t i = 0; i < vs.size(); ++i) {
                if (x.vs[i] != vs[i]) {
                    fail("a vector is another diagram ", when);
                }
                expectVec(readVec(x.vs[i], n), rv[i], 0., "a vector ", when);
            }
            for (std::size_t i = 0; i < ms.size(); ++i) {
                if (x.ms[i] != ms[i]) {
                    fail("a matrix is another diagram ", when);
                }
                expectMat(readMat(x.ms[i], n), rm[i], 0., "a matrix ", when);
            }
        }
    };
    std::string damaged(Gen& g, const std::string& text) {
        std::vector<std::string> lines;
        std::istringstream       is(text);
        for (std::string l; std::getline(is, l);) {
            lines.push_back(l);
        }
        const auto last = lines.size() - 1;
        switch (g.below(5)) {
            case 0: lines[0] = g.pick<std::string>({"0", "2", "17", "x", ""}); break;
            case 1: lines[1] = g.pick<std::string>({"1+", "abc", "1 1", "()"}); break;
            case 2: lines[last] += " ("; break;
            case 3: { // a reference to a node that doesn't exist
                auto&      l = lines[last];
                const auto p = l.find(" (");
                if (p != std::string::npos) {
                    l = l.substr(0, p) + (l.find("(", p + 2) != std::string::npos ? " (4711 1)" + l.substr(l.find(")", p) + 1) : " (4711 1)");
                }
                break;
            }
            default: lines[last] = lines[last].substr(0, lines[last].size() / 2); break;
        }
        std::string r;
        for (const auto& l: lines) {
            r += l + "\n";
        }
        return r;
    }
    // one request that cannot be met; returns what it was
    std::string request(Gen& g, Exec& x, int n) {
        auto&      p     = x.p;
        const auto cap   = p.qubits();
        const auto qn    = static_cast<dd::QubitCount>(n);
        const auto extra = 1 + g.below(3);
        switch (g.below(14)) {
            case 0: {
                const auto start = g.below(3);
                const auto k     = cap + extra > start ? cap + extra - start : 1;
                rejected<std::runtime_error>("a zero state that is too large", [&] { p.makeZeroState(static_cast<dd::QubitCount>(k), start); });
                return "zero state";
            }
            case 1:
                rejected<std::runtime_error>("a basis state given by too few bits", [&] { p.makeBasisState(qn, std::vector<bool>(static_cast<std::size_t>(n - 1), true)); });
                rejected<std::runtime_error>("a basis state that is too large", [&] { p.makeBasisState(static_cast<dd::QubitCount>(cap + extra), std::vector<bool>(cap + extra, true)); });
                return "basis state";
            case 2:
                rejected<std::runtime_error>("a product state given by too few states", [&] { p.makeBasisState(qn, std::vector<dd::BasisStates>(static_cast<std::size_t>(n - 1), dd::BasisStates::plus)); });
                rejected<std::runtime_error>("a product state that is too large", [&] { p.makeBasisState(static_cast<dd::QubitCount>(cap + extra), std::vector<dd::BasisStates>(cap + extra, dd::BasisStates::left)); });
                return "product state";
            case 3: {
                const auto len = g.pick<std::size_t>({3, 5, 6, 7, 9, 12, 15, 24});
                rejected<std::invalid_argument>("a vector of a wrong length", [&] { p.makeStateFromVector(dd::CVec(len, {0.3, 0.1})); });
                return "vector";
            }
            case 4: {
                const auto   len = g.pick<std::size_t>({3, 5, 6, 7});
                dd::CMat     m(g.flip() ? len : 4, dd::CVec(len, {0.3, 0.1}));
                if (g.flip()) {
                    m = dd::CMat(4, dd::CVec(4, {0.3, 0.1}));
                    m[g.below(4)].resize(g.flip() ? 3 : 5);
                }
                rejected<std::invalid_argument>("a matrix of a wrong shape", [&] { p.makeDDFromMatrix(m); });
                return "matrix";
            }
            case 5:
                rejected<std::runtime_error>("a gate that is too large", [&] { p.makeGateDD(dd::Hmat, static_cast<dd::QubitCount>(cap + extra), static_cast<dd::Qubit>(g.below(cap))); });
                rejected<std::runtime_error>("a controlled gate that is too large", [&] { p.makeGateDD(dd::Xmat, static_cast<dd::QubitCount>(cap + extra), dd::Control{static_cast<dd::Qubit>(cap)}, 0); });
                rejected<std::runtime_error>("a two-qubit gate that is too large", [&] { p.makeSWAPDD(static_cast<dd::QubitCount>(cap + extra), 0, static_cast<dd::Qubit>(cap)); });
                return "gate";
            case 6:
            case 7: { // states that aren't normalised
                for (const auto& v: x.vs) {
                    const auto r = readVec(v, n);
                    if (norm(r) < 1e-6) {
                        continue;
                    }
                    auto s = v;
                    s.w    = p.cn.lookup(val(v.w) * (g.flip() ? 2. / norm(r) : 0.5 / norm(r)));
                    p.incRef(s);
                    const auto      before = s;
                    const auto      want   = readVec(s, n);
                    std::mt19937_64 mt(g.below(1000));
                    rejected<std::runtime_error>("measuring a state that isn't normalised", [&] { p.measureOneCollapsing(s, static_cast<dd::Qubit>(g.below(static_cast<std::uint64_t>(n))), g.flip(), mt); });
                    if (s != before) {
                        fail("a rejected measurement changed the state");
                    }
                    expectVec(readVec(s, n), want, 0., "a state after a rejected measurement");
                    p.decRef(s);
                    break;
                }
                auto            z = dd::vEdge::zero;
                std::mt19937_64 mt(1);
                rejected<std::runtime_error>("measuring the zero vector", [&] { p.measureAll(z, g.flip(), mt); });
                rejected<std::runtime_error>("measuring a qubit of the zero vector", [&] { p.measureOneCollapsing(z, static_cast<dd::Qubit>(g.below(static_cast<std::uint64_t>(n))), g.flip(), mt); });
                if (z != dd::vEdge::zero) {
                    fail("a rejected measurement changed the state");
                }
                return "measurement";
            }
            case 8: {
                const auto small = g.flip() || n == 1 ? dd::vEdge::one : p.makeZeroState(static_cast<dd::QubitCount>(n - 1));
                const auto m     = x.ms.empty() || x.ms[0].isTerminal() ? p.makeIdent(qn) : x.ms[0];
                rejected<std::invalid_argument>("an expectation value of operands of different sizes", [&] { p.expectationValue(m, small); });
                return "expectation value";
            }
            case 9:
            case 10: {
                std::stringstream s;
                const bool        vec = g.flip() && !x.vs.empty() && !x.vs[0].isTerminal();
                if (!vec && (x.ms.empty() || x.ms[0].isTerminal())) {
                    return "";
                }
                if (vec) {
                    dd::serialize(x.vs[0], s);
                } else {
                    dd::serialize(x.ms[0], s);
                }
                const auto         bad = damaged(g, s.str());
                std::istringstream is(bad);
                try {
                    if (vec) {
                        p.deserialize<dd::vNode>(is);
                    } else {
                        p.deserialize<dd::mNode>(is);
                    }
                } catch (const std::exception&) {
                    return "text";
                }
                return ""; // (some damage goes unnoticed)
            }
            case 11:
                rejected<std::invalid_argument>("a file that doesn't exist", [&] { p.deserialize<dd::vNode>(std::string("/nonexistent/file"), g.flip()); });
                if (!x.vs.empty()) {
                    rejected<std::invalid_argument>("a file that cannot be written", [&] { dd::serialize(x.vs[0], std::string("/nonexistent/file"), g.flip()); });
                }
                return "file";
            case 12:
                rejected<std::invalid_argument>("too many qubits", [&] { p.resize(129 + g.below(1000)); });
                if (p.qubits() != cap) {
                    fail("a rejected resize changed the number of qubits to ", p.qubits());
                }
                return "resize";
            default: { // released, but never referenced
                if (x.vs.empty() || x.ms.empty()) {
                    return "";
                }
                const bool vec = g.flip();
                if (vec) {
                    auto e = p.makeBasisState(qn, std::vector<dd::BasisStates>(static_cast<std::size_t>(n), dd::BasisStates::right));
                    e.w    = x.vs[g.below(x.vs.size())].w;
                    if (e.p->ref != 0) {
                        return "";
                    }
                    rejected<std::runtime_error>("releasing a diagram that isn't referenced", [&] { p.decRef(e); });
                } else {
                    auto e = p.makeGateDD(dd::SXmat, qn, static_cast<dd::Qubit>(n - 1));
                    e.w    = x.ms[g.below(x.ms.size())].w;
                    if (e.p->ref != 0) {
                        return "";
                    }
                    rejected<std::runtime_error>("releasing a diagram that isn't referenced", [&] { p.decRef(e); });
                }
                return "release";
            }
        }
    }
    // the reference counts of the numbers of everything kept
    std::map<const dd::CTEntry*, std::size_t> numberReferences(const Exec& x) {
        std::map<const dd::CTEntry*, std::size_t> counts;
        auto                                      count = [&](const dd::Complex& w) {
            for (const auto* e: {dd::CTEntry::getAlignedPointer(w.r), dd::CTEntry::getAlignedPointer(w.i)}) {
                counts[e] = e->refCount;
            }
        };
        std::set<const void*> seen;
        auto                  walk = [&](const auto& e) {
            count(e.w);
            forNodes(e, seen, [&](const auto* node) {
                for (const auto& c: node->e) {
                    count(c.w);
                }
            });
        };
        for (const auto& e: x.vs) {
            walk(e);
        }
        for (const auto& e: x.ms) {
            walk(e);
        }
        return counts;
    }
    void requests(Gen& g) {
        const int  n    = g.irange(1, 4);
        const auto ops  = genProgram(g, n, g.irange(2, 14));
        auto       pkg  = makePkg(n);
        auto       calm = makePkg(n);
        Exec       x(*pkg, n);
        Exec       y(*calm, n);
        int        done = 0;
        g.note(n, " qubits: ", brief(ops));
        for (const auto& o: ops) {
            x.step(o);
            y.step(o);
            for (int k = static_cast<int>(g.below(3)); k > 0; --k) {
                const Snapshot s(x, n);
                const auto     before = numberReferences(x);
                const auto     what = request(g, x, n);
                if (what.empty()) {
                    continue;
                }
                ++done;
                g.note("rejected: ", what);
                g.tag(what);
                const auto when = "after a rejected request (" + what + ")";
                s.compare(x, n, when);
                x.audit(when);
                for (const auto& [e, k]: before) {
                    if (e->refCount != k) {
                        fail("the number ", e->value, " had the reference count ", k, ", and has ", e->refCount, " ", when);
                    }
                }
            }
        }
        sameResults(x.out, y.out, "a program with rejected requests in between and without");
        if (done > 0 && x.vs.size() + x.ms.size() > 1) {
            g.nontrivial();
        }
        x.release();
        y.release();
        if (pkg->cn.complexTable.getCount() != calm->cn.complexTable.getCount()) {
            // (numbers are only collected with the nodes)
            pkg->garbageCollect(true);
            calm->garbageCollect(true);
            if (pkg->cn.complexTable.getCount() != calm->cn.complexTable.getCount()) {
                fail(pkg->cn.complexTable.getCount(), " numbers remain, ", calm->cn.complexTable.getCount(), " without the rejected requests");
            }
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C41",
                      "random programs in packages of 1-4 qubits, interspersed with requests that must be rejected (too large or too few states, vectors and matrices of a wrong shape, gates beyond the package, measurements of states that aren't "
                      "normalised, operands of different sizes, damaged texts, missing files, releases without reference); all diagrams, reference counts and later results are compared with the same program without them; "
                      "non-trivial: at least one rejected request and two diagrams held at the end",
                      {{"requests", 1, requests}}};
    return p;
}
