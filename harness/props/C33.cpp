// C33: printed states and matrices, the package's self-checks, and diagnostics that do not change anything.
#include "inv.hpp"
#include "numparse.hpp"

#include <iostream>
#include <sstream>
using namespace rf;

namespace {
    struct Capture {
        std::ostringstream out, log;
        std::streambuf *   o, *l;
        Capture():
            o(std::cout.rdbuf(out.rdbuf())), l(std::clog.rdbuf(log.rdbuf())) {}
        ~Capture() {
            std::cout.rdbuf(o);
            std::clog.rdbuf(l);
        }
        Capture(const Capture&)            = delete;
        Capture& operator=(const Capture&) = delete;
    };
    void checkNumber(const std::string& s, C want, const std::string& where) {
        C got{};
        if (s != "0") {
            NumParser p(s);
            got = p.all();
        }
        for (const auto& [a, b]: {std::pair{got.real(), want.real()}, std::pair{got.imag(), want.imag()}}) {
            if (!(std::abs(a - b) <= 1e-11 + 0.0051 * std::abs(b))) {
                fail(where, " is printed as \"", s, "\" instead of ", want);
            }
        }
    }
    void printed(Gen& g) {
        const int  n   = g.irange(1, g.flip() ? 5 : 3);
        auto       pkg = makePkg(n);
        const auto v   = genVec(g, n, false);
        const auto e   = vecDD(*pkg, v);
        g.note(str(v));
        if (!e.isTerminal()) {
            std::string text;
            {
                Capture c;
                pkg->printVector(e);
                text = c.out.str();
            }
            std::istringstream is(text);
            std::string        line;
            std::size_t        k = 0;
            while (std::getline(is, line)) {
                if (k >= v.size()) {
                    fail("more lines than amplitudes are printed");
                }
                std::string bits;
                for (int q = n - 1; q >= 0; --q) {
                    bits += ((k >> q) & 1U) != 0U ? '1' : '0';
                }
                const auto colon = line.find(':');
                if (colon == std::string::npos || line.substr(0, colon) != bits) {
                    fail("line ", k, " of the printed state is \"", line, "\"");
                }
                std::istringstream ls(line.substr(colon + 1));
                std::string        num;
                std::string        rest;
                ls >> num;
                if (ls >> rest) {
                    fail("line ", k, " of the printed state is \"", line, "\"");
                }
                checkNumber(num, v[k], "amplitude " + bits);
                ++k;
            }
            if (k != v.size()) {
                fail(k, " of ", v.size(), " amplitudes are printed");
            }
            g.nontrivial();
        }
        const int  nm = std::min(n, 3);
        const auto m  = genMat(g, nm, false);
        const auto f  = matDD(*pkg, m);
        g.note(str(m));
        if (!f.isTerminal()) {
            std::string text;
            {
                Capture c;
                pkg->printMatrix(f);
                text = c.out.str();
            }
            std::istringstream is(text);
            std::string        line;
            std::size_t        i = 0;
            while (std::getline(is, line)) {
                std::istringstream ls(line);
                std::string        num;
                std::size_t        j = 0;
                while (ls >> num) {
                    if (i >= m.n || j >= m.n) {
                        fail("more entries than the matrix has are printed");
                    }
                    checkNumber(num, m(i, j), "entry " + std::to_string(i) + ", " + std::to_string(j));
                    ++j;
                }
                if (j != m.n) {
                    fail(j, " entries are printed in row ", i);
                }
                ++i;
            }
            if (i != m.n) {
                fail(i, " rows of ", m.n, " are printed");
            }
        }
        if (pkg->cn.cacheCount() != 0) {
            fail("printing left ", pkg->cn.cacheCount(), " numbers in the cache of temporaries");
        }
    }

    template<class E>
    bool local(Pkg& p, const E& e) {
        Capture c;
        return p.isLocallyConsistent(e);
    }
    template<class E>
    bool global(Pkg& p, const E& e) {
        Capture c;
        try {
            return p.isGloballyConsistent(e);
        } catch (const std::runtime_error&) {
            return false;
        }
    }
    template<class E>
    struct Held {
        E   e;
        int refs;
    };
    // references a diagram takes if nothing else is referenced, and all references there are
    template<class E>
    void checkOne(Pkg& p, const E& e, const Live& all, const char* what) {
        Live own;
        own.add(e);
        // (every node of the diagram below a referenced node is referenced)
        const bool root = e.isTerminal() || (all.nodes.count(e.p) != 0);
        bool       w    = true;
        if (e.w != dd::Complex::zero && e.w != dd::Complex::one) {
            for (const auto* q: {e.w.r, e.w.i}) {
                const auto* a = dd::CTEntry::getAlignedPointer(q);
                w             = w && a->refCount > 0;
            }
        }
        const bool wantLocal = root && w;
        if (local(p, e) != wantLocal) {
            fail("the local check ", wantLocal ? "rejects" : "accepts", " a ", what, " whose ", wantLocal ? "nodes and numbers are all referenced" : "root is not referenced");
        }
        if (!e.isTerminal()) {
            bool same = true;
            for (const auto& [q, k]: own.nodes) {
                const auto it = all.nodes.find(q);
                same          = same && it != all.nodes.end() && it->second == k;
            }
            for (const auto& [q, k]: own.numbers) {
                const auto* a = static_cast<const dd::CTEntry*>(q);
                same          = same && k <= a->refCount;
            }
            if (same && !global(p, e)) {
                fail("the global check rejects a ", what, " which holds all references to its nodes");
            }
            if (!same && global(p, e)) {
                fail("the global check accepts a ", what, " some of whose nodes have other references");
            }
        }
    }
    template<class E>
    void damage(Gen& g, Pkg& p, const E& e, const char* what) {
        std::set<const void*>   seen;
        std::vector<decltype(e.p)> ps;
        forNodes(e, seen, [&](auto* q) { ps.push_back(const_cast<decltype(e.p)>(q)); });
        if (ps.empty() || !local(p, e)) {
            return;
        }
        auto* q = g.pick(ps);
        switch (g.below(4)) {
            case 0: { // a lost reference
                const auto k = q->ref;
                q->ref       = 0;
                const bool r = local(p, e);
                q->ref       = k;
                if (r) {
                    fail("the local check accepts a ", what, " with an unreferenced node");
                }
                break;
            }
            case 1: { // a wrong level (of an inner node)
                if (q == e.p) {
                    return;
                }
                q->v         = static_cast<dd::Qubit>(q->v + (g.flip() ? 1 : -1));
                const bool r = local(p, e);
                // (put it back before anything else)
                const auto wrong = q->v;
                dd::Qubit  right = wrong;
                for (auto* par: ps) {
                    for (const auto& c: par->e) {
                        if (c.p == q) {
                            right = static_cast<dd::Qubit>(par->v - 1);
                        }
                    }
                }
                q->v = right;
                if (r) {
                    fail("the local check accepts a ", what, " with a node on a wrong level");
                }
                break;
            }
            case 2: { // a miscounted node
                const bool before = global(p, e);
                q->ref += 1;
                const bool r = global(p, e);
                q->ref -= 1;
                if (before && r) {
                    fail("the global check accepts a ", what, " with a node whose reference count is too high");
                }
                break;
            }
            default: { // a number without references
                std::vector<dd::CTEntry*> numbers;
                for (auto* par: ps) {
                    for (const auto& c: par->e) {
                        if (c.w != dd::Complex::zero && c.w != dd::Complex::one) {
                            for (const auto* x: {c.w.r, c.w.i}) {
                                auto* a = dd::CTEntry::getAlignedPointer(x);
                                if (a != &dd::ComplexTable<>::zero && a != &dd::ComplexTable<>::one && a != &dd::ComplexTable<>::sqrt2_2) {
                                    numbers.push_back(a);
                                }
                            }
                        }
                    }
                }
                if (numbers.empty()) {
                    return;
                }
                auto*      a      = g.pick(numbers);
                const auto k      = a->refCount;
                a->refCount       = 0;
                const bool r      = local(p, e);
                const bool s      = global(p, e);
                a->refCount       = k;
                if (r || s) {
                    fail("the ", r ? "local" : "global", " check accepts a ", what, " with an unreferenced number");
                }
                break;
            }
        }
        if (!local(p, e)) {
            fail("harness: damage not repaired");
        }
    }
    void selfChecks(Gen& g) {
        const int                    n   = g.irange(1, 4);
        auto                         pkg = makePkg(n);
        auto&                        p   = *pkg;
        std::vector<Held<dd::vEdge>> vs;
        std::vector<Held<dd::mEdge>> ms;
        const auto                   steps = 2 + g.below(10);
        for (std::uint64_t s = 0; s < steps; ++s) {
            switch (g.weighted({3, 3, 2, 2, 2, 2, 3, 2, 1})) {
                case 0: vs.push_back({vecDD(p, genVec(g, n, false)), 0}); break;
                case 1: ms.push_back({matDD(p, genMat(g, n, false)), 0}); break;
                case 2: ms.push_back({gateDD(p, genGate(g, n), n), 0}); break;
                case 3:
                    if (!vs.empty() && !ms.empty()) {
                        vs.push_back({p.multiply(g.pick(ms).e, g.pick(vs).e), 0});
                    }
                    break;
                case 4:
                    if (!vs.empty()) {
                        auto& h = vs[g.below(vs.size())];
                        p.incRef(h.e);
                        ++h.refs;
                    }
                    break;
                case 5:
                    if (!ms.empty()) {
                        auto& h = ms[g.below(ms.size())];
                        p.incRef(h.e);
                        ++h.refs;
                    }
                    break;
                case 6:
                    if (!vs.empty()) {
                        auto& h = vs[g.below(vs.size())];
                        if (h.refs > 0) {
                            p.decRef(h.e);
                            --h.refs;
                        }
                    }
                    break;
                case 7:
                    if (!ms.empty()) {
                        auto& h = ms[g.below(ms.size())];
                        if (h.refs > 0) {
                            p.decRef(h.e);
                            --h.refs;
                        }
                    }
                    break;
                default: {
                    p.garbageCollect(true);
                    vs.erase(std::remove_if(vs.begin(), vs.end(), [](const auto& h) { return h.refs == 0; }), vs.end());
                    ms.erase(std::remove_if(ms.begin(), ms.end(), [](const auto& h) { return h.refs == 0; }), ms.end());
                    break;
                }
            }
        }
        Live all;
        for (const auto& h: vs) {
            for (int k = 0; k < h.refs; ++k) {
                all.add(h.e);
            }
        }
        for (const auto& h: ms) {
            for (int k = 0; k < h.refs; ++k) {
                all.add(h.e);
            }
        }
        bool some = false;
        for (const auto& h: vs) {
            checkOne(p, h.e, all, "state");
            if (h.refs > 0) {
                damage(g, p, h.e, "state");
                some = true;
            }
        }
        for (const auto& h: ms) {
            checkOne(p, h.e, all, "matrix");
            if (h.refs > 0) {
                damage(g, p, h.e, "matrix");
                some = true;
            }
        }
        // diagnostics leave everything as it is
        const auto before = std::tuple{p.vUniqueTable.getNodeCount(), p.mUniqueTable.getNodeCount(), p.cn.complexTable.getCount(), p.cn.cacheCount()};
        std::string text;
        {
            Capture c;
            p.statistics();
            Pkg::printInformation();
            for (const auto& h: vs) {
                p.debugnode(h.e.p);
            }
            for (const auto& h: ms) {
                p.debugnode(h.e.p);
            }
            text = c.out.str() + c.log.str();
        }
        if (text.empty()) {
            fail("no statistics are printed");
        }
        if (before != std::tuple{p.vUniqueTable.getNodeCount(), p.mUniqueTable.getNodeCount(), p.cn.complexTable.getCount(), p.cn.cacheCount()}) {
            fail("printing statistics changed the package");
        }
        for (const auto& h: vs) {
            checkOne(p, h.e, all, "state");
        }
        for (const auto& h: ms) {
            checkOne(p, h.e, all, "matrix");
        }
        if (some) {
            g.nontrivial();
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C33",
                      "printed random states and matrices parsed back; histories of 2-11 operations over referenced and unreferenced diagrams, the local and the global check against the references actually held, and against "
                      "diagrams damaged on purpose (count, level, number), before and after printing statistics; non-trivial: a state other than a terminal is printed / a referenced diagram is checked",
                      {{"printed", 1, printed}, {"selfChecks", 2, selfChecks}}};
    return p;
}
