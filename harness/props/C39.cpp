// C39: statistics and dumps of the tables report what happened and what is stored.
#include "inv.hpp"

#include <sstream>
using namespace rf;

namespace {
    struct Capture {
        std::ostringstream out, log;
        std::streambuf *   o, *l;
        Capture():
            o(std::cout.rdbuf(out.rdbuf())), l(std::clog.rdbuf(log.rdbuf())) {}
        ~Capture() {
            std::cout.rdbuf(o);
            std::clog.rdbuf(l);
        }
        Capture(const Capture&)            = delete;
        Capture& operator=(const Capture&) = delete;
    };
    using Stats = std::map<std::string, double>;
    // "name: number, name: number, ..."
    Stats parse(const std::string& text) {
        Stats             s;
        std::string       part;
        std::stringstream ss(text);
        while (std::getline(ss, part, ',')) {
            const auto c = part.find(':');
            if (c == std::string::npos) {
                fail("statistics without a number: \"", text, "\"");
            }
            auto name = part.substr(0, c);
            name.erase(0, name.find_first_not_of(" \n"));
            if (!s.emplace(name, std::strtod(part.c_str() + c + 1, nullptr)).second) {
                fail("statistics name ", name, " twice: \"", text, "\"");
            }
        }
        return s;
    }
    template<class Table>
    Stats stats(Table& t) {
        std::ostringstream os;
        t.printStatistics(os);
        return parse(os.str());
    }
    void expectStat(const Stats& s, const std::string& name, double want, const std::string& what) {
        const auto it = s.find(name);
        if (it == s.end()) {
            fail(what, ": the statistics don't contain ", name);
        }
        if (it->second != want) {
            fail(what, ": ", name, " is reported as ", it->second, ", but was ", want);
        }
    }
    void expectRatio(const Stats& s, const std::string& name, double a, double b, const std::string& what) {
        const auto it = s.find(name);
        if (it == s.end()) {
            fail(what, ": the statistics don't contain ", name);
        }
        if (b > 0 && !(std::abs(it->second - a / b) <= 1e-5 * (a / b) + 1e-12)) {
            fail(what, ": ", name, " is reported as ", it->second, " with ", a, " of ", b);
        }
    }
    // hits, lookups and their ratio of a cache; clearing it may or may not reset them
    struct CacheModel {
        std::string what;
        double      hits = 0, looks = 0;
        template<class R>
        void found(const R& r) {
            ++looks;
            if (r.p != nullptr) {
                ++hits;
            }
        }
        template<class Table>
        void cleared(Table& t) {
            const auto s = stats(t);
            if (s.count("looks") != 0 && s.at("looks") == 0.) {
                looks = hits = 0;
            }
            check(t);
        }
        template<class Table>
        void check(Table& t) const {
            const auto s = stats(t);
            expectStat(s, "hits", hits, what);
            expectStat(s, "looks", looks, what);
            expectRatio(s, "ratio", hits, looks, what);
            if (looks > 0 && std::abs(t.hitRatio() - hits / looks) > 1e-12) {
                fail(what, ": ", hits, " hits of ", looks, " lookups are a ratio of ", t.hitRatio());
            }
        }
    };

    template<class Node>
    struct Pool {
        std::vector<Node> nodes;
        explicit Pool(Gen& g) {
            nodes.resize(2 + g.below(4));
            for (auto& n: nodes) {
                n.v = 0;
            }
        }
        dd::Edge<Node>       edge(Gen& g) { return {&nodes[g.below(nodes.size())], g.flip() ? dd::Complex::one : dd::Complex::zero}; }
        dd::CachedEdge<Node> cached(Gen& g) { return {&nodes[g.below(nodes.size())], dd::ComplexValue{g.pick({1., 0.5}), 0.}}; }
    };

    template<class Table, class Ins, class Find>
    void driveCache(Gen& g, Table& t, const char* what, Ins ins, Find find) {
        CacheModel m{what};
        for (auto k = 1 + g.below(40); k > 0; --k) {
            switch (g.weighted({6, 8, 1, 2})) {
                case 0: ins(); break;
                case 1: m.found(find()); break;
                case 2:
                    t.clear();
                    m.cleared(t);
                    break;
                default: m.check(t); break;
            }
        }
        m.check(t);
        if (m.hits > 0 && m.looks > m.hits) {
            g.nontrivial();
        }
    }
    void caches(Gen& g) {
        Pool<dd::vNode> pv(g);
        Pool<dd::mNode> pm(g);
        Pool<dd::dNode> pd(g);
        auto            qubits = [&] {
            std::vector<dd::Qubit> q;
            for (auto m = g.below(3); m > 0; --m) {
                q.push_back(static_cast<dd::Qubit>(g.below(3)));
            }
            return q;
        };
        switch (g.below(6)) {
            case 0: {
                auto t = std::make_unique<dd::ComputeTable<dd::mEdge, dd::vEdge, dd::vCachedEdge, 16>>();
                driveCache(
                        g, *t, "compute table", [&] { t->insert(pm.edge(g), pv.edge(g), pv.cached(g)); }, [&] { return t->lookup(pm.edge(g), pv.edge(g)); });
                break;
            }
            case 1: {
                auto t = std::make_unique<dd::ComputeTable<dd::dEdge, dd::dEdge, dd::dCachedEdge, 16>>();
                driveCache(
                        g, *t, "compute table of density matrices", [&] { t->insert(pd.edge(g), pd.edge(g), pd.cached(g)); }, [&] { return t->lookup(pd.edge(g), pd.edge(g), g.flip()); });
                break;
            }
            case 2: {
                auto t = std::make_unique<dd::UnaryComputeTable<dd::mEdge, dd::mEdge, 8>>();
                driveCache(
                        g, *t, "unary table", [&] { t->insert(pm.edge(g), pm.edge(g)); }, [&] { return t->lookup(pm.edge(g)); });
                break;
            }
            case 3: {
                auto t = std::make_unique<dd::DensityNoiseTable<dd::dEdge, dd::dEdge, 8>>();
                driveCache(
                        g, *t, "noise table", [&] { t->insert(pd.edge(g), pd.edge(g), qubits()); }, [&] { return t->lookup(pd.edge(g), qubits()); });
                break;
            }
            case 4: {
                auto t = std::make_unique<dd::StochasticNoiseOperationTable<dd::mEdge, 4>>(3U);
                driveCache(
                        g, *t, "stochastic table", [&] { t->insert(static_cast<std::uint8_t>(g.below(4)), static_cast<dd::Qubit>(g.below(3)), pm.edge(g)); },
                        [&] { return t->lookup(static_cast<std::uint8_t>(g.below(4)), static_cast<dd::Qubit>(g.below(3))); });
                break;
            }
            default: {
                auto t = std::make_unique<dd::ToffoliTable<dd::mEdge, 8>>();
                auto cs = [&] { return toControls(genControls(g, 3, {0}, 2)); };
                driveCache(
                        g, *t, "Toffoli table", [&] { t->insert(3, cs(), 0, pm.edge(g)); }, [&] { return t->lookup(3, cs(), 0); });
                break;
            }
        }
    }

    // the dump of a unique table lists each node on its level with its count
    template<class Table>
    void checkDump(Table& t, std::size_t nv, const std::string& what) {
        std::string text;
        {
            Capture c;
            t.print();
            text = c.out.str();
        }
        std::map<std::uintptr_t, std::pair<std::size_t, std::size_t>> listed; // level, count
        std::stringstream                                             ss(text);
        std::string                                                   line;
        std::size_t                                                   level = nv;
        while (std::getline(ss, line)) {
            const auto q = line.find("\tq");
            if (q == 0) {
                level = std::stoul(line.substr(2));
                continue;
            }
            const auto x = line.find("\t\t");
            if (x == std::string::npos) {
                continue;
            }
            std::stringstream ls(line.substr(x + 2));
            std::uintptr_t    p   = 0;
            std::size_t       ref = 0;
            ls >> std::hex >> p >> std::dec >> ref;
            if (!listed.emplace(p, std::pair{level, ref}).second) {
                fail(what, " lists a node twice");
            }
        }
        std::size_t n = 0;
        for (std::size_t v = 0; v < nv; ++v) {
            for (auto* p: t.getTables().at(v)) {
                for (; p != nullptr; p = p->next) {
                    ++n;
                    const auto it = listed.find(reinterpret_cast<std::uintptr_t>(p));
                    if (it == listed.end()) {
                        fail(what, " doesn't list a stored node");
                    }
                    if (it->second.first != v || it->second.second != p->ref) {
                        fail(what, " lists a node of level ", v, " with ", p->ref, " references as one of level ", it->second.first, " with ", it->second.second);
                    }
                }
            }
        }
        if (n != listed.size()) {
            fail(what, " lists ", listed.size(), " nodes, ", n, " are stored");
        }
    }
    void unique(Gen& g) {
        const std::size_t nv = 1 + g.below(3);
        using Table          = dd::UniqueTable<dd::vNode, 8, 4, 2, 12>;
        auto                    tp = std::make_unique<Table>(nv);
        auto&                   t  = *tp;
        dd::ComplexNumbers      cn{};
        std::vector<dd::Complex> w{dd::Complex::one, cn.lookup(0.25, 0.), cn.lookup(0.5, 0.125)};
        std::vector<std::vector<dd::vEdge>> levels(nv);
        std::vector<dd::vEdge>              held;
        double                              hits = 0, looks = 0, calls = 0, runs = 0;
        std::set<dd::vNode*>                stored;
        auto                                check = [&] {
            const auto s = stats(t);
            expectStat(s, "hits", hits, "unique table");
            expectStat(s, "looks", looks, "unique table");
            expectStat(s, "gc calls", calls, "unique table");
            expectStat(s, "gc runs", runs, "unique table");
            expectRatio(s, "hitRatio", hits, looks, "unique table");
            const auto it = s.find("collisions");
            if (it == s.end()) {
                fail("unique table: the statistics don't contain collisions");
            }
            expectRatio(s, "colRatio", it->second, looks, "unique table");
            if (looks > 0 && (std::abs(t.hitRatio() - hits / looks) > 1e-12 || std::abs(t.colRatio() - it->second / looks) > 1e-12)) {
                fail("unique table: ", hits, " hits, ", it->second, " collisions, ", looks, " lookups give ratios of ", t.hitRatio(), " and ", t.colRatio());
            }
            checkDump(t, nv, "dump of the unique table");
            std::string text;
            {
                Capture c;
                t.printActive();
                text = c.out.str();
            }
            const auto        x = text.find(':');
            std::stringstream ss(x == std::string::npos ? "" : text.substr(x + 1));
            std::size_t       total = 0;
            char              comma = 0;
            if (!(ss >> total >> comma) || total != t.getActiveNodeCount()) {
                fail("the table lists \"", text, "\" with ", t.getActiveNodeCount(), " active nodes");
            }
            std::size_t sum = 0;
            for (std::size_t v = 0; v < nv; ++v) {
                std::size_t a = 0;
                if (!(ss >> a) || a != t.getActiveNodeCount(static_cast<dd::Qubit>(v))) {
                    fail("the table lists \"", text, "\" with ", t.getActiveNodeCount(static_cast<dd::Qubit>(v)), " active nodes on level ", v);
                }
                sum += a;
            }
            if (sum != total) {
                fail("the active nodes of all levels don't sum up: \"", text, "\"");
            }
        };
        for (auto k = 1 + g.below(50); k > 0; --k) {
            switch (g.weighted({12, 2, 2, 2, 1, 2})) {
                case 0: {
                    const auto v = g.below(nv);
                    dd::vEdge  e{t.getNode(), dd::Complex::one};
                    e.p->v = static_cast<dd::Qubit>(v);
                    for (auto& c: e.p->e) {
                        if (v == 0) {
                            c = {dd::vNode::terminal, g.pick(w)};
                        } else if (levels[v - 1].empty() || g.oneIn(3)) {
                            c = dd::vEdge::zero;
                        } else {
                            c = {g.pick(levels[v - 1]).p, g.pick(w)};
                        }
                    }
                    const auto r = t.lookup(e);
                    ++looks;
                    if (stored.count(r.p) != 0) {
                        ++hits;
                    } else {
                        stored.insert(r.p);
                        levels[v].push_back(r);
                    }
                    break;
                }
                case 1: { // terminals aren't looked up
                    t.lookup(dd::vEdge::one);
                    break;
                }
                case 2: {
                    const auto v = g.below(nv);
                    if (!levels[v].empty()) {
                        const auto e = g.pick(levels[v]);
                        t.incRef(e);
                        held.push_back(e);
                    }
                    break;
                }
                case 3: {
                    const bool force = g.flip();
                    const bool runsNow = t.getNodeCount() > 0 && (force || t.possiblyNeedsCollection());
                    t.garbageCollect(force);
                    ++calls;
                    if (runsNow) {
                        ++runs;
                        std::set<dd::vNode*> left;
                        for (auto& l: levels) {
                            l.clear();
                        }
                        for (std::size_t v = 0; v < nv; ++v) {
                            for (auto* p: t.getTables().at(v)) {
                                for (; p != nullptr; p = p->next) {
                                    left.insert(p);
                                    levels[v].push_back({p, dd::Complex::one});
                                }
                            }
                        }
                        stored = left;
                    }
                    break;
                }
                case 4:
                    if (g.oneIn(3)) {
                        t.clear();
                        hits = looks = calls = runs = 0;
                        stored.clear();
                        held.clear();
                        for (auto& l: levels) {
                            l.clear();
                        }
                    }
                    break;
                default: check(); break;
            }
        }
        check();
        if (hits > 0 && looks > hits) {
            g.nontrivial();
        }
    }

    void numbers(Gen& g) {
        using Table = dd::ComplexTable<64, 8, 2, 10>;
        auto   tp   = std::make_unique<Table>();
        auto&  t    = *tp;
        auto   base = t.getStatistics();
        // the table may start with entries of its own
        double looks = static_cast<double>(base.at("lookups"));
        double hits  = static_cast<double>(base.at("hits"));
        double ins   = static_cast<double>(base.at("inserts"));
        double calls = 0, runs = 0;
        auto   check = [&] {
            const auto m = t.getStatistics();
            const auto s = stats(t);
            for (const auto& [printed, name]: std::map<std::string, std::string>{{"hits", "hits"}, {"collisions", "collisions"}, {"looks", "lookups"}, {"inserts", "inserts"}, {"insertCollisions", "insertCollisions"}, {"findOrInserts", "findOrInserts"}, {"upperNeighbors", "upperNeighbors"}, {"lowerNeighbors", "lowerNeighbors"}, {"gc calls", "gcCalls"}, {"gc runs", "gcRuns"}}) {
                const auto it = m.find(name);
                if (it == m.end()) {
                    fail("number table: the statistics don't contain ", name);
                }
                expectStat(s, printed, static_cast<double>(it->second), "printed number table");
            }
            expectStat(s, "looks", looks, "number table");
            expectStat(s, "hits", hits, "number table");
            expectStat(s, "inserts", ins, "number table");
            expectStat(s, "gc calls", calls, "number table");
            expectStat(s, "gc runs", runs, "number table");
            expectRatio(s, "hitRatio", hits, looks, "number table");
            expectRatio(s, "colRatio", s.at("collisions"), looks, "number table");
            if (looks > 0 && (std::abs(t.hitRatio() - hits / looks) > 1e-12 || std::abs(t.colRatio() - s.at("collisions") / looks) > 1e-12)) {
                fail("number table: wrong ratios ", t.hitRatio(), " and ", t.colRatio());
            }
            // dump and distribution
            std::ostringstream dist;
            t.printBucketDistribution(dist);
            std::stringstream ds(dist.str());
            std::string       text;
            {
                Capture c;
                t.print();
                text = c.out.str();
            }
            struct Line {
                double         value;
                std::size_t    key;
                std::uint64_t  ref;
            };
            std::map<std::uintptr_t, Line> listed;
            std::stringstream              ss(text);
            std::string                    line;
            std::size_t                    key = 0;
            while (std::getline(ss, line)) {
                if (line.empty()) {
                    continue;
                }
                if (line[0] != '\t') {
                    key = std::stoul(line);
                    continue;
                }
                std::stringstream ls(line);
                std::string       v;
                std::uintptr_t    p   = 0;
                std::uint64_t     ref = 0;
                ls >> v >> p >> ref;
                if (!listed.emplace(p, Line{std::strtod(v.c_str(), nullptr), key, ref}).second) {
                    fail("the dump of the number table lists an entry twice");
                }
            }
            std::size_t n = 0;
            for (std::size_t k = 0; k < t.getTable().size(); ++k) {
                std::size_t in = 0;
                for (auto* p = t.getTable()[k]; p != nullptr; p = p->next) {
                    ++n;
                    ++in;
                    const auto it = listed.find(reinterpret_cast<std::uintptr_t>(p));
                    if (it == listed.end()) {
                        fail("the dump of the number table lacks ", p->value);
                    }
                    if (it->second.value != p->value || it->second.ref != p->refCount || it->second.key != k) {
                        fail("the dump of the number table shows ", it->second.value, " with ", it->second.ref, " references in bucket ", it->second.key, ", stored is ", p->value, " with ", p->refCount, " in ", k);
                    }
                }
                std::size_t shown = 0;
                if (!(ds >> shown) || shown != in) {
                    fail("bucket ", k, " holds ", in, " entries, shown are ", shown);
                }
            }
            if (n != listed.size() || n != t.getCount()) {
                fail("the number table holds ", n, " entries, reports ", t.getCount(), " and lists ", listed.size());
            }
            std::size_t extra = 0;
            if (ds >> extra) {
                fail("the distribution lists more buckets than there are");
            }
        };
        check();
        for (auto k = 1 + g.below(60); k > 0; --k) {
            switch (g.weighted({14, 2, 1, 2})) {
                case 0: {
                    const double x = g.oneIn(3) ? g.pick({0., 1., S2, 0.5, 0.25}) : g.oneIn(2) ? static_cast<double>(g.below(40)) / 39. : std::abs(static_cast<double>(g.below(64)) + 0.5) / 63. + g.pick({0., 1e-14, -1e-14, 1e-12});
                    const auto   before = t.getCount();
                    auto*        e      = t.lookup(std::abs(x));
                    ++looks;
                    if (t.getCount() > before) {
                        ++ins;
                    } else {
                        ++hits;
                    }
                    if (g.oneIn(3)) {
                        Table::incRef(e);
                    }
                    break;
                }
                case 1: {
                    const bool force = g.flip();
                    const bool full  = t.possiblyNeedsCollection();
                    const auto count = t.getCount();
                    const auto gone  = t.garbageCollect(force);
                    ++calls;
                    // with at most the number it starts with there is nothing to collect: whether that counts is left open
                    const auto now = static_cast<double>(t.getStatistics().at("gcRuns"));
                    if (count > 1 ? now != runs + ((force || full) ? 1 : 0) : (now != runs && now != runs + 1)) {
                        fail("number table: ", runs, " runs before, ", now, " after a ", force ? "forced" : full ? "necessary" : "needless", " collection of ", count, " entries");
                    }
                    if (now == runs && gone != 0) {
                        fail("number table: a collection that didn't run removed ", gone);
                    }
                    runs = now;
                    break;
                }
                case 2:
                    if (g.oneIn(3)) {
                        t.clear();
                        const auto m = t.getStatistics();
                        looks        = static_cast<double>(m.at("lookups"));
                        hits         = static_cast<double>(m.at("hits"));
                        ins          = static_cast<double>(m.at("inserts"));
                        calls = runs = 0;
                        if (looks > 1 || hits > looks || ins > looks + 1) {
                            fail("number table: ", looks, " lookups, ", hits, " hits, ", ins, " inserts are reported right after clearing");
                        }
                        check();
                    }
                    break;
                default: check(); break;
            }
        }
        check();
        if (hits > 0 && ins > 2) {
            g.nontrivial();
        }
    }

    // the statistics of a package are those of its tables
    void package(Gen& g) {
        const int n = g.irange(1, 4);
        auto      pkg = makePkg(2 * n);
        auto&     p   = *pkg;
        for (auto k = 1 + g.below(8); k > 0; --k) {
            const auto v = vecDD(p, genState(g, n));
            const auto u = gateDD(p, genGate(g, n), n);
            switch (g.below(12)) {
                case 9: p.kronecker(v, vecDD(p, genState(g, n))); break;
                case 10: p.kronecker(u, gateDD(p, genGate(g, n), n)); break;
                case 11: {
                    auto r = p.makeZeroDensityOperator(static_cast<dd::QubitCount>(n));
                    p.incRef(r);
                    p.applyOperationToDensity(r, gateDD(p, genGate(g, n), n), true);
                    break;
                }
                case 0: p.multiply(u, v); break;
                case 1: p.multiply(u, gateDD(p, genGate(g, n), n)); break;
                case 2: p.add(v, vecDD(p, genState(g, n))); break;
                case 3: p.add(u, gateDD(p, genGate(g, n), n)); break;
                case 4: p.innerProduct(v, vecDD(p, genState(g, n))); break;
                case 5: p.transpose(u); break;
                case 6: p.conjugateTranspose(u); break;
                case 7: p.garbageCollect(g.flip()); break;
                default:
                    if (g.oneIn(4)) {
                        p.reset();
                    } else {
                        p.incRef(v);
                    }
                    break;
            }
        }
        std::string text;
        std::string info;
        {
            Capture c;
            p.statistics();
            text = c.out.str();
        }
        {
            Capture c;
            Pkg::printInformation();
            info = c.out.str();
        }
        std::map<std::string, std::string> lines;
        {
            std::stringstream ss(text);
            std::string       line;
            while (std::getline(ss, line)) {
                const auto a = line.find('[');
                const auto b = line.find(']');
                if (a != 0 || b == std::string::npos) {
                    continue;
                }
                if (!lines.emplace(line.substr(1, b - 1), line.substr(b + 1)).second) {
                    fail("the statistics list ", line.substr(1, b - 1), " twice");
                }
            }
        }
        auto expect = [&](const std::string& name, auto& table) {
            const auto it = lines.find(name);
            if (it == lines.end()) {
                fail("the statistics lack ", name);
            }
            const auto got  = parse(it->second);
            const auto want = stats(table);
            for (const auto& [k, x]: want) {
                const auto f = got.find(k);
                if (f == got.end() || (f->second != x && !(std::isnan(f->second) && std::isnan(x)))) {
                    fail("the statistics of ", name, " are \"", it->second, "\", the table's ", k, " is ", x);
                }
            }
        };
        expect("vUniqueTable", p.vUniqueTable);
        expect("mUniqueTable", p.mUniqueTable);
        expect("CT Vector Add", p.vectorAdd);
        expect("CT Matrix Add", p.matrixAdd);
        expect("CT Matrix Transpose", p.matrixTranspose);
        expect("CT Conjugate Matrix Transpose", p.conjugateMatrixTranspose);
        expect("CT Matrix Multiplication", p.matrixMatrixMultiplication);
        expect("CT Matrix Vector Multiplication", p.matrixVectorMultiplication);
        expect("CT Inner Product", p.vectorInnerProduct);
        expect("CT Vector Kronecker", p.vectorKronecker);
        expect("CT Matrix Kronecker", p.matrixKronecker);
        expect("Toffoli Table", p.toffoliTable);
        expect("CT Density Add", p.densityAdd);
        expect("CT Density Mul", p.densityDensityMultiplication);
        expect("CT Density Noise", p.densityNoise);
        expect("ComplexTable", p.cn.complexTable);
        auto size = [&](const std::string& name, std::size_t want, std::size_t align) {
            const auto a = info.find("  " + name + " size: ");
            if (a == std::string::npos) {
                fail("the information lacks the size of ", name);
            }
            std::stringstream ss(info.substr(a + name.size() + 9, info.find('\n', a) - a - name.size() - 9));
            std::size_t       x = 0;
            std::size_t       y = 0;
            std::string       bytes;
            std::string       aligned;
            ss >> x >> bytes >> aligned >> y;
            if (x != want || y != align) {
                fail(name, " is said to have ", x, " bytes aligned to ", y, ", it has ", want, " aligned to ", align);
            }
        };
        size("Complex", sizeof(dd::Complex), alignof(dd::Complex));
        size("ComplexValue", sizeof(dd::ComplexValue), alignof(dd::ComplexValue));
        size("ComplexNumbers", sizeof(dd::ComplexNumbers), alignof(dd::ComplexNumbers));
        size("vEdge", sizeof(dd::vEdge), alignof(dd::vEdge));
        size("vNode", sizeof(dd::vNode), alignof(dd::vNode));
        size("mEdge", sizeof(dd::mEdge), alignof(dd::mEdge));
        size("mNode", sizeof(dd::mNode), alignof(dd::mNode));
        size("Package", sizeof(Pkg), alignof(Pkg));
        checkDump(p.vUniqueTable, static_cast<std::size_t>(2 * n), "dump of the vectors");
        checkDump(p.mUniqueTable, static_cast<std::size_t>(2 * n), "dump of the matrices");
        if (p.vUniqueTable.getNodeCount() > 0) {
            g.nontrivial();
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C39",
                      "histories of insertions, lookups, collections and clearing on every kind of table (small ones with many collisions); printed statistics and dumps parsed back and compared with counts kept aside; statistics of packages "
                      "after short programs; non-trivial: some lookups found something and some did not / something is stored",
                      {{"caches", 6, caches}, {"unique", 4, unique}, {"numbers", 4, numbers}, {"package", 1, package}}};
    return p;
}
