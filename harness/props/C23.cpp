// C23: serialisation: what is written can be read back, in the same or another package; malformed input is rejected.
#include "inv.hpp"

#include "dd/Export.hpp"

#include <sys/stat.h>
using namespace rf;

namespace {
    // two halves of almost the same magnitude: differences around the tolerance decide which weight is factored out
    C nearTie(Gen& g) {
        const double d = TOL * g.pick({0., 0.25, 0.5, 0.75, 0.9, 1., 1.1, 1.5, 2., 4.}) * (g.flip() ? 1. : -1.);
        return (S2 + d) * std::polar(1., g.pick({0., 1.5707963267948966, 3.14159265358979, 0.7, -2.1}));
    }
    Vec genNearTies(Gen& g, int n) {
        Vec v = {C{1., 0.}};
        for (int i = 0; i < n; ++i) {
            auto       lo = v;
            const auto a  = nearTie(g);
            const auto b  = nearTie(g);
            v             = scale(v, a);
            lo            = scale(g.oneIn(3) ? normalised(genVec(g, i, false)) : lo, b);
            v.insert(v.end(), lo.begin(), lo.end());
        }
        return v;
    }
    std::string scratch() {
        static const std::string dir = [] {
            const char* base = std::getenv("PBT_TMP");
            auto        t    = std::string(base != nullptr ? base : "/tmp") + "/pbtserXXXXXX";
            return std::string(mkdtemp(t.data()));
        }();
        return dir;
    }
    template<class Node, class E>
    E throughFile(Pkg& to, const E& e, bool binary) {
        const auto f = scratch() + "/dd";
        dd::serialize(e, f, binary);
        E r{};
        try {
            r = to.deserialize<Node>(f, binary);
        } catch (...) {
            unlink(f.c_str());
            throw;
        }
        unlink(f.c_str());
        return r;
    }
    template<class Node, class E>
    E roundTrip(Gen& g, Pkg& to, const E& e, bool binary) {
        if (g.oneIn(8)) {
            g.tag("file");
            return throughFile<Node>(to, e, binary);
        }
        std::stringstream ss;
        dd::serialize(e, ss, binary);
        if (!binary) {
            g.note(ss.str());
            if (g.oneIn(4)) { // blank lines and comments are part of the format
                std::string        text;
                std::string        line;
                std::istringstream is(ss.str());
                int                k = 0;
                while (std::getline(is, line)) {
                    text += line;
                    if (k >= 2 && g.flip()) {
                        text += g.flip() ? " # a comment" : "#(0 1)";
                    }
                    text += "\n";
                    if (k >= 1 && g.oneIn(3)) {
                        text += "\n";
                    }
                    ++k;
                }
                ss.str(text);
                g.tag("comments");
            }
        }
        return to.deserialize<Node>(ss, binary);
    }
    void roundTrips(Gen& g) {
        const int n    = g.irange(1, 5);
        auto      from = makePkg(n);
        auto      to   = g.flip() ? makePkg(n) : nullptr;
        auto&     q    = to ? *to : *from;
        bool      clean = true; // no weights near the tolerance so far
        for (auto k = 1 + g.below(3); k > 0; --k) {
            const bool binary = g.flip();
            if (to && g.oneIn(3)) { // something else in the other package
                q.incRef(vecDD(q, genVec(g, n)));
                clean = false;
            }
            if (g.flip()) {
                const auto  kind  = g.weighted({3, 2, 2, 2});
                const auto  v     = kind == 0 ? genVec(g, n, false) : kind == 1 ? genVec(g, n) : kind == 2 ? genNearTies(g, n) : genState(g, n);
                clean             = clean && (kind == 0 || kind == 3);
                const auto  e     = vecDD(*from, v);
                if (e.isTerminal() && !e.w.exactlyZero()) {
                    throw pb::Discard{};
                }
                const auto before = readVec(e, n);
                g.note(binary ? "binary" : "text", to ? ", other package: " : ", same package: ", str(before));
                const auto r = roundTrip<dd::vNode>(g, q, e, binary);
                expectVec(readVec(r, n), before, tolFor(maxAbs(before)), binary ? "vector read from binary" : "vector read from text");
                expectVec(readVec(e, n), before, 0., "serialised vector");
                if (!to && clean && r.p != e.p) {
                    bool clear = true; // weights far from the tolerance
                    for (const auto& x: before) {
                        clear = clear && (x == C{} || std::abs(x) > 1e-3 * maxAbs(before));
                    }
                    if (clear) {
                        fail("reading a vector back into its package gives another node");
                    }
                }
                checkVector(q, r, false);
                if (nonTrivialVec(before)) {
                    g.nontrivial();
                }
            } else {
                const auto  kind  = g.weighted({3, 2, 3, 1});
                Mat         m;
                switch (kind) {
                    case 0: m = genMat(g, std::min(n, 4), false); break;
                    case 1: m = genMat(g, std::min(n, 4)); break;
                    case 2: m = genUnitary(g, std::min(n, 4)); break;
                    default: {
                        m       = Mat(1ULL << std::min(n, 2));
                        for (auto& x: m.a) {
                            x = nearTie(g);
                        }
                    }
                }
                const int  nm = m.n == 2 ? 1 : m.n == 4 ? 2 : m.n == 8 ? 3 : 4;
                clean         = clean && (kind == 0 || kind == 2);
                const auto e  = matDD(*from, m);
                const auto before = readMat(e, nm);
                g.note(binary ? "binary" : "text", to ? ", other package: " : ", same package: ", str(before));
                const auto r = roundTrip<dd::mNode>(g, q, e, binary);
                expectMat(readMat(r, nm), before, tolFor(maxAbs(before)), binary ? "matrix read from binary" : "matrix read from text");
                expectMat(readMat(e, nm), before, 0., "serialised matrix");
                if (!to && clean && kind == 2 && r.p != e.p) {
                    fail("reading a matrix back into its package gives another node");
                }
                checkMatrix(q, r, false);
                if (!e.isTerminal()) {
                    g.nontrivial();
                }
            }
            if (g.oneIn(4)) {
                q.garbageCollect(true);
            }
        }
        if (from->cn.cacheCount() != 0 || q.cn.cacheCount() != 0) {
            fail("serialisation kept cached numbers");
        }
    }
    // a circuit state on more qubits: many shared nodes
    void shared(Gen& g) {
        const int         n    = g.irange(6, 9);
        auto              from = makePkg(n);
        auto              to   = makePkg(n);
        std::vector<Gate> c;
        for (auto k = 4 + g.below(24); k > 0; --k) {
            c.push_back(genGate(g, n));
        }
        auto m = from->makeIdent(static_cast<dd::QubitCount>(n));
        for (const auto& x: c) {
            g.note(str(x));
            if (&x - c.data() < 6) {
                m = from->multiply(gateDD(*from, x, n), m);
            }
        }
        const bool binary = g.flip();
        const auto v      = runCircuit(*from, c, n);
        const auto r      = roundTrip<dd::vNode>(g, *to, v, binary);
        expectVec(readVec(r, n), readVec(v, n), 1e-9, "state of a circuit read back");
        if (from->size(v) != to->size(r)) {
            g.tag("sizes differ");
        }
        const auto rm = roundTrip<dd::mNode>(g, *to, m, binary);
        if (n <= 7) {
            expectMat(readMat(rm, n), readMat(m, n), 1e-9, "matrix of a circuit read back");
        }
        // columns through the other package
        auto zero = from->makeZeroState(static_cast<dd::QubitCount>(n));
        auto zt   = to->makeZeroState(static_cast<dd::QubitCount>(n));
        expectVec(readVec(to->multiply(rm, zt), n), readVec(from->multiply(m, zero), n), 1e-9, "matrix of a circuit, read back and applied");
        g.nontrivial();
    }
    // terminal edges
    void scalars(Gen& g) {
        auto       from = makePkg(1);
        auto       to   = makePkg(1);
        const auto c    = genScalar(g, false);
        const bool bin  = g.flip();
        g.note("scalar ", c);
        const auto w = from->cn.lookup(c);
        g.nontrivial();
        {
            const dd::vEdge e = dd::vEdge::terminal(w);
            const auto      r = roundTrip<dd::vNode>(g, *to, e, bin);
            if (!r.isTerminal() || !close(val(r.w), val(w), 1e-12)) {
                fail("terminal vector edge with weight ", val(w), " is read back with weight ", val(r.w));
            }
        }
        const dd::mEdge e = dd::mEdge::terminal(w);
        const auto      r = roundTrip<dd::mNode>(g, *to, e, bin);
        if (!r.isTerminal() || !close(val(r.w), val(w), 1e-12)) {
            fail("terminal matrix edge with weight ", val(w), " is read back with weight ", val(r.w));
        }
    }
    template<class F>
    void rejects(const std::string& what, F f) {
        try {
            f();
        } catch (const std::exception&) {
            return;
        }
        fail(what, " is accepted");
    }
    // text that does not describe a diagram
    void malformed(Gen& g) {
        const int         n    = g.irange(1, 4);
        auto              from = makePkg(n);
        auto              to   = makePkg(n);
        const bool        vec  = g.flip();
        std::stringstream ss;
        const auto        e  = vecDD(*from, genState(g, n));
        const auto        em = matDD(*from, genUnitary(g, n));
        if (vec) {
            dd::serialize(e, ss, false);
        } else {
            dd::serialize(em, ss, false);
        }
        std::vector<std::string> lines;
        std::string              line;
        while (std::getline(ss, line)) {
            lines.push_back(line);
        }
        if (lines.size() < 3) {
            fail("only ", lines.size(), " lines for ", n, " qubits");
        }
        auto read = [&](bool asVec, const std::string& text) {
            std::istringstream is(text);
            if (asVec) {
                to->deserialize<dd::vNode>(is, false);
            } else {
                to->deserialize<dd::mNode>(is, false);
            }
        };
        auto join = [&] {
            std::string s;
            for (const auto& l: lines) {
                s += l + "\n";
            }
            return s;
        };
        const auto  original = join();
        std::string what;
        bool        asVec = vec;
        const auto  k     = 2 + g.below(lines.size() - 2); // a node line
        switch (g.below(11)) {
            case 0:
                lines[0] = std::to_string(g.pick({0, 2, 3, 10, 11, 100, -1}));
                what     = "version " + lines[0];
                break;
            case 1:
                lines[1] = g.pick(std::vector<std::string>{"x", "abc", "1.0+", "i1", "(1)", "1 2", "1.0.0", "--1", "1j"});
                what     = "root weight " + lines[1];
                break;
            case 2:
                asVec = !vec;
                what  = vec ? "a vector read as a matrix" : "a matrix read as a vector";
                break;
            case 3: { // drop a parenthesis
                std::vector<std::size_t> at;
                for (std::size_t i = 0; i < lines[k].size(); ++i) {
                    if (lines[k][i] == '(' || lines[k][i] == ')') {
                        at.push_back(i);
                    }
                }
                lines[k].erase(g.pick(at), 1);
                what = "line without a parenthesis: " + lines[k];
                break;
            }
            case 4: { // a letter somewhere
                lines[k].insert(g.below(lines[k].size()), 1, g.pick({'x', '?', 'z', '@'}));
                what = "line " + lines[k];
                break;
            }
            case 5: // one more edge
                lines[k] += " ()";
                what = "line with too many edges: " + lines[k];
                break;
            case 6: // one edge less
                lines[k].erase(lines[k].rfind(" ("));
                what = "line with too few edges: " + lines[k];
                break;
            case 7: // cut
                lines[k].erase(lines[k].rfind(')'));
                what = "cut line: " + lines[k];
                break;
            case 8: { // a node is missing
                if (lines.size() < 4) {
                    throw pb::Discard{};
                }
                const auto d = 2 + static_cast<long>(g.below(lines.size() - 3));
                what         = "text without the node " + lines[static_cast<std::size_t>(d)];
                lines.erase(lines.begin() + d);
                break;
            }
            case 9: { // a successor that does not exist
                const auto at = lines[k].find('(', 0);
                auto       p  = lines[k].find_first_of("-0123456789)", at);
                if (lines[k][p] == ')') {
                    p = lines[k].find('(', p) + 1;
                    if (p == 0 || lines[k][p] == ')') {
                        throw pb::Discard{};
                    }
                }
                lines[k].replace(p, lines[k].find(' ', p) - p, std::to_string(g.pick({1000, 77, -3, -4711})));
                what = "reference to an undefined node: " + lines[k];
                break;
            }
            default:
                lines[k] = g.pick(std::vector<std::string>{"not a node", "00", "0 0", "nodes: 0", "-1 0 () ()", "a 0 () ()", "0 b () () () ()"});
                what     = "line " + lines[k];
                break;
        }
        g.note(what);
        rejects(what, [&] { read(asVec, join()); });
        read(vec, original); // and the package still works
        std::istringstream is(original);
        if (vec) {
            expectVec(readVec(to->deserialize<dd::vNode>(is, false), n), readVec(e, n), 1e-9, "vector read after a rejected text");
        } else {
            expectMat(readMat(to->deserialize<dd::mNode>(is, false), n), readMat(em, n), 1e-9, "matrix read after a rejected text");
        }
        // binary: wrong version
        std::stringstream bs;
        if (vec) {
            dd::serialize(e, bs, true);
        } else {
            dd::serialize(em, bs, true);
        }
        auto       bytes = bs.str();
        const auto pos   = g.below(sizeof(dd::SERIALIZATION_VERSION));
        bytes[pos]       = static_cast<char>(bytes[pos] ^ static_cast<char>(1 + g.below(255)));
        std::istringstream b2(bytes);
        rejects("binary version with byte " + std::to_string(pos) + " changed", [&] {
            if (vec) {
                to->deserialize<dd::vNode>(b2, true);
            } else {
                to->deserialize<dd::mNode>(b2, true);
            }
        });
        // files that cannot be opened
        const auto missing = scratch() + "/no/such/file";
        rejects("writing to a missing directory", [&] { dd::serialize(e, missing, g.flip()); });
        rejects("reading a missing file", [&] { to->deserialize<dd::vNode>(missing, g.flip()); });
        g.nontrivial();
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C23",
                      "vectors and matrices of 1-9 qubits (dense, sparse, shared, near ties of two weights, weights near the tolerance, circuits) written as text (with and without comments) or binary, to streams or files, and read "
                      "into the same or another, used package: values, and identity of the node; texts with one corruption; non-trivial: at least two non-zero entries / any corrupted text",
                      {{"roundTrips", 12, roundTrips}, {"shared", 1, shared}, {"scalars", 1, scalars}, {"malformed", 3, malformed}}};
    return p;
}
