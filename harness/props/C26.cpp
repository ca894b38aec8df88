// C26: the DOT export draws exactly the decision diagram; the export of edge weights lists exactly its weights.
#include "numparse.hpp"

#include "dd/Export.hpp"
using namespace rf;

namespace {
    struct Drawn {
        std::string                                id;
        int                                        level = -1;
        std::map<int, std::pair<std::string, bool>> ports; // port -> weight, drawn as zero stub
    };
    struct DrawnEdge {
        std::string from, to, tooltip, label, color, port;
        int         idx = -1;
        double      width = 0;
        bool        dashed = false, hasLabel = false, hasColor = false;
    };
    struct Drawing {
        std::map<std::string, Drawn> nodes;
        std::vector<DrawnEdge>       edges;
    };
    std::string between(const std::string& s, const std::string& a, const std::string& b, std::size_t from, bool& found, std::size_t* end = nullptr) {
        found        = false;
        const auto i = s.find(a, from);
        if (i == std::string::npos) {
            return "";
        }
        const auto j = s.find(b, i + a.size());
        if (j == std::string::npos) {
            return "";
        }
        found = true;
        if (end != nullptr) {
            *end = j;
        }
        return s.substr(i + a.size(), j - i - a.size());
    }
    Drawing parse(const std::string& dot, bool memory) {
        Drawing            d;
        std::istringstream is(dot);
        std::string        l;
        int                roots = 0;
        bool               t = false, closed = false, first = true, f = false;
        while (std::getline(is, l)) {
            if (closed) {
                fail("text after the closing brace: ", l);
            }
            if (first) {
                if (l.compare(0, 8, "digraph ") != 0) {
                    fail("DOT output starts with ", l);
                }
                first = false;
            } else if (l == "}") {
                closed = true;
            } else if (l.compare(0, 6, "root [") == 0) {
                ++roots;
            } else if (l.compare(0, 3, "t [") == 0) {
                t = true;
            } else {
                const auto arrow = l.find("->");
                const auto attr  = l.find('[');
                if (attr == std::string::npos || l.back() != ']') {
                    fail("line ", l);
                }
                if (arrow != std::string::npos && arrow < attr) {
                    DrawnEdge  e;
                    const auto src = l.substr(0, arrow);
                    const auto c   = src.find(':');
                    e.from         = src.substr(0, c);
                    if (c != std::string::npos) {
                        e.idx  = std::stoi(src.substr(c + 1));
                        e.port = src.substr(src.rfind(':') + 1);
                    }
                    e.to      = l.substr(arrow + 2, attr - arrow - 2);
                    e.tooltip = between(l, "tooltip=\"", "\"", attr, f);
                    if (!f) {
                        fail("edge without tooltip: ", l);
                    }
                    e.width    = std::strtod(between(l, "penwidth=\"", "\"", attr, f).c_str(), nullptr);
                    e.color    = between(l, " color=\"", "\"", attr, e.hasColor);
                    if (!e.hasColor) {
                        e.color = between(l, ",color=\"", "\"", attr, e.hasColor);
                    }
                    e.label  = between(l, "&nbsp;", "</font>", attr, e.hasLabel);
                    e.dashed = l.find("style=dashed") != std::string::npos;
                    d.edges.push_back(e);
                } else {
                    Drawn n;
                    n.id = l.substr(0, attr);
                    if (d.nodes.count(n.id) != 0) {
                        fail("node ", n.id, " is defined twice");
                    }
                    std::size_t p = 0;
                    while (true) {
                        std::size_t e    = 0;
                        const auto  port = between(l, "port=\"", "\"", p, f, &e);
                        if (!f) {
                            break;
                        }
                        const auto tip  = between(l, "tooltip=\"", "\"", e, f);
                        const auto cell = between(l, "\">", "</td>", e, f, &p);
                        if (!n.ports.emplace(std::stoi(port), std::make_pair(tip, cell.find("color=\"white\"") == std::string::npos)).second) {
                            fail("port ", port, " appears twice: ", l);
                        }
                    }
                    const auto tip = l.substr(l.rfind("tooltip=\"") + 9);
                    if (!memory) {
                        if (tip[0] != 'q') {
                            fail("node without qubit: ", l);
                        }
                        n.level = std::stoi(tip.substr(1));
                        const auto want = std::to_string(n.level) + "</font></sub>";
                        if (l.find(">" + want) == std::string::npos) {
                            fail("label and tooltip of a node disagree: ", l);
                        }
                    }
                    d.nodes[n.id] = n;
                }
            }
        }
        if (!closed || roots != 1 || !t) {
            fail("incomplete DOT output");
        }
        return d;
    }
    struct Options {
        bool colored, labels, classic, memory, polar;
    };
    void checkWeightText(const std::string& text, const dd::Complex& w, const Options& o) {
        NumParser  p(text);
        const auto v   = !o.memory && o.polar ? p.polar() : p.all();
        const auto tol = o.memory ? 1e-3 : 2e-5;
        if (std::abs(v - val(w)) > tol * (std::abs(val(w)) + 1e-7)) {
            fail("weight ", val(w), " is drawn as \"", text, "\"");
        }
    }
    template<class E>
    bool collisions(const E& e) { // the labels use 20 bits of the address
        std::set<const void*>    seen;
        std::set<std::uintptr_t> low;
        std::size_t              n = 0;
        forEach(e, seen, [&](const auto* p) {
            ++n;
            low.insert((reinterpret_cast<std::uintptr_t>(p) & 0x001fffffU) >> 1U);
        });
        return low.size() != n;
    }
    template<class E, class F>
    void forEach(const E& root, std::set<const void*>& seen, F f) {
        if (root.isTerminal() || !seen.insert(root.p).second) {
            return;
        }
        f(root.p);
        for (const auto& c: root.p->e) {
            forEach(c, seen, f);
        }
    }
    void checkEdgeAttributes(const DrawnEdge& x, const dd::Complex& w, const Options& o) {
        checkWeightText(x.tooltip, w, o);
        const auto width = 3. * std::max(std::abs(val(w)), 0.1);
        if (std::abs(x.width - width) > 1e-4 * width) {
            fail("weight ", val(w), " is drawn with line width ", x.width);
        }
        if (o.colored || o.memory) {
            if (!x.hasColor || x.dashed) {
                fail("coloured edge without colour, or dashed");
            }
            const auto hue  = std::strtod(x.color.c_str(), nullptr);
            auto       want = std::arg(val(w)) / (2 * 3.14159265358979323846);
            auto       diff = std::abs(hue - want - std::round(hue - want));
            if (!(hue >= 0. && hue <= 1.) || diff > 6e-4) {
                fail("phase of ", val(w), " is drawn with colour ", x.color);
            }
        } else if (x.hasColor || x.dashed != !w.approximatelyOne()) {
            fail("edge of weight ", val(w), x.dashed ? " is" : " is not", " dashed");
        }
        if (x.hasLabel != o.labels) {
            fail("edge labels are ", x.hasLabel ? "" : "not ", "drawn");
        }
        if (x.hasLabel && !o.memory && x.label != x.tooltip) {
            fail("label \"", x.label, "\" and tooltip \"", x.tooltip, "\" disagree");
        }
    }
    template<class E>
    void walk(const E& e, const std::string& id, const Drawing& d, std::map<const void*, std::string>& names, std::map<std::string, const void*>& back, const Options& o, std::size_t& used) {
        if (e.isTerminal()) {
            if (id != "t") {
                fail("edge to the terminal is drawn to ", id);
            }
            return;
        }
        if (id == "t") {
            fail("edge to a node is drawn to the terminal");
        }
        auto [it, isNew] = names.emplace(e.p, id);
        if (!isNew) {
            if (it->second != id) {
                fail("a node is drawn under two names");
            }
            return;
        }
        if (!back.emplace(id, e.p).second) {
            fail("two nodes are drawn under one name");
        }
        const auto n = d.nodes.find(id);
        if (n == d.nodes.end()) {
            fail("node ", id, " is not defined");
        }
        if (!o.memory && n->second.level != e.p->v) {
            fail("node of qubit ", static_cast<int>(e.p->v), " is drawn as qubit ", n->second.level);
        }
        for (int i = 0; i < static_cast<int>(e.p->e.size()); ++i) {
            const auto& c    = e.p->e[static_cast<std::size_t>(i)];
            const auto  port = n->second.ports.find(i);
            if (port == n->second.ports.end()) {
                fail("node without port ", i);
            }
            const bool zero = c.w == dd::Complex::zero;
            if (port->second.second != zero) {
                fail("weight ", val(c.w), " is ", zero ? "not " : "", "drawn as a zero stub");
            }
            checkWeightText(port->second.first, c.w, o);
            std::vector<const DrawnEdge*> drawn;
            for (const auto& x: d.edges) {
                if (x.from == id && x.idx == i) {
                    drawn.push_back(&x);
                }
            }
            if (drawn.size() != (zero ? 0U : 1U)) {
                fail("successor ", i, " of weight ", val(c.w), " is drawn ", drawn.size(), " times");
            }
            if (zero) {
                continue;
            }
            ++used;
            checkEdgeAttributes(*drawn[0], c.w, o);
            walk(c, drawn[0]->to, d, names, back, o, used);
        }
        if (n->second.ports.size() != e.p->e.size()) {
            fail("node with ", n->second.ports.size(), " ports");
        }
    }
    template<class E>
    void checkDot(Gen& g, const E& e) {
        if (collisions(e)) {
            throw pb::Discard{};
        }
        const Options o{g.flip(), g.flip(), g.flip(), g.oneIn(4), g.flip()};
        g.note("colored ", o.colored, " labels ", o.labels, " classic ", o.classic, " memory ", o.memory, " polar ", o.polar);
        std::string text;
        if (g.oneIn(8)) {
            const char* base = std::getenv("PBT_TMP");
            const auto  file = std::string(base != nullptr ? base : "/tmp") + "/pbtdot" + std::to_string(getpid()) + ".dot";
            dd::export2Dot(e, file, o.colored, o.labels, o.classic, o.memory, false, o.polar);
            std::ifstream      f(file);
            std::ostringstream ss;
            ss << f.rdbuf();
            text = ss.str();
            f.close();
            unlink(file.c_str());
        } else {
            std::ostringstream os;
            dd::toDot(e, os, o.colored, o.labels, o.classic, o.memory, o.polar);
            text = os.str();
        }
        if (g.tracing) {
            g.note(text);
        }
        const auto                         d = parse(text, o.memory);
        std::map<const void*, std::string> names;
        std::map<std::string, const void*> back;
        std::size_t                        used = 0;
        const DrawnEdge*                   root = nullptr;
        for (const auto& x: d.edges) {
            if (x.from == "root") {
                if (root != nullptr) {
                    fail("two root edges");
                }
                root = &x;
            }
        }
        if (root == nullptr) {
            fail("no root edge");
        }
        checkEdgeAttributes(*root, e.w, o);
        walk(e, root->to, d, names, back, o, used);
        if (d.edges.size() != used + 1 || d.nodes.size() != names.size()) {
            fail(d.edges.size() - 1, " edges and ", d.nodes.size(), " nodes are drawn instead of ", used, " and ", names.size());
        }
        // edge weights
        std::ostringstream ws;
        dd::exportEdgeWeights(e, ws);
        std::multiset<std::string> want;
        auto                       line = [](const dd::Complex& w) {
            std::ostringstream s;
            s << std::showpos << val(w).real() << val(w).imag() << "i";
            return s.str();
        };
        want.insert(line(e.w));
        std::set<const void*> seen;
        forEach(e, seen, [&](const auto* p) {
            for (const auto& c: p->e) {
                if (c.w != dd::Complex::zero) {
                    want.insert(line(c.w));
                }
            }
        });
        std::multiset<std::string> got;
        std::istringstream         is(ws.str());
        std::string                l;
        bool                       first = true;
        while (std::getline(is, l)) {
            if (first && l != line(e.w)) {
                fail("the first weight exported is ", l, " instead of ", line(e.w));
            }
            first = false;
            got.insert(l);
        }
        if (got != want) {
            fail("exported edge weights are not those of the diagram: ", got.size(), " instead of ", want.size(), " lines");
        }
        if (names.size() > 1) {
            g.nontrivial();
        }
    }
    void vectors(Gen& g) {
        const int  n   = g.irange(1, 5);
        auto       pkg = makePkg(n);
        const auto v   = g.flip() ? genVec(g, n, false) : genState(g, n);
        g.note(str(v));
        checkDot(g, vecDD(*pkg, v));
    }
    void matrices(Gen& g) {
        const int  n   = g.irange(1, 4);
        auto       pkg = makePkg(n);
        const auto m   = g.flip() ? genMat(g, n, false) : genUnitary(g, n);
        g.note(str(m));
        checkDot(g, matDD(*pkg, m));
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C26",
                      "vectors (1-5 qubits) and matrices (1-4 qubits) drawn with every combination of options; the text is parsed and compared node by node and edge by edge (weights, widths, colours, labels, zero stubs) with "
                      "the diagram; exported edge weights as a multiset; non-trivial: two or more nodes",
                      {{"vectors", 1, vectors}, {"matrices", 1, matrices}}};
    return p;
}
