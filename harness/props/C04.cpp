// C04: single-target gates with arbitrary positive and negative controls have the documented matrix.
#include "ref.hpp"
#include <set>
using namespace rf;

namespace {
    dd::GateMatrix genGateMatrix(Gen& g, std::string& name) {
        switch (g.weighted({4, 3, 3, 3})) {
            case 0: {
                const auto& c = g.pick(constGates());
                name          = c.first;
                return c.second;
            }
            case 1: {
                name = "U";
                return fromG1(randomUnitary1(g));
            }
            case 2: {
                const double a = g.flip() ? g.real(-7., 7.) : dd::PI_4 * g.irange(-8, 8);
                const double b = g.flip() ? g.real(-7., 7.) : dd::PI_4 * g.irange(-8, 8);
                const double c = g.flip() ? g.real(-7., 7.) : dd::PI_4 * g.irange(-8, 8);
                switch (g.below(6)) {
                    case 0: name = "RX"; return dd::RXmat(a);
                    case 1: name = "RY"; return dd::RYmat(a);
                    case 2: name = "RZ"; return dd::RZmat(a);
                    case 3: name = "P"; return dd::Phasemat(a);
                    case 4: name = "U2"; return dd::U2mat(a, b);
                    default: name = "U3"; return dd::U3mat(a, b, c);
                }
            }
            default: { // arbitrary 2x2 matrix
                name = "M";
                G1 m;
                for (auto& x: m) {
                    x = genScalar(g);
                }
                return fromG1(m);
            }
        }
    }
    double scaleOf(const G1& u) {
        double s = 1.;
        for (const auto& x: u) {
            s = std::max(s, std::abs(x));
        }
        return s;
    }

    void gates(Gen& g) {
        const int cap  = anySize(g, 1, 6, 8);
        auto      pkg  = makePkg(cap);
        const int reps = 1 + g.irange(0, 5);
        for (int rep = 0; rep < reps; ++rep) { // later gates find identities and nodes of earlier ones
            const int   n     = g.irange(1, std::min(cap, cap > 6 ? 7 : 5));
            const int   start = g.below(3) == 2 ? g.irange(0, cap - n) : 0;
            std::string name;
            const auto  gm = genGateMatrix(g, name);
            const int   t  = g.irange(0, n - 1);
            const auto  cs = genControls(g, n, {t});
            auto        abs = cs;
            for (auto& c: abs) {
                c.q += start;
            }
            const auto qn = static_cast<dd::QubitCount>(n);
            const auto qt = static_cast<dd::Qubit>(t + start);
            const auto st = static_cast<std::size_t>(start);
            g.note(name, " on ", t + start, str(abs), " of ", n, " qubits from ", start);
            dd::mEdge e{};
            if (cs.empty() && g.flip()) {
                e = pkg->makeGateDD(gm, qn, qt, st);
            } else if (cs.size() == 1 && g.flip()) {
                e = pkg->makeGateDD(gm, qn, *toControls(abs).begin(), qt, st);
            } else {
                e = pkg->makeGateDD(gm, qn, toControls(abs), qt, st);
            }
            const auto u = toG1(gm);
            expectMat(readMat(e, n, start), gate1(n, t, cs, u), tolFor(scaleOf(u)), "gate ", name, " on qubit ", t + start, " with controls ", str(abs), " of ", n, " qubits from qubit ", start);
            if (!cs.empty()) {
                g.nontrivial();
                if (std::any_of(cs.begin(), cs.end(), [](const Ctrl& c) { return !c.pos; })) {
                    g.tag("negative control");
                }
                if (std::any_of(cs.begin(), cs.end(), [&](const Ctrl& c) { return c.q > t; }) && std::any_of(cs.begin(), cs.end(), [&](const Ctrl& c) { return c.q < t; })) {
                    g.tag("controls on both sides of the target");
                }
            }
            if (start > 0) {
                g.tag("start > 0");
            }
            if (start == 0 && g.oneIn(3)) {
                const auto id = pkg->makeIdent(static_cast<dd::QubitCount>(g.irange(1, n)));
                (void)id;
            }
            if (g.oneIn(6)) {
                pkg->garbageCollect(true);
            }
        }
    }

    // a gate and its inverse cancel, controls on disjoint gates commute
    void cancel(Gen& g) {
        const int  n   = anySize(g, 1, 5, 7);
        auto       pkg = makePkg(n);
        const auto x   = genGate(g, n);
        auto       inv = x;
        inv.u          = {std::conj(x.u[0]), std::conj(x.u[2]), std::conj(x.u[1]), std::conj(x.u[3])};
        g.note(str(x));
        const auto e = pkg->multiply(gateDD(*pkg, inv, n), gateDD(*pkg, x, n));
        expectMat(readMat(e, n), Mat::ident(1ULL << n), 1e-9, "inverse of ", str(x), " after it");
        const auto v = vecDD(*pkg, genState(g, n));
        const auto w = pkg->multiply(gateDD(*pkg, inv, n), pkg->multiply(gateDD(*pkg, x, n), v));
        expectVec(readVec(w, n), readVec(v, n), 1e-9, "inverse of ", str(x), " after it, on a state");
        if (!x.cs.empty()) {
            g.nontrivial();
        }
    }
    // sets of controls: ordered by qubit, then negative before positive; found by qubit
    void controlSets(Gen& g) {
        using namespace dd::literals;
        dd::Controls                 cs;
        std::set<std::pair<int, int>> want;
        for (auto k = g.below(12); k > 0; --k) {
            const int  q   = g.irange(0, 6);
            const bool pos = g.flip();
            const auto u   = static_cast<unsigned long long>(q);
            const auto c   = g.flip() ? (pos ? dd::Control{static_cast<dd::Qubit>(q)} : dd::Control{static_cast<dd::Qubit>(q), dd::Control::Type::neg}) : (pos ? dd::literals::operator""_pc(u) : dd::literals::operator""_nc(u));
            g.note(pos ? "+" : "-", q);
            if (g.oneIn(4)) {
                if (cs.erase(c) != want.erase({q, pos ? 1 : 0})) {
                    fail("removing a control");
                }
            } else if (cs.insert(c).second != want.insert({q, pos ? 1 : 0}).second) {
                fail("a control is ", pos ? "positive" : "negative", " on ", q, ", but insertion disagrees");
            }
        }
        if (cs.size() != want.size()) {
            fail(cs.size(), " controls instead of ", want.size());
        }
        auto it = want.begin();
        for (const auto& c: cs) {
            if (c.qubit != it->first || (c.type == dd::Control::Type::pos) != (it->second == 1)) {
                fail("controls are not in order");
            }
            ++it;
        }
        for (int q = 0; q < 8; ++q) {
            const auto here = want.count({q, 0}) + want.count({q, 1});
            const auto f    = cs.find(static_cast<dd::Qubit>(q));
            if ((f != cs.end()) != (here > 0) || cs.count(static_cast<dd::Qubit>(q)) != here || (f != cs.end() && f->qubit != q)) {
                fail("controls on qubit ", q, ": ", cs.count(static_cast<dd::Qubit>(q)), " found instead of ", here);
            }
        }
        for (const auto& a: cs) {
            for (const auto& b: cs) {
                const bool same = a.qubit == b.qubit && a.type == b.type;
                if ((a == b) != same || (a != b) == same || ((a < b) || (b < a)) == same || ((a < b) && (b < a))) {
                    fail("comparison of controls");
                }
            }
        }
        if (cs.size() > 1) {
            g.nontrivial();
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C04",
                      "sequences of up to six gates per package: constant, parametrised, random unitary and arbitrary 2x2 matrices, every target, up to four positive/negative controls, start offsets, "
                      "identities and garbage collections in between; non-trivial: at least one control",
                      {{"gates", 5, gates}, {"inverse", 1, cancel}, {"controlSets", 1, controlSets}}};
    return p;
}
