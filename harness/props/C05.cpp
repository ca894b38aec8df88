// C05: two-qubit gates, plain and controlled, have the documented matrix.
#include "ref.hpp"
using namespace rf;

namespace {
    const C I1{0., 1.};

    G2 zero2() { return G2{}; }
    // t0 (x) t1
    G2 pauliPair(const G1& a, const G1& b) {
        G2 r{};
        for (std::size_t i = 0; i < 4; ++i) {
            for (std::size_t j = 0; j < 4; ++j) {
                r[i][j] = a[2 * (i >> 1U) + (j >> 1U)] * b[2 * (i & 1U) + (j & 1U)];
            }
        }
        return r;
    }
    G2 lin(C x, const G2& a, C y, const G2& b) {
        G2 r{};
        for (std::size_t i = 0; i < 4; ++i) {
            for (std::size_t j = 0; j < 4; ++j) {
                r[i][j] = x * a[i][j] + y * b[i][j];
            }
        }
        return r;
    }
    const G1 PI0 = {1., 0., 0., 1.};
    const G1 PX  = {0., 1., 1., 0.};
    const G1 PY  = {0., C{0., -1.}, C{0., 1.}, 0.};
    const G1 PZ  = {1., 0., 0., -1.};
    G2       rot(double t, const G1& a, const G1& b) { return lin(std::cos(t / 2), pauliPair(PI0, PI0), -I1 * std::sin(t / 2), pauliPair(a, b)); }

    struct Named {
        std::string name;
        int         params;
    };
    const std::vector<Named> NAMES = {{"SWAP", 0}, {"iSWAP", 0}, {"iSWAPinv", 0}, {"DCX", 0}, {"Peres", 0}, {"Peresdag", 0}, {"ECR", 0}, {"RZZ", 1}, {"RXX", 1}, {"RYY", 1}, {"RZX", 1}, {"XXminusYY", 2}, {"XXplusYY", 2}};

    G2 perm(std::array<std::size_t, 4> to, std::array<C, 4> ph = {1., 1., 1., 1.}) { // column j goes to row to[j]
        G2 r{};
        for (std::size_t j = 0; j < 4; ++j) {
            r[to[j]][j] = ph[j];
        }
        return r;
    }
    // states are written |t0 t1>
    G2 reference(const std::string& s, double th, double be) {
        if (s == "SWAP") return perm({0, 2, 1, 3});
        if (s == "iSWAP") return perm({0, 2, 1, 3}, {1., I1, I1, 1.});
        if (s == "iSWAPinv") return perm({0, 2, 1, 3}, {1., -I1, -I1, 1.});
        if (s == "DCX") return perm({0, 2, 3, 1});      // CX(t1->t0), then CX(t0->t1)
        if (s == "Peres") return perm({1, 2, 3, 0});    // CX(t1->t0), then X(t1)
        if (s == "Peresdag") return perm({3, 0, 1, 2}); // X(t1), then CX(t1->t0)
        if (s == "ECR") return lin(S2, pauliPair(PX, PI0), -S2, pauliPair(PY, PX));
        if (s == "RZZ") return rot(th, PZ, PZ);
        if (s == "RXX") return rot(th, PX, PX);
        if (s == "RYY") return rot(th, PY, PY);
        if (s == "RZX") return rot(th, PZ, PX);
        G2           r = zero2();
        const C      f = -I1 * std::polar(1., be) * std::sin(th / 2);
        const C      h = -I1 * std::polar(1., -be) * std::sin(th / 2);
        const double c = std::cos(th / 2);
        if (s == "XXminusYY") {
            r[0][0] = r[3][3] = c;
            r[1][1] = r[2][2] = 1.;
            r[0][3]           = f;
            r[3][0]           = h;
        } else {
            r[0][0] = r[3][3] = 1.;
            r[1][1] = r[2][2] = c;
            r[1][2]           = f;
            r[2][1]           = h;
        }
        return r;
    }

    dd::mEdge build(Pkg& p, const std::string& s, int n, bool ctl, const dd::Controls& c, int a, int b, double th, double be, int start) {
        const auto qn = static_cast<dd::QubitCount>(n);
        const auto t0 = static_cast<dd::Qubit>(a);
        const auto t1 = static_cast<dd::Qubit>(b);
        const auto st = static_cast<std::size_t>(start);
        if (s == "SWAP") return ctl ? p.makeSWAPDD(qn, c, t0, t1, st) : p.makeSWAPDD(qn, t0, t1, st);
        if (s == "iSWAP") return ctl ? p.makeiSWAPDD(qn, c, t0, t1, st) : p.makeiSWAPDD(qn, t0, t1, st);
        if (s == "iSWAPinv") return ctl ? p.makeiSWAPinvDD(qn, c, t0, t1, st) : p.makeiSWAPinvDD(qn, t0, t1, st);
        if (s == "DCX") return ctl ? p.makeDCXDD(qn, c, t0, t1, st) : p.makeDCXDD(qn, t0, t1, st);
        if (s == "Peres") return p.makePeresDD(qn, c, t0, t1, st);
        if (s == "Peresdag") return p.makePeresdagDD(qn, c, t0, t1, st);
        if (s == "ECR") return ctl ? p.makeECRDD(qn, c, t0, t1, st) : p.makeECRDD(qn, t0, t1, st);
        if (s == "RZZ") return ctl ? p.makeRZZDD(qn, c, t0, t1, th, st) : p.makeRZZDD(qn, t0, t1, th, st);
        if (s == "RXX") return ctl ? p.makeRXXDD(qn, c, t0, t1, th, st) : p.makeRXXDD(qn, t0, t1, th, st);
        if (s == "RYY") return ctl ? p.makeRYYDD(qn, c, t0, t1, th, st) : p.makeRYYDD(qn, t0, t1, th, st);
        if (s == "RZX") return ctl ? p.makeRZXDD(qn, c, t0, t1, th, st) : p.makeRZXDD(qn, t0, t1, th, st);
        if (s == "XXminusYY") return ctl ? p.makeXXMinusYYDD(qn, c, t0, t1, th, be, st) : p.makeXXMinusYYDD(qn, t0, t1, th, be, st);
        return ctl ? p.makeXXPlusYYDD(qn, c, t0, t1, th, be, st) : p.makeXXPlusYYDD(qn, t0, t1, th, be, st);
    }
    double angle(Gen& g) { return g.flip() ? dd::PI_4 * static_cast<double>(g.irange(-8, 8)) : g.real(-7., 7.); }

    void twoTargets(Gen& g, int n, int& a, int& b) {
        a = g.irange(0, n - 1);
        b = g.irange(0, n - 2);
        if (b >= a) {
            ++b;
        }
    }

    void named(Gen& g) {
        const int cap  = anySize(g, 2, 6, 8);
        auto      pkg  = makePkg(cap);
        const int reps = 1 + g.irange(0, 2);
        for (int rep = 0; rep < reps; ++rep) {
            const int n = g.irange(2, std::min(cap, cap > 6 ? 7 : 5));
            int       a = 0;
            int       b = 0;
            twoTargets(g, n, a, b);
            const auto& k     = g.pick(NAMES);
            const auto  th    = angle(g);
            const auto  be    = k.params > 1 && g.flip() ? angle(g) : 0.;
            const auto  cs    = g.flip() ? std::vector<Ctrl>{} : genControls(g, n, {a, b}, 3);
            const bool  ctl   = !cs.empty() || g.oneIn(3);
            const int  start  = g.oneIn(3) ? g.irange(0, cap - n) : 0;
            g.note(k.name, "(", th, ",", be, ") on (", a + start, ",", b + start, ")", str(cs), " of ", n, " qubits from ", start, ctl ? " controlled construction" : "");
            auto       abs = cs;
            for (auto& c: abs) {
                c.q += start;
            }
            const auto e = build(*pkg, k.name, n, ctl, toControls(abs), a + start, b + start, th, be, start);
            expectMat(readMat(e, n, start), gate2(n, a, b, cs, reference(k.name, th, be)), 1e-9, k.name, "(", th, ",", be, ") on qubits (", a + start, ",", b + start, ") with controls ", str(cs), " of ", n, " qubits from qubit ", start,
                      ctl ? ", controlled construction" : "");
            if (!cs.empty()) {
                g.nontrivial();
                g.tag("controlled");
            }
            if (start > 0) {
                g.tag("start > 0");
            }
            g.tag(k.name);
        }
    }
    void arbitrary(Gen& g) {
        const int cap  = anySize(g, 2, 6, 8);
        auto      pkg  = makePkg(cap);
        const int reps = 1 + g.irange(0, 2);
        for (int rep = 0; rep < reps; ++rep) {
            const int n = g.irange(2, std::min(cap, cap > 6 ? 7 : 5));
            int       a = 0;
            int       b = 0;
            twoTargets(g, n, a, b);
            const int  start = g.oneIn(3) ? g.irange(0, cap - n) : 0;
            const auto m     = genMat(g, 2);
            G2         u{};
            for (std::size_t i = 0; i < 4; ++i) {
                for (std::size_t j = 0; j < 4; ++j) {
                    u[i][j] = m(i, j);
                }
            }
            g.note(str(m), " on (", a + start, ",", b + start, ") of ", n, " qubits from ", start);
            const auto e = pkg->makeTwoQubitGateDD(fromG2(u), static_cast<dd::QubitCount>(n), static_cast<dd::Qubit>(a + start), static_cast<dd::Qubit>(b + start), static_cast<std::size_t>(start));
            expectMat(readMat(e, n, start), gate2(n, a, b, {}, u), tolFor(4 * maxAbs(m)), "two-qubit gate ", str(m), " on qubits (", a + start, ",", b + start, ") of ", n, " qubits from qubit ", start);
            if (n > 2 && nonTrivialVec(m.a)) {
                g.nontrivial();
            }
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C05",
                      "all named two-qubit gates with random angles on every pair of targets, plain and with up to three positive/negative controls, and arbitrary 4x4 matrices, several per package, "
                      "start offsets for the plain ones; non-trivial: at least one control, or an arbitrary matrix embedded into more than two qubits",
                      {{"named", 3, named}, {"arbitrary", 2, arbitrary}}};
    return p;
}
