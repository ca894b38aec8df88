// C34: the predefined gates are the gates their names say.
#include "ref.hpp"
using namespace rf;

namespace {
    const C I1{0., 1.};
    const G1 PI0 = {1., 0., 0., 1.};
    const G1 PX  = {0., 1., 1., 0.};
    const G1 PY  = {0., C{0., -1.}, C{0., 1.}, 0.};
    const G1 PZ  = {1., 0., 0., -1.};
    double   angle(Gen& g) {
        switch (g.below(4)) {
            case 0: return 3.14159265358979323846 * static_cast<double>(g.irange(-16, 16)) / 8.;
            case 1: return g.real(-1e-3, 1e-3);
            case 2: return g.real(-40., 40.);
            default: return g.real(-3.2, 3.2);
        }
    }
    template<class M>
    M times(const M& a, const M& b);
    template<>
    G1 times(const G1& a, const G1& b) {
        return {a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3]};
    }
    template<>
    G2 times(const G2& a, const G2& b) {
        G2 r{};
        for (std::size_t i = 0; i < 4; ++i) {
            for (std::size_t j = 0; j < 4; ++j) {
                for (std::size_t k = 0; k < 4; ++k) {
                    r[i][j] += a[i][k] * b[k][j];
                }
            }
        }
        return r;
    }
    // exp(-i t H) by its power series, independent of any closed form
    Mat expm(const Mat& h, double t) {
        const double s = std::max(1., std::ceil(std::abs(t) * maxAbs(h) * static_cast<double>(h.n)));
        const auto   x = scale(h, -I1 * t / s);
        auto         r = Mat::ident(h.n);
        auto         p = r;
        for (int k = 1; k < 30; ++k) {
            p = scale(mul(p, x), 1. / k);
            r = add(r, p);
        }
        auto u = Mat::ident(h.n);
        for (int k = 0; k < static_cast<int>(s); ++k) {
            u = mul(u, r);
        }
        return u;
    }
    Mat toMat(const G1& u) {
        Mat m(2);
        std::copy(u.begin(), u.end(), m.a.begin());
        return m;
    }
    Mat toMat(const dd::GateMatrix& u) { return toMat(toG1(u)); }
    Mat toMat(const dd::TwoQubitGateMatrix& u) {
        Mat m(4);
        for (std::size_t i = 0; i < 4; ++i) {
            for (std::size_t j = 0; j < 4; ++j) {
                m(i, j) = val(u[i][j]);
            }
        }
        return m;
    }
    Mat pp(const G1& a, const G1& b) { return kron(toMat(a), toMat(b)); }

    void single(Gen& g) {
        const auto a = angle(g);
        const auto b = angle(g);
        const auto c = angle(g);
        const int  w = g.irange(0, 7);
        Mat        got;
        Mat        want;
        std::string name;
        const auto rz = [&](double t) { return expm(toMat(PZ), t / 2); };
        const auto ry = [&](double t) { return expm(toMat(PY), t / 2); };
        const auto ph = [&](double t) {
            auto m  = Mat::ident(2);
            m(1, 1) = std::exp(I1 * t);
            return m;
        };
        switch (w) {
            case 0:
                name = "RX";
                got  = toMat(dd::RXmat(a));
                want = expm(toMat(PX), a / 2);
                break;
            case 1:
                name = "RY";
                got  = toMat(dd::RYmat(a));
                want = ry(a);
                break;
            case 2:
                name = "RZ";
                got  = toMat(dd::RZmat(a));
                want = rz(a);
                break;
            case 3:
                name = "P";
                got  = toMat(dd::Phasemat(a));
                want = ph(a);
                break;
            case 4:
                name = "U3";
                got  = toMat(dd::U3mat(a, b, c)); // lambda, phi, theta
                want = mul(ph(b), mul(ry(c), ph(a)));
                break;
            case 5:
                name = "U2";
                got  = toMat(dd::U2mat(a, b)); // lambda, phi
                want = mul(ph(b), mul(ry(1.57079632679489661923), ph(a)));
                break;
            default: { // constants, by their defining relations
                const auto k = g.below(13);
                const auto H = scale(add(toMat(PX), toMat(PZ)), 1. / std::sqrt(2.));
                static const std::vector<std::pair<std::string, dd::GateMatrix>> cs = constGates();
                name = cs[k].first;
                got  = toMat(cs[k].second);
                const double pi = std::acos(-1.);
                if (name == "X") want = toMat(PX);
                if (name == "Y") want = toMat(PY);
                if (name == "Z") want = toMat(PZ);
                if (name == "I") want = toMat(PI0);
                if (name == "H") want = H;
                if (name == "S") want = ph(pi / 2);
                if (name == "Sdg") want = ph(-pi / 2);
                if (name == "T") want = ph(pi / 4);
                if (name == "Tdg") want = ph(-pi / 4);
                if (name == "SX") want = mul(H, mul(ph(pi / 2), H));
                if (name == "SXdg") want = mul(H, mul(ph(-pi / 2), H));
                if (name == "V") want = expm(toMat(PX), pi / 4);
                if (name == "Vdg") want = expm(toMat(PX), -pi / 4);
                break;
            }
        }
        g.note(name, "(", a, ", ", b, ", ", c, ")");
        expectMat(got, want, 1e-10, "gate ", name, "(", a, ", ", b, ", ", c, ")");
        if (w < 6) {
            g.nontrivial();
        }
        g.tag(name);
    }
    void two(Gen& g) {
        const auto t = angle(g);
        const auto b = angle(g);
        const int  w = g.irange(0, 7);
        Mat        got;
        Mat        want;
        std::string name;
        // H with exp(-i t/2 H)
        const auto half = [](Mat x, const Mat& y, double s) { return scale(add(x, scale(y, s)), 0.5); };
        const auto frame = [&](const Mat& u, double s) { // conjugation by exp(+-i b/2 Z) on the second qubit
            const auto z = expm(kron(toMat(PI0), toMat(PZ)), s * b / 2);
            return mul(z, mul(u, adjoint(z)));
        };
        switch (w) {
            case 0:
                name = "RXX";
                got  = toMat(dd::RXXmat(t));
                want = expm(pp(PX, PX), t / 2);
                break;
            case 1:
                name = "RYY";
                got  = toMat(dd::RYYmat(t));
                want = expm(pp(PY, PY), t / 2);
                break;
            case 2:
                name = "RZZ";
                got  = toMat(dd::RZZmat(t));
                want = expm(pp(PZ, PZ), t / 2);
                break;
            case 3:
                name = "RZX";
                got  = toMat(dd::RZXmat(t));
                want = expm(pp(PZ, PX), t / 2);
                break;
            case 4:
                name = "XXminusYY";
                got  = toMat(dd::XXMinusYYmat(t, b));
                want = frame(expm(half(pp(PX, PX), pp(PY, PY), -1.), t / 2), -1.);
                break;
            case 5:
                name = "XXplusYY";
                got  = toMat(dd::XXPlusYYmat(t, b));
                want = frame(expm(half(pp(PX, PX), pp(PY, PY), 1.), t / 2), 1.);
                break;
            default: {
                const double pi = std::acos(-1.);
                const auto   cx = [&](bool first) { return first ? gate2(2, 1, 0, {}, {{{1., 0., 0., 0.}, {0., 1., 0., 0.}, {0., 0., 0., 1.}, {0., 0., 1., 0.}}}) : gate2(2, 1, 0, {}, {{{1., 0., 0., 0.}, {0., 0., 0., 1.}, {0., 0., 1., 0.}, {0., 1., 0., 0.}}}); };
                switch (g.below(7)) {
                    case 0:
                        name = "CX";
                        got  = toMat(dd::CXmat);
                        want = cx(true);
                        break;
                    case 1:
                        name = "CZ";
                        got  = toMat(dd::CZmat);
                        want = scale(mul(expm(pp(PZ, PZ), -pi / 4), mul(expm(pp(PZ, PI0), pi / 4), expm(pp(PI0, PZ), pi / 4))), std::exp(I1 * pi / 4.));
                        break;
                    case 2:
                        name = "SWAP";
                        got  = toMat(dd::SWAPmat);
                        want = scale(add(add(pp(PI0, PI0), pp(PX, PX)), add(pp(PY, PY), pp(PZ, PZ))), 0.5);
                        break;
                    case 3:
                        name = "iSWAP";
                        got  = toMat(dd::iSWAPmat);
                        want = expm(add(pp(PX, PX), pp(PY, PY)), -pi / 4);
                        break;
                    case 4:
                        name = "iSWAPinv";
                        got  = toMat(dd::iSWAPinvmat);
                        want = expm(add(pp(PX, PX), pp(PY, PY)), pi / 4);
                        break;
                    case 5:
                        name = "DCX";
                        got  = toMat(dd::DCXmat);
                        want = mul(cx(true), cx(false));
                        break;
                    default:
                        name = "ECR";
                        got  = toMat(dd::ECRmat);
                        want = scale(add(pp(PX, PI0), scale(pp(PY, PX), -1.)), 1. / std::sqrt(2.));
                        break;
                }
                break;
            }
        }
        g.note(name, "(", t, ", ", b, ")");
        expectMat(got, want, 1e-10, "gate ", name, "(", t, ", ", b, ")");
        expectMat(mul(got, adjoint(got)), Mat::ident(4), 1e-10, "gate ", name, "(", t, ", ", b, ") times its adjoint");
        if (w < 6) {
            g.nontrivial();
        }
        g.tag(name);
    }
    // relations between the diagrams of gates
    void relations(Gen& g) {
        const int  n   = g.irange(1, 4);
        auto       pkg = makePkg(n);
        const auto t   = g.irange(0, n - 1);
        const auto cs  = toControls(genControls(g, n, {t}, 2));
        const auto a   = angle(g);
        const auto b   = angle(g);
        const auto mk  = [&](const dd::GateMatrix& m) { return pkg->makeGateDD(m, static_cast<dd::QubitCount>(n), cs, static_cast<dd::Qubit>(t)); };
        const auto rd  = [&](const dd::mEdge& e) { return readMat(e, n); };
        using Rot      = dd::GateMatrix (*)(dd::fp);
        const std::vector<std::pair<std::string, Rot>> rots = {{"RX", &dd::RXmat}, {"RY", &dd::RYmat}, {"RZ", &dd::RZmat}, {"P", &dd::Phasemat}};
        const auto&                                    r    = g.pick(rots);
        g.note(r.first, " with ", a, " and ", b, " on ", t, " of ", n);
        expectMat(rd(pkg->multiply(mk(r.second(a)), mk(r.second(b)))), rd(mk(r.second(a + b))), 1e-9, r.first, "(", a, ") after ", r.first, "(", b, ")");
        expectMat(rd(pkg->conjugateTranspose(mk(r.second(a)))), rd(mk(r.second(-a))), 1e-9, "adjoint of ", r.first, "(", a, ")");
        const std::vector<std::array<dd::GateMatrix, 2>> squares = {{dd::Smat, dd::Zmat}, {dd::Tmat, dd::Smat}, {dd::Sdagmat, dd::Zmat}, {dd::Tdagmat, dd::Sdagmat}, {dd::SXmat, dd::Xmat}, {dd::SXdagmat, dd::Xmat}, {dd::Xmat, dd::Imat}, {dd::Hmat, dd::Imat}, {dd::Ymat, dd::Imat}, {dd::Zmat, dd::Imat}};
        const auto&                                      s       = g.pick(squares);
        const auto                                       sq      = pkg->multiply(mk(s[0]), mk(s[0]));
        expectMat(rd(sq), rd(mk(s[1])), 1e-10, "square of a gate");
        if (std::abs(a + b) > 1e-3) {
            g.nontrivial();
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C34",
                      "predefined and parametrised gate matrices against exponentials of Pauli operators computed by power series, and relations between their diagrams; "
                      "non-trivial: a parametrised gate, or a product with a non-zero total angle",
                      {{"single", 3, single}, {"two", 3, two}, {"relations", 2, relations}}};
    return p;
}
