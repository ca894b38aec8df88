// C25: printed numbers denote the number; text and binary forms of numbers are read back.
#include "dd/Export.hpp"
#include "numparse.hpp"
using namespace rf;

namespace {
    // multiples of 1, 1/sqrt(2) and pi with small and large denominators, numbers next to them, and arbitrary ones
    double genNumber(Gen& g) {
        double x = 0;
        switch (g.weighted({20, 60, 30, 20, 10, 3})) {
            case 5: // large: traces of wide matrices, sums of many numbers
                x = g.pick({1., 1., S2, 3.14159265358979323846}) * std::pow(g.pick({2., 10.}), static_cast<double>(g.range(8, 70))) * (g.flip() ? 1. : g.real(0.1, 10.));
                if (g.flip()) {
                    x = std::floor(x);
                }
                break;
            case 0: x = g.pick({0., 1., 0.5, S2, 2., 0.25, 3.14159265358979323846, 1.41421356237309504880, 100.}); break;
            case 1: {
                const auto den = g.flip() ? 1 + g.below(16) : 1 + g.below(1100);
                const auto num = g.flip() ? g.below(2 * den + 1) : g.below(40);
                x              = static_cast<double>(num) / static_cast<double>(den) * g.pick({1., S2, 3.14159265358979323846});
                break;
            }
            case 2: x = g.real(0., 2.); break;
            case 3: x = g.real(0., 1.) * std::pow(10., static_cast<double>(g.range(-9, 2))); break;
            default: x = static_cast<double>(g.below(1000)); break;
        }
        if (g.oneIn(4)) {
            x += TOL * g.pick({0.25, 0.5, 0.9, 1.1, 2., 10., 1e4}) * (g.flip() ? 1. : -1.);
        }
        return g.flip() ? -x : x;
    }
    // a fraction, fraction of sqrt(1/2) or of pi with a small denominator: these are printed exactly
    bool simple(double x) {
        if (x > 1e3) { // the spacing of large numbers makes everything look like a fraction
            return false;
        }
        for (const double unit: {1., S2, 3.14159265358979323846}) {
            for (double d = 1.; d <= 64.; d += 1.) {
                if (std::abs(x / unit * d - std::round(x / unit * d)) < 0.4 * TOL) {
                    return true;
                }
            }
        }
        return false;
    }
    // relative accuracy of a printed number: exact forms, or `digits` significant digits
    double allowed(double x, bool exact, int digits) {
        return 4 * TOL * (1 + std::abs(x)) * 4 + (exact ? 0. : std::abs(x) * std::pow(10., 1 - digits));
    }
    void complexNumbers(Gen& g) {
        auto r = genNumber(g);
        auto i = genNumber(g);
        if (g.oneIn(4)) {
            i = r;
        } else if (g.oneIn(5)) {
            i = -r;
        } else if (g.oneIn(6)) {
            i = r + TOL * g.pick({0.5, -0.5, 2., -2.});
        }
        const bool formatted = g.flip();
        const int  precision = g.pick({-1, 3, 6, 12, 16, 17});
        const auto digits    = precision < 0 ? 6 : precision;
        g.note(r, " + ", i, "i, formatted ", formatted, ", precision ", precision);
        const auto s = dd::ComplexValue::toString(r, i, formatted, precision);
        NumParser  p(s);
        const auto v = p.all();
        g.note(s);
        // if both parts are printed as a(1+i), either may be off by the tolerance
        if (formatted && simple(std::abs(r)) && simple(std::abs(i))) {
            p.exact = true;
        }
        if (std::abs(v.real() - r) > allowed(r, p.exact, digits) || std::abs(v.imag() - i) > allowed(i, p.exact, digits)) {
            fail(r, " + ", i, "i is printed as \"", s, "\" (formatted: ", formatted, ", precision ", precision, ")");
        }
        const bool zero = std::abs(r) <= 0.99 * TOL && std::abs(i) <= 0.99 * TOL;
        if (zero && s != "0") {
            fail("zero is printed as \"", s, "\"");
        }
        if (s == "0" && (std::abs(r) > 1.01 * TOL || std::abs(i) > 1.01 * TOL)) {
            fail(r, " + ", i, "i is printed as 0");
        }
        if (!formatted && (s.find('/') != std::string::npos || s.find('(') != std::string::npos)) {
            fail("unformatted number \"", s, "\"");
        }
        if (precision == -1) {
            std::ostringstream os;
            os << dd::ComplexValue{r, i};
            if (os.str() != dd::ComplexValue::toString(r, i)) {
                fail("streaming a value prints \"", os.str(), "\"");
            }
        }
        // numbers of the table print like their values
        auto       pkg = makePkg(1);
        const auto c   = pkg->cn.lookup(r, i);
        if (c.toString(formatted, precision) != dd::ComplexValue::toString(val(c).real(), val(c).imag(), formatted, precision)) {
            fail("table number ", val(c), " is printed as \"", c.toString(formatted, precision), "\"");
        }
        std::ostringstream oc;
        oc << c;
        if (oc.str() != c.toString()) {
            fail("streaming a number prints \"", oc.str(), "\"");
        }
        // simple fractions are recognised
        if (std::abs(r) > TOL || std::abs(i) > TOL) {
            g.nontrivial();
        }
    }
    void realNumbers(Gen& g) {
        const auto         x    = genNumber(g);
        const bool         imag = g.flip();
        std::ostringstream os;
        dd::ComplexValue::printFormatted(os, x, imag);
        g.note(x, " is printed as ", os.str());
        NumParser p(os.str());
        if (std::abs(x) <= 0.99 * TOL) {
            const std::string want = std::string(1, std::signbit(x) ? '-' : '+') + (imag ? "0i" : "0");
            if (os.str() != want) {
                fail("zero is printed as \"", os.str(), "\"");
            }
            return;
        }
        const auto v = p.real(imag);
        if (std::abs(v - x) > allowed(x, p.exact || simple(std::abs(x)), 6)) {
            fail(x, " is printed as \"", os.str(), "\"");
        }
        if (std::signbit(x) != (os.str()[0] == '-')) {
            fail("sign of ", x, " is printed as \"", os.str(), "\"");
        }
        if (imag && !std::signbit(x) && os.str()[0] != '+') {
            fail("imaginary part ", x, " is printed without sign: \"", os.str(), "\"");
        }
        g.nontrivial();
    }
    // fractions
    void fractions(Gen& g) {
        const auto          x   = std::abs(genNumber(g));
        const std::uint64_t mx  = g.pick({1024ULL, 1024ULL, 16ULL, 1ULL, 100ULL, 2048ULL});
        const auto          tol = g.flip() ? TOL : std::pow(10., -static_cast<double>(g.range(3, 12)));
        const auto          f   = dd::ComplexValue::getLowestFraction(x, mx, tol);
        g.note(x, " max ", mx, " tol ", tol, " -> ", f.first, "/", f.second);
        if (f.second > mx) {
            fail("fraction for ", x, " has denominator ", f.second, " > ", mx);
        }
        if (x < 9e18 && x == std::floor(x) && (f.second != 1 || static_cast<double>(f.first) != x)) {
            fail("fraction for the integer ", x, " is ", f.first, "/", f.second);
        }
        std::uint64_t sure  = 0; // smallest denominator that is clearly within the tolerance
        std::uint64_t maybe = 0;
        for (std::uint64_t d = 1; d <= mx && sure == 0; ++d) {
            const auto n   = std::round(x * static_cast<double>(d));
            const auto err = std::abs(x - n / static_cast<double>(d));
            if (err <= tol - 4e-16 * (1 + x)) {
                sure = d;
            }
            if (maybe == 0 && err <= tol + 4e-16 * (1 + x)) {
                maybe = d;
            }
        }
        const auto err = f.second == 0 ? 1e300 : std::abs(x - static_cast<double>(f.first) / static_cast<double>(f.second));
        if (sure != 0) {
            if (err > tol + 4e-16 * (1 + x)) {
                fail("fraction ", f.first, "/", f.second, " for ", x, ", but denominator ", sure, " suffices");
            }
            if (x > tol && maybe == sure && f.second != sure) {
                fail("fraction ", f.first, "/", f.second, " for ", x, " does not have the smallest denominator ", sure);
            }
            g.nontrivial();
        }
        if (f.second == 0) {
            fail("fraction for ", x, " has denominator zero");
        }
    }
    // text and binary forms
    void readBack(Gen& g) {
        const auto        r = genNumber(g);
        const auto        i = genNumber(g);
        std::stringstream bs;
        dd::ComplexValue  v{r, i};
        v.writeBinary(bs);
        auto             pkg = makePkg(1);
        const auto       c   = pkg->cn.lookup(r, i);
        c.writeBinary(bs);
        dd::ComplexValue w{};
        w.readBinary(bs);
        if (w != v) {
            fail("binary form of ", r, " + ", i, "i is read as ", w.r, " + ", w.i, "i");
        }
        w.readBinary(bs);
        if (w.r != val(c).real() || w.i != val(c).imag()) {
            fail("binary form of the table number ", val(c), " is read as ", w.r, " + ", w.i, "i");
        }
        std::ostringstream rs;
        std::ostringstream is;
        rs.precision(17);
        is.precision(17);
        double wantR = r;
        double wantI = i;
        if (g.oneIn(5)) {
            wantR = 0.;
        } else {
            rs << r;
        }
        switch (g.below(5)) {
            case 0: wantI = 0.; break;
            case 1:
                wantI = 1.;
                is << g.pick(std::vector<std::string>{"+i", " + i", "+ i"});
                break;
            case 2:
                wantI = -1.;
                is << g.pick(std::vector<std::string>{"-i", " - i", "- i"});
                break;
            default: is << (std::signbit(i) ? "" : g.flip() ? "+" : " + ") << i << "i"; break;
        }
        g.note("\"", rs.str(), "\" \"", is.str(), "\"");
        w.fromString(rs.str(), is.str());
        if (w.r != wantR || w.i != wantI) {
            fail("\"", rs.str(), "\", \"", is.str(), "\" is read as ", w.r, " + ", w.i, "i");
        }
        g.nontrivial();
    }
    // labels of edges: magnitude and phase
    void polarNumbers(Gen& g) {
        constexpr double pi  = 3.14159265358979323846;
        const auto       mag = g.oneIn(3) ? 1. + (g.oneIn(4) ? TOL * g.pick({0.5, -0.5, 3., -3.}) : 0.) : std::abs(genNumber(g));
        auto             ph  = genNumber(g); // in units of pi
        if (g.oneIn(3)) {
            ph = static_cast<double>(1 + g.below(12)) / static_cast<double>(1 + g.below(12)) * g.pick({1., S2, pi});
        }
        ph      = std::remainder(ph, 2.);
        auto pkg = makePkg(1);
        const auto z = std::polar(mag, ph * pi);
        const auto c = pkg->cn.lookup(z.real(), z.imag());
        const auto w = val(c);
        const auto s = dd::conditionalFormat(c);
        g.note(w, ": ", s);
        NumParser  p(s);
        const auto v = p.polar();
        // six digits of magnitude and of the phase (in units of pi)
        if (std::abs(v - w) > 1.1e-5 * (1. + pi) * std::max(std::abs(w), TOL) + 8 * TOL) {
            fail(w, " is labelled \"", s, "\", which is ", v);
        }
        if (std::abs(std::abs(w) - 1.) < 0.5 * TOL && std::abs(w.imag()) < 0.5 * TOL && s != (w.real() > 0. ? "1" : "-1")) {
            fail(w, " is labelled \"", s, "\"");
        }
        if (dd::conditionalFormat(c, false) != c.toString()) {
            fail(w, " is labelled \"", dd::conditionalFormat(c, false), "\" and printed as ", c.toString());
        }
        if (std::abs(dd::thicknessFromMagnitude(c) - 3. * std::max(std::abs(w), 0.1)) > 1e-9 * (1. + std::abs(w))) {
            fail(w, " is drawn with thickness ", dd::thicknessFromMagnitude(c));
        }
        std::istringstream hsv(dd::colorFromPhase(c));
        double             hue = -1., sat = 0., value = 0.;
        hsv >> hue >> sat >> value;
        const auto turns = std::arg(w) / (2. * pi);
        if (!hsv || hue < 0. || hue > 1. || std::abs(std::remainder(hue - turns, 1.)) > 0.00051 || sat != 0.667 || value != 0.75) {
            fail(w, " is drawn in the colour \"", dd::colorFromPhase(c), "\"");
        }
        if (std::abs(w) > TOL) {
            g.nontrivial();
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C25",
                      "complex and real numbers (multiples of 1, 1/sqrt2, pi with denominators up to 1100, numbers next to them, arbitrary ones of magnitude 1e-9..1e3, equal or opposite parts) printed with every option and "
                      "parsed by an independent parser; fractions against brute force; labels by magnitude and phase; text and binary forms; non-trivial: anything that is not zero",
                      {{"complexNumbers", 4, complexNumbers}, {"realNumbers", 3, realNumbers}, {"fractions", 2, fractions}, {"readBack", 1, readBack}, {"polarNumbers", 3, polarNumbers}}};
    return p;
}
