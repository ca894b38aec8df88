// Parser for the textual forms of numbers the library prints ("3i/(4√2)", "-2π/3", "0.5(1-i)", "1/2 ℯ(-iπ 3/4)", ...)
#pragma once
#include "ref.hpp"

namespace rf {
    struct NumParser {
        std::string s;
        std::size_t p     = 0;
        bool        exact = true; // only fractions and multiples of pi, no (possibly rounded) plain number
        bool        plain = false;
        explicit NumParser(std::string t):
            s(std::move(t)) {}
        [[noreturn]] void bad(const char* why) const { fail("printed number \"", s, "\" is not well-formed (", why, " at ", p, ")"); }
        bool              eat(const char* t) {
            const auto n = std::strlen(t);
            if (s.compare(p, n, t) == 0) {
                p += n;
                return true;
            }
            return false;
        }
        [[nodiscard]] bool   atDigit() const { return p < s.size() && std::isdigit(static_cast<unsigned char>(s[p])) != 0; }
        double decimal() {
            const char* b = s.c_str() + p;
            char*       e = nullptr;
            if (!atDigit()) {
                bad("digit expected");
            }
            const double v = std::strtod(b, &e);
            const std::string used(b, static_cast<std::size_t>(e - b));
            if (used.find_first_of(".eE") != std::string::npos) {
                exact = false;
            }
            plain = true;
            p += static_cast<std::size_t>(e - b);
            return v;
        }
        // unsigned body of a term; sets `imag` if it contains the imaginary unit
        double body(bool& imag) {
            double v    = 1.;
            bool   some = false;
            plain       = false;
            if (atDigit()) {
                v    = decimal();
                some = true;
            }
            if (eat("π")) {
                v *= 3.14159265358979323846;
                some  = true;
                plain = false;
            }
            if (eat("i")) {
                imag = true;
                some = true;
            }
            if (!some) {
                bad("number expected");
            }
            if (plain && s.compare(p, 1, "/") != 0) {
                exact = false;
            }
            if (eat("/")) {
                if (eat("√2")) {
                    v *= S2;
                } else if (eat("(")) {
                    v /= decimal();
                    if (!eat("√2)")) {
                        bad("√2) expected");
                    }
                    v *= S2;
                } else {
                    v /= decimal();
                }
            }
            return v;
        }
        double sign(bool& present) {
            present = true;
            if (eat("-")) {
                return -1.;
            }
            if (eat("+")) {
                return 1.;
            }
            present = false;
            return 1.;
        }
        C cartesian() {
            C    r{};
            bool present = false;
            bool imag    = false;
            auto sg      = sign(present);
            auto v       = sg * body(imag);
            if (!imag && eat("(1")) {
                const auto s2 = eat("+i)") ? 1. : eat("-i)") ? -1. : (bad("(1+i) or (1-i) expected"), 0.);
                return {v, s2 * v};
            }
            if (imag) {
                return {0., v};
            }
            r = v;
            if (p < s.size()) {
                sg = sign(present);
                if (!present) {
                    bad("sign expected");
                }
                imag = false;
                v    = sg * body(imag);
                if (!imag) {
                    bad("second term is not imaginary");
                }
                r += C{0., v};
            }
            return r;
        }
        C all() {
            const auto r = cartesian();
            if (p != s.size()) {
                bad("end expected");
            }
            return r;
        }
        double real(bool imaginaryExpected) {
            bool       present = false;
            bool       imag    = false;
            const auto sg      = sign(present);
            const auto v       = sg * body(imag);
            if (imag != imaginaryExpected) {
                bad("imaginary unit");
            }
            if (p != s.size()) {
                bad("end expected");
            }
            return v;
        }
        // "0", "1", "i", "-i", "-1", "[mag ]ℯ(±iπ x)", "-mag", "mag"
        C polar() {
            if (s == "0" || s == "1" || s == "-1") {
                return std::strtod(s.c_str(), nullptr);
            }
            if (s == "i" || s == "-i") {
                return {0., s == "i" ? 1. : -1.};
            }
            double mag  = 1.;
            bool   imag = false;
            if (s.compare(0, 3, "ℯ") != 0) {
                bool present = false;
                mag          = sign(present);
                mag *= body(imag);
                if (imag) {
                    bad("imaginary magnitude");
                }
                if (p == s.size()) {
                    return mag;
                }
                if (!eat(" ")) {
                    bad("blank expected");
                }
            }
            if (!eat("ℯ(")) {
                bad("ℯ( expected");
            }
            const double sg = eat("-") ? -1. : 1.;
            if (!eat("iπ")) {
                bad("iπ expected");
            }
            double ph = 1.;
            if (p < s.size() && s[p] == '/') {
                s.insert(p, "1");
                ph = body(imag);
            } else if (eat(" ")) {
                if (s.compare(p, 1, "/") == 0) {
                    s.insert(p, "1");
                }
                ph = body(imag);
            }
            if (imag || !eat(")") || p != s.size()) {
                bad(") expected");
            }
            return std::polar(mag, sg * ph * 3.14159265358979323846);
        }
    };
} // namespace rf
