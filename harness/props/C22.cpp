// C22: complex arithmetic on table, cached and temporary numbers; the cache hands out each number once.
#include "ref.hpp"
using namespace rf;

namespace {
    double genPart(Gen& g) {
        switch (g.below(6)) {
            case 0: return g.pick({0., 1., -1., S2, -S2, 0.5, -0.5});
            case 1: return g.pick({0., 1., S2, -1.}) + TOL * g.real(-2., 2.);
            case 2: return g.real(-2., 2.);
            case 3: return g.real(-1., 1.) * 1e3;
            case 4: return g.real(-1., 1.) * 1e-5;
            default: return g.real(-1., 1.);
        }
    }
    C genC(Gen& g) { return {genPart(g), genPart(g)}; }

    struct Item {
        dd::Complex c;
        C           v;
        bool        cached; // otherwise owned by the number table
    };

    void arithmetic(Gen& g) {
        dd::ComplexNumbers cn;
        std::vector<Item>  items;
        std::size_t        cachedCount = 0;
        auto               verify      = [&](const char* when) {
            for (const auto& it: items) {
                if (val(it.c) != it.v) {
                    fail("a number changed from ", it.v, " to ", val(it.c), " after ", when);
                }
            }
            if (cn.cacheCount() != 2 * cachedCount) {
                fail("cache counts ", cn.cacheCount(), " parts in use, ", 2 * cachedCount, " are, after ", when);
            }
            std::set<const void*> cells;
            for (const auto& it: items) {
                if (it.cached && (!cells.insert(it.c.r).second || !cells.insert(it.c.i).second)) {
                    fail("a cell of the cache is in use twice after ", when);
                }
            }
        };
        auto operand = [&]() -> Item {
            if (items.empty() || g.oneIn(4)) {
                switch (g.below(3)) {
                    case 0: return {dd::Complex::one, 1., false};
                    case 1: return {dd::Complex::zero, 0., false};
                    default: {
                        const auto c = cn.lookup(genC(g));
                        return {c, val(c), false};
                    }
                }
            }
            return g.pick(items);
        };
        const auto steps = 1 + g.below(40);
        for (std::uint64_t s = 0; s < steps; ++s) {
            const auto op = g.weighted({4, 4, 6, 6, 2, 4, 2});
            switch (op) {
                case 0: { // a new cached number
                    const auto v = genC(g);
                    auto       c = g.flip() ? cn.getCached(v.real(), v.imag()) : g.flip() ? cn.getCached(v) : cn.getCached(dd::ComplexValue{v.real(), v.imag()});
                    items.push_back({c, v, true});
                    ++cachedCount;
                    break;
                }
                case 1: {
                    const auto c = cn.lookup(genC(g));
                    items.push_back({c, val(c), false});
                    break;
                }
                case 2:
                case 3: { // operation with a new result, or (possibly aliased) in place
                    const auto x = operand();
                    const auto y = operand();
                    const auto k = g.below(4);
                    C          want;
                    switch (k) {
                        case 0: want = x.v + y.v; break;
                        case 1: want = x.v - y.v; break;
                        case 2: want = x.v * y.v; break;
                        default:
                            if (std::abs(y.v) < 1e-8 || std::abs(x.v) < 1e-8) {
                                continue;
                            }
                            want = x.v / y.v;
                            break;
                    }
                    // numbers within the tolerance are taken for equal, for one, or for zero
                    const double tol = 8 * TOL * (1. + std::abs(x.v)) * (1. + std::abs(y.v)) * (k == 3 ? 1. + std::abs(want) + 1. / std::abs(y.v) : 1.) + 1e-14 * std::abs(want);
                    g.note("op ", k, " on ", x.v, " and ", y.v);
                    std::vector<std::size_t> own;
                    for (std::size_t i = 0; i < items.size(); ++i) {
                        if (items[i].cached) {
                            own.push_back(i);
                        }
                    }
                    dd::Complex r{};
                    if (op == 2 || own.empty()) {
                        r = k == 0 ? cn.addCached(x.c, y.c) : k == 1 ? cn.subCached(x.c, y.c) : k == 2 ? cn.mulCached(x.c, y.c) : cn.divCached(x.c, y.c);
                        items.push_back({r, val(r), true});
                        ++cachedCount;
                    } else {
                        auto& it = items[own[g.below(own.size())]];
                        if (it.c == x.c || it.c == y.c) {
                            g.nontrivial();
                        }
                        auto c = it.c;
                        k == 0 ? cn.add(c, x.c, y.c) : k == 1 ? cn.sub(c, x.c, y.c) : k == 2 ? cn.mul(c, x.c, y.c) : cn.div(c, x.c, y.c);
                        if (c != it.c) {
                            fail("an operation moved its result");
                        }
                        r    = c;
                        it.v = val(r);
                    }
                    if (!close(val(r), want, tol)) {
                        fail("operation ", "+-*/"[k], " on ", x.v, " and ", y.v, " gave ", val(r), ", expected ", want);
                    }
                    if (std::abs(val(r)) > 1e12 || !std::isfinite(std::abs(val(r)))) {
                        throw pb::Discard{};
                    }
                    break;
                }
                case 4: { // unary functions
                    const auto x = operand();
                    if (!close(val(cn.conj(x.c)), std::conj(x.v), 0.) || !close(val(cn.neg(x.c)), -x.v, 0.)) {
                        fail("conjugate or negative of ", x.v, ": ", val(cn.conj(x.c)), ", ", val(cn.neg(x.c)));
                    }
                    if (std::abs(cn.mag(x.c) - std::abs(x.v)) > 1e-13 * (1 + std::abs(x.v)) || std::abs(cn.mag2(x.c) - std::norm(x.v)) > 1e-13 * (1 + std::norm(x.v))) {
                        fail("magnitude of ", x.v, ": ", cn.mag(x.c), ", ", cn.mag2(x.c));
                    }
                    if (std::abs(x.v) > 0 && std::abs(std::polar(cn.mag(x.c), cn.arg(x.c)) - x.v) > 1e-13 * (1 + std::abs(x.v))) {
                        fail("argument of ", x.v, ": ", cn.arg(x.c));
                    }
                    auto c = cn.getTemporary(x.v.real(), x.v.imag());
                    if (val(c) != x.v) {
                        fail("temporary number is ", val(c), " instead of ", x.v);
                    }
                    break;
                }
                case 5: { // return a cached number
                    std::vector<std::size_t> own;
                    for (std::size_t i = 0; i < items.size(); ++i) {
                        if (items[i].cached) {
                            own.push_back(i);
                        }
                    }
                    if (own.empty()) {
                        break;
                    }
                    const auto i = own[g.below(own.size())];
                    cn.returnToCache(items[i].c);
                    items.erase(items.begin() + static_cast<long>(i));
                    --cachedCount;
                    break;
                }
                default: { // many at once: several chunks
                    if (!g.oneIn(8)) {
                        break;
                    }
                    const auto               m = 1000 + g.below(3000);
                    std::vector<dd::Complex> big;
                    for (std::uint64_t k = 0; k < m; ++k) {
                        big.push_back(cn.getCached(static_cast<double>(k), -static_cast<double>(k)));
                    }
                    for (std::uint64_t k = 0; k < m; ++k) {
                        if (val(big[k]) != C(static_cast<double>(k), -static_cast<double>(k))) {
                            fail("cached number ", k, " of ", m, " holds ", val(big[k]));
                        }
                    }
                    if (cn.cacheCount() != 2 * (cachedCount + m) || cn.complexCache.getAllocations() < cn.cacheCount()) {
                        fail("cache counts ", cn.cacheCount(), " parts, ", 2 * (cachedCount + m), " are in use; ", cn.complexCache.getAllocations(), " allocated");
                    }
                    for (auto& c: big) {
                        cn.returnToCache(c);
                    }
                    break;
                }
            }
            verify("an operation");
        }
        if (cachedCount >= 2) {
            g.nontrivial();
        }
        if (g.oneIn(6)) {
            cn.clear();
            if (cn.cacheCount() != 0) {
                fail("clear left ", cn.cacheCount(), " cached numbers");
            }
            auto c = cn.getCached(0.25, 0.75);
            auto d = cn.getCached(0.5, -0.75);
            if (val(c) != C(0.25, 0.75) || val(d) != C(0.5, -0.75)) {
                fail("cached numbers after clear hold ", val(c), " and ", val(d));
            }
        }
    }
    // predicates and values
    void predicates(Gen& g) {
        dd::ComplexNumbers cn;
        const C            x = genC(g);
        const C            y = g.flip() ? C{x.real() + TOL * g.real(-2., 2.), x.imag() + TOL * g.real(-2., 2.)} : genC(g);
        auto               a = cn.getCached(x);
        auto               b = cn.getCached(y);
        const dd::ComplexValue va{x.real(), x.imag()};
        const dd::ComplexValue vb{y.real(), y.imag()};
        g.note(x, " ", y);
        g.nontrivial();
        auto decide = [&](double d, bool got, const char* what) {
            if (d < TOL * 0.999 - 1e-15 * (1 + std::abs(x)) ? !got : d > TOL * 1.001 + 1e-15 * (1 + std::abs(x)) && got) {
                fail(what, " of ", x, " and ", y, " is ", got);
            }
        };
        const double d = std::max(std::abs(x.real() - y.real()), std::abs(x.imag() - y.imag()));
        decide(d, a.approximatelyEquals(b), "approximate equality");
        decide(d, va.approximatelyEquals(vb), "approximate equality of values");
        const double dz = std::max(std::abs(x.real()), std::abs(x.imag()));
        decide(dz, a.approximatelyZero(), "approximately zero");
        decide(dz, va.approximatelyZero(), "approximately zero (value)");
        const double d1 = std::max(std::abs(x.real() - 1.), std::abs(x.imag()));
        decide(d1, a.approximatelyOne(), "approximately one");
        decide(d1, va.approximatelyOne(), "approximately one (value)");
        if ((va == vb) != (x == y) || (va != vb) == (x == y)) {
            fail("exact equality of ", x, " and ", y);
        }
        if (val(va + vb) != x + y) {
            fail("sum of values ", val(va + vb));
        }
        auto vc = va;
        vc += vb;
        if (val(vc) != x + y) {
            fail("sum of values (in place) ", val(vc));
        }
        a.setVal(b);
        if (val(a) != y) {
            fail("setVal gave ", val(a), " instead of ", y);
        }
    }
    // operations on diagrams give back every cached number they took
    void balance(Gen& g) {
        const int n   = g.irange(1, 3);
        auto      pkg = makePkg(2 * n);
        auto&     p   = *pkg;
        auto      m   = matDD(p, genMat(g, n));
        auto      m2  = matDD(p, genMat(g, n));
        auto      v   = vecDD(p, genVec(g, n));
        auto      v2  = vecDD(p, genVec(g, n));
        std::string last = "construction";
        for (auto k = 1 + g.below(12); k > 0; --k) {
            if (p.cn.cacheCount() != 0) {
                fail(last, " kept ", p.cn.cacheCount(), " cached numbers");
            }
            const auto op = g.below(16);
            last          = "operation " + std::to_string(op);
            switch (op) {
                case 0: v = p.multiply(m, v); break;
                case 1: v = p.add(v, v2); break;
                case 2: m = p.multiply(m, m2); break;
                case 3: m = p.add(m, m2); break;
                case 4: m = p.transpose(m); break;
                case 5: m = p.conjugateTranspose(m2); break;
                case 6: p.innerProduct(v, v2); break;
                case 7: p.fidelity(v, v2); break;
                case 8: {
                    std::vector<bool> el(static_cast<std::size_t>(n));
                    for (auto&& b: el) {
                        b = g.flip();
                    }
                    p.partialTrace(m, el);
                    break;
                }
                case 9: p.trace(m); break;
                case 10: p.isCloseToIdentity(m); break;
                case 11:
                    if (!m.isTerminal()) {
                        p.kronecker(m, m2);
                    }
                    break;
                case 12:
                    if (!v.isTerminal()) {
                        p.kronecker(v, v2);
                    }
                    break;
                case 13:
                    if (!v.isTerminal()) {
                        p.getVector(v);
                        std::ostringstream os;
                        p.exportAmplitudes(v, os, static_cast<dd::QubitCount>(n));
                        std::vector<C> out(1ULL << n);
                        p.addAmplitudes(v, out, static_cast<dd::QubitCount>(n));
                        p.getValueByPath(v, g.below(1ULL << n));
                    }
                    break;
                case 14:
                    if (!m.isTerminal()) {
                        p.getMatrix(m);
                        p.getValueByPath(m, g.below(1ULL << n), g.below(1ULL << n));
                    }
                    break;
                default: m = gateDD(p, genGate(g, n), n); break;
            }
            if (maxAbs(readMat(m, n)) > 1e3) {
                m = m2;
            }
            if (norm(readVec(v, n)) > 1e3) {
                v = v2;
            }
            g.nontrivial();
        }
        if (p.cn.cacheCount() != 0) {
            fail(last, " kept ", p.cn.cacheCount(), " cached numbers");
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C22",
                      "random sequences of taking, returning and combining cached, temporary and table numbers (values near 0, 1, sqrt(1/2) and each other; results aliased with operands; thousands of numbers at once) against "
                      "std::complex; predicates near the tolerance; cache balance of every diagram operation; non-trivial: two or more cached numbers alive, aliasing, or any diagram operation",
                      {{"arithmetic", 6, arithmetic}, {"predicates", 2, predicates}, {"balance", 2, balance}}};
    return p;
}
