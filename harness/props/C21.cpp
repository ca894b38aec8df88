// C21: the number table: values within the tolerance share one entry, entries are stable until collected.
#include "ref.hpp"
using namespace rf;

namespace {
    // values worth storing: near special values, near bucket borders, near values already stored
    double genValue(Gen& g, double tol, double buckets, const std::vector<double>& known) {
        auto jitter = [&]() -> double {
            switch (g.below(5)) {
                case 0: return 0.;
                case 1: return tol * g.pick({0.25, -0.25, 0.5, -0.5, 0.9, -0.9, 1.1, -1.1, 1.5, -1.5, 1.9, -1.9, 2.1, -2.1, 3., -3.});
                case 2: return tol * g.real(-3., 3.);
                case 3: return tol * g.real(-30., 30.);
                default: return g.real(-1., 1.) * 1e-4;
            }
        };
        double x = 0.;
        switch (g.below(9)) {
            case 7: // large ones all live in the last bucket
                x = g.pick({1.4e14, 2e14, 1e15, 1e20, 1e300, 1.7e308});
                if (g.oneIn(2)) {
                    x = std::pow(10., g.real(0., 300.));
                }
                break;
            case 0: x = g.pick({0., 1., S2, 0.5, 0.25, 0.125, 0.75, 2., 3., 1e5, 0.35355339059327376}); break;
            case 1: x = (static_cast<double>(g.below(static_cast<std::uint64_t>(buckets))) + 0.5) / buckets + jitter(); break; // bucket border
            case 2: x = (static_cast<double>(g.below(8)) + 0.5) / buckets + jitter(); break;
            case 3: x = static_cast<double>(g.below(static_cast<std::uint64_t>(buckets) + 2)) / buckets + jitter(); break; // bucket centre
            case 4: x = g.real(0., 1.2); break;
            case 5:
            case 6: x = known.empty() ? g.unit() : g.pick(known) + jitter(); break;
            default: x = g.pick({0., 1., S2, 1. - 0.5 / buckets, 0.5, 7., 1e-9, 1e-7}) + jitter(); break;
        }
        return std::abs(x);
    }

    template<class T>
    void model(Gen& g, double buckets, std::uint64_t maxSteps) {
        using Entry = typename T::Entry;
        struct Slot {
            double        v;
            std::uint64_t refs;
            bool          saturated;
        };
        struct Restore {
            double t = T::tolerance();
            ~Restore() { T::setTolerance(t); }
        } restore;
        auto                   table = std::make_unique<T>();
        auto&                  t     = *table;
        std::map<Entry*, Slot> live; // model: what is stored
        std::vector<double>    known;
        double                 tol  = T::tolerance();
        std::size_t            peak  = 0;
        std::size_t            most  = 0;
        const auto             start = t.getAllocations();
        auto sync = [&] { // entries the table starts with
            live.clear();
            for (auto* p: t.getTable()) {
                for (; p != nullptr; p = p->next) {
                    live[p] = {p->value, p->refCount, false};
                }
            }
        };
        sync();
        if (live.size() != t.getCount()) {
            fail("a new table reports ", t.getCount(), " entries and holds ", live.size());
        }
        auto checkAll = [&] {
            for (const auto& [e, s]: live) {
                if (e->value != s.v || e->refCount != s.refs) {
                    fail("entry of ", s.v, " with ", s.refs, " references turned into ", e->value, " with ", e->refCount);
                }
            }
            std::size_t found = 0;
            for (auto* p: t.getTable()) {
                for (; p != nullptr; p = p->next) {
                    if (live.count(p) == 0) {
                        fail("the table holds an entry of value ", p->value, " that should not be there");
                    }
                    if (++found > live.size()) {
                        fail("the table's chains hold an entry twice");
                    }
                }
            }
            if (found != live.size() || t.getCount() != live.size()) {
                fail("the table holds ", found, " entries and reports ", t.getCount(), ", expected ", live.size());
            }
        };
        const auto steps = 1 + g.below(maxSteps);
        bool       merged = false;
        for (std::uint64_t s = 0; s < steps; ++s) {
            switch (g.weighted({30, 4, 3, 1, 1, 1})) {
                case 0: {
                    const auto x = genValue(g, tol, buckets, known);
                    g.note("lookup ", x);
                    // what the model allows
                    std::set<Entry*> certain;
                    std::set<Entry*> possible;
                    const double     eps = 1e-3 * tol + 4e-16 * (1. + x);
                    for (const auto& [e, sl]: live) {
                        const auto d = std::abs(sl.v - x);
                        if (d <= tol - eps || d == 0.) {
                            certain.insert(e);
                        }
                        if (d <= tol + eps) {
                            possible.insert(e);
                        }
                    }
                    const auto before = t.getCount();
                    auto*      e      = t.lookup(x);
                    if (e == nullptr || Entry::isNegativePointer(e)) {
                        fail("lookup of ", x, " returned a bad pointer");
                    }
                    if (!(std::abs(e->value - x) <= tol + eps)) {
                        fail("lookup of ", x, " returned the entry of ", e->value, " (tolerance ", tol, ")");
                    }
                    bool special = false;
                    for (auto* sp: {&T::zero, &T::one, &T::sqrt2_2}) {
                        const auto d = std::abs(sp->value - x);
                        if (d <= tol - eps || d == 0.) {
                            special = true;
                            if (e != sp) {
                                fail("lookup of ", x, " did not return the constant ", sp->value);
                            }
                        } else if (e == sp) {
                            special = true;
                        }
                    }
                    if (special) {
                        if (t.getCount() != before) {
                            fail("lookup of the constant ", x, " created an entry");
                        }
                        break;
                    }
                    if (live.count(e) != 0) {
                        if (possible.count(e) == 0) {
                            fail("lookup of ", x, " returned the entry of ", live[e].v);
                        }
                        if (t.getCount() != before) {
                            fail("lookup of ", x, " found an entry and created one");
                        }
                        merged = merged || live[e].v != x;
                    } else {
                        if (!certain.empty()) {
                            fail("lookup of ", x, " created an entry although ", live[*certain.begin()].v, " is stored (tolerance ", tol, ")");
                        }
                        if (e->value != x || e->refCount != 0 || t.getCount() != before + 1) {
                            fail("lookup of ", x, " created an entry of ", e->value, " with ", e->refCount, " references; count ", before, " -> ", t.getCount());
                        }
                        live[e] = {x, 0, false};
                        known.push_back(x);
                    }
                    peak = std::max(peak, live.size());
                    if (t.lookup(x) != e) {
                        fail("looking up ", x, " twice gave different entries");
                    }
                    break;
                }
                case 1: {
                    if (live.empty()) {
                        break;
                    }
                    auto it = live.begin();
                    std::advance(it, static_cast<long>(g.below(live.size())));
                    auto* e = it->first;
                    if (g.oneIn(12)) { // references that can no longer be counted
                        e->refCount        = std::numeric_limits<dd::RefCount>::max();
                        it->second.refs    = std::numeric_limits<dd::RefCount>::max();
                        it->second.saturated = true;
                    }
                    for (auto k = 1 + g.below(3); k > 0; --k) {
                        T::incRef(g.flip() ? e : Entry::getNegativePointer(e));
                        it->second.refs += it->second.saturated ? 0 : 1;
                    }
                    break;
                }
                case 2: {
                    if (live.empty()) {
                        break;
                    }
                    auto it = live.begin();
                    std::advance(it, static_cast<long>(g.below(live.size())));
                    if (it->second.v == 0.5 && it->second.refs <= 1) {
                        break; // held by the table itself
                    }
                    bool thrown = false;
                    try {
                        T::decRef(g.flip() ? it->first : Entry::getNegativePointer(it->first));
                    } catch (const std::runtime_error&) {
                        thrown = true;
                    }
                    if (thrown != (it->second.refs == 0)) {
                        fail("decRef of an entry with ", it->second.refs, " references ", thrown ? "threw" : "was accepted");
                    }
                    it->second.refs -= (thrown || it->second.saturated) ? 0 : 1;
                    break;
                }
                case 3: { // collection
                    checkAll();
                    const bool force = !g.oneIn(4);
                    const auto need  = t.possiblyNeedsCollection();
                    std::size_t dead = 0;
                    for (const auto& x: live) {
                        dead += x.second.refs == 0 ? 1 : 0;
                    }
                    const auto before = live.size();
                    const auto n      = t.garbageCollect(force);
                    g.note("garbageCollect(", force, ") collected ", n);
                    if (!force && !need) {
                        if (n != 0) {
                            fail("a collection that was not due removed ", n, " entries");
                        }
                        break;
                    }
                    if (before <= 1) {
                        if (n != 0) {
                            sync();
                        }
                        break;
                    }
                    if (n != dead) {
                        fail("collection removed ", n, " entries, ", dead, " of ", before, " are unreferenced");
                    }
                    for (auto it = live.begin(); it != live.end();) {
                        it = it->second.refs == 0 ? live.erase(it) : std::next(it);
                    }
                    if (dead > 0 && !live.empty()) {
                        g.tag("collected");
                    }
                    break;
                }
                case 4: {
                    if (g.oneIn(4)) {
                        g.note("clear");
                        t.clear();
                        sync();
                        if (live.size() > 1 || (live.size() == 1 && live.begin()->second.v != 0.5)) {
                            fail("clear left ", live.size(), " entries");
                        }
                        peak = live.size();
                    }
                    break;
                }
                default: {
                    if (g.oneIn(3)) {
                        tol = g.pick({2.220446049250313e-13, 1e-10, 1e-13, 1e-9, 1e-7, 1e-12});
                        T::setTolerance(tol);
                        g.note("tolerance ", tol);
                    }
                    break;
                }
            }
            if (t.getPeakCount() != peak && t.getPeakCount() < live.size()) {
                fail("peak count ", t.getPeakCount(), " below the number of entries ", live.size());
            }
            if (t.getAllocations() < live.size()) {
                fail("allocations ", t.getAllocations(), " below the number of entries ", live.size());
            }
            most = std::max(most, live.size());
            if (t.getAllocations() > start + (2 + t.getGrowthFactor()) * most) {
                fail(t.getAllocations(), " entries allocated although there were never more than ", most, " (collected ones are not reused)");
            }
            for (const auto& [e, sl]: live) {
                if (Entry::ref(e) != sl.refs || Entry::ref(Entry::getNegativePointer(e)) != sl.refs) {
                    fail("entry ", sl.v, " with ", sl.refs, " references reports ", Entry::ref(e), " and ", Entry::ref(Entry::getNegativePointer(e)));
                }
            }
        }
        checkAll();
        if (T::zero.value != 0. || T::one.value != 1. || T::sqrt2_2.value != dd::SQRT2_2 || T::zero.refCount != 1 || T::one.refCount != 1 || T::sqrt2_2.refCount != 1) {
            fail("a constant of the table was altered");
        }
        if (merged) {
            g.nontrivial();
        }
    }
    void regular(Gen& g) { model<dd::ComplexTable<>>(g, 65536., 60); }
    void small(Gen& g) { model<dd::ComplexTable<65, 4, 2, 16>>(g, 64., 120); }
    void dense(Gen& g) { // all values in a window of a few tolerances around a border
        using T = dd::ComplexTable<65, 4, 2, 16>;
        struct Restore {
            double t = T::tolerance();
            ~Restore() { T::setTolerance(t); }
        } restore;
        T            t;
        const double tol = g.pick({2.220446049250313e-13, 1e-10, 1e-6, 1e-4});
        T::setTolerance(tol);
        const double        border = (static_cast<double>(g.below(64)) + 0.5) / 64.;
        std::vector<double> stored{0.5};
        const auto          n = 2 + g.below(40);
        g.nontrivial();
        for (std::uint64_t k = 0; k < n; ++k) {
            const double x = border + tol * g.real(-8., 8.);
            if (x < 0.) {
                continue;
            }
            bool certain  = false;
            bool possible = false;
            for (const auto y: stored) {
                certain  = certain || std::abs(x - y) <= tol * (1. - 1e-2);
                possible = possible || std::abs(x - y) <= tol * (1. + 1e-2);
            }
            for (const auto y: {0., 1., S2}) {
                if (std::abs(x - y) <= tol * 1.01) {
                    throw pb::Discard{};
                }
            }
            const auto before = t.getCount();
            auto*      e      = t.lookup(x);
            const bool created = t.getCount() != before;
            if (created && certain) {
                fail("lookup of ", x, " created an entry although one within the tolerance is stored");
            }
            if (!created && !possible) {
                fail("lookup of ", x, " (", stored.size(), " values stored) found ", e->value, " although nothing within the tolerance is stored");
            }
            if (!(std::abs(e->value - x) <= tol * 1.01)) {
                fail("lookup of ", x, " returned ", e->value);
            }
            if (created) {
                stored.push_back(x);
            }
        }
    }
    // limits: collection becomes due by itself, and storage grows over many chunks
    void growth(Gen& g) {
        using T = dd::ComplexTable<1025, 8, 2, 64>;
        T                                                  t;
        std::vector<std::pair<typename T::Entry*, double>> keep;
        const auto                                         n    = 1000U + g.below(4000);
        const auto                                         step = 1 + g.below(50);
        const double                                       a    = g.real(0.01, 0.9);
        g.nontrivial();
        for (std::uint64_t k = 0; k < n; ++k) {
            const double x = std::fmod(a * static_cast<double>(k + 1), 1.) * 0.2 + 0.21;
            auto*        e = t.lookup(x);
            if (!(std::abs(e->value - x) <= 1e-12)) {
                fail("lookup of ", x, " returned ", e->value);
            }
            if (k % step == 0) {
                T::incRef(e);
                keep.emplace_back(e, e->value);
            }
            if (k % 701 == 700) {
                t.garbageCollect(g.flip());
            }
            if (t.getAllocations() < t.getCount()) {
                fail("allocations below count");
            }
        }
        for (const auto& [e, v]: keep) {
            if (e->value != v) {
                fail("a referenced entry changed from ", v, " to ", e->value);
            }
            if (t.lookup(v) != e) {
                fail("the entry of ", v, " is no longer found");
            }
        }
    }
    // complex lookup: signs, constants, idempotence
    void signs(Gen& g) {
        dd::ComplexNumbers  cn;
        const double        tol = TOL;
        std::vector<double> known;
        std::vector<std::pair<dd::Complex, C>> seen;
        for (auto k = 1 + g.below(20); k > 0; --k) {
            double r = genValue(g, tol, 65536., known);
            double i = genValue(g, tol, 65536., known);
            if (g.flip()) {
                r = -r;
            }
            if (g.flip()) {
                i = -i;
            }
            known.push_back(std::abs(r));
            known.push_back(std::abs(i));
            g.note("lookup ", C(r, i));
            const auto c = g.flip() ? cn.lookup(r, i) : g.flip() ? cn.lookup(C{r, i}) : g.flip() ? cn.lookup(dd::ComplexValue{r, i}) : cn.lookup(cn.getTemporary(r, i));
            const auto v = val(c);
            if (!(std::abs(v.real() - r) <= tol * 1.01 + 1e-15 * std::abs(r)) || !(std::abs(v.imag() - i) <= tol * 1.01 + 1e-15 * std::abs(i))) {
                fail("lookup of ", C(r, i), " returned ", v);
            }
            for (const auto x: {v.real(), v.imag()}) {
                if (x == 0. && std::signbit(x)) {
                    fail("lookup of ", C(r, i), " returned a negative zero");
                }
            }
            const auto again = cn.lookup(c);
            if (again != c) {
                fail("looking up the result of a lookup of ", C(r, i), " gave another number");
            }
            const auto cc = dd::ComplexNumbers::conj(c);
            const auto nn = dd::ComplexNumbers::neg(c);
            if (val(cc) != std::conj(v) || val(nn) != -v || cn.lookup(cc) != cc || cn.lookup(nn) != nn) {
                fail("conjugate or negative of ", v, " is ", val(cc), " / ", val(nn), " or not the number table's entry");
            }
            if (dd::ComplexNumbers::conj(cc) != c || dd::ComplexNumbers::neg(nn) != c) {
                fail("conjugating or negating ", v, " twice changes it");
            }
            const auto same = cn.lookup(r, i); // the part stored last may be closer to the other one
            if (cn.lookup(-r, -i) != dd::ComplexNumbers::neg(same) || cn.lookup(r, -i) != dd::ComplexNumbers::conj(same)) {
                fail("lookup of the negative or conjugate of ", C(r, i), " is not the negative or conjugate of the lookup");
            }
            if (c.exactlyZero() != (c == dd::Complex::zero) || (std::abs(r) < tol * 0.99 && std::abs(i) < tol * 0.99) > c.exactlyZero()) {
                fail("lookup of ", C(r, i), " and zero disagree");
            }
            if ((std::abs(r - 1.) < tol * 0.99 && std::abs(i) < tol * 0.99) && !c.exactlyOne()) {
                fail("lookup of ", C(r, i), " is not one");
            }
            for (const auto& [d, w]: seen) {
                if (val(d) != w) {
                    fail("an earlier number changed from ", w, " to ", val(d));
                }
            }
            seen.emplace_back(c, v);
            if (r < 0 || i < 0) {
                g.nontrivial();
            }
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C21",
                      "random sequences of lookups (values near constants, bucket borders, stored values at multiples of the tolerance), references, collections, clears and tolerance changes "
                      "on the default table and one with 65 buckets and tiny chunks, against a model set; complex lookups with signs; non-trivial: a lookup merged with a different stored value / a negative part",
                      {{"regular", 40, regular}, {"small", 200, small}, {"dense", 60, dense}, {"signs", 40, signs}, {"growth", 2, growth}}};
    return p;
}
