// C02: basis and product states; requests beyond the capacity of a package are rejected.
#include "ref.hpp"
using namespace rf;

namespace {
    dd::BasisStates kind(std::size_t k) {
        static const std::array<dd::BasisStates, 6> a = {dd::BasisStates::zero, dd::BasisStates::one, dd::BasisStates::plus, dd::BasisStates::minus, dd::BasisStates::left, dd::BasisStates::right};
        return a[k];
    }
    Vec factor(dd::BasisStates s) {
        switch (s) {
            case dd::BasisStates::zero: return {1., 0.};
            case dd::BasisStates::one: return {0., 1.};
            case dd::BasisStates::plus: return {S2, S2};
            case dd::BasisStates::minus: return {S2, -S2};
            case dd::BasisStates::right: return {S2, C{0., S2}};
            default: return {S2, C{0., -S2}};
        }
    }

    void states(Gen& g) {
        const int cap = g.irange(1, 9);
        auto      pkg = makePkg(cap);
        const int reps = 1 + g.irange(0, 3);
        for (int rep = 0; rep < reps; ++rep) {
            const int   n     = g.irange(1, std::min(cap, 7));
            const int   start = g.oneIn(3) ? g.irange(0, cap - n) : 0;
            std::string desc;
            Vec         want{1.};
            dd::vEdge   e{};
            switch (g.below(3)) {
                case 0: {
                    e    = pkg->makeZeroState(static_cast<dd::QubitCount>(n), static_cast<std::size_t>(start));
                    want = Vec(1ULL << n, C{});
                    want[0] = 1.;
                    desc    = "zero state";
                    break;
                }
                case 1: {
                    std::vector<bool> b;
                    for (int q = 0; q < n + start + (g.oneIn(4) ? 1 : 0); ++q) {
                        b.push_back(g.flip());
                    }
                    for (int q = start; q < n + start; ++q) {
                        want = kron(b[static_cast<std::size_t>(q)] ? Vec{0., 1.} : Vec{1., 0.}, want);
                        desc += b[static_cast<std::size_t>(q)] ? "1" : "0";
                    }
                    e = pkg->makeBasisState(static_cast<dd::QubitCount>(n), b, static_cast<std::size_t>(start));
                    if (n > 1) {
                        g.nontrivial();
                    }
                    break;
                }
                default: {
                    std::vector<dd::BasisStates> b;
                    for (int q = 0; q < n + start + (g.oneIn(4) ? 1 : 0); ++q) {
                        b.push_back(kind(g.below(6)));
                    }
                    for (int q = start; q < n + start; ++q) {
                        want = kron(factor(b[static_cast<std::size_t>(q)]), want);
                        desc += std::to_string(static_cast<int>(b[static_cast<std::size_t>(q)]));
                    }
                    e = pkg->makeBasisState(static_cast<dd::QubitCount>(n), b, static_cast<std::size_t>(start));
                    if (n > 1) {
                        g.nontrivial();
                    }
                    break;
                }
            }
            if (start > 0) {
                g.tag("start > 0");
            }
            g.note(n, " qubits from ", start, ": ", desc);
            expectVec(readVec(e, n, start), want, 1e-10, "state ", desc, " on ", n, " qubits from qubit ", start);
            if (start == 0) {
                const auto got = pkg->getVector(e);
                expectVec(Vec(got.begin(), got.end()), want, 1e-10, "getVector of state ", desc);
            }
            if (g.oneIn(4)) { // operations in between
                const auto x = genGate(g, n);
                if (start == 0) {
                    const auto f = pkg->multiply(gateDD(*pkg, x, n), e);
                    expectVec(readVec(f, n), mul(matOf(x, n), want), 1e-9, str(x), " on ", desc);
                }
            }
        }
    }

    template<class F>
    bool throwsRuntime(F f) {
        try {
            f();
        } catch (const std::runtime_error&) {
            return true;
        }
        return false;
    }

    void capacity(Gen& g) {
        const int  cap   = g.irange(0, 6);
        auto       pkg   = makePkg(cap);
        int        cur   = cap;
        if (g.oneIn(3)) {
            cur = g.irange(0, 8);
            pkg->resize(static_cast<std::size_t>(cur));
        }
        if (static_cast<int>(pkg->qubits()) != cur) {
            fail("qubits() is ", pkg->qubits(), " after asking for ", cur);
        }
        const int n     = g.irange(1, 9);
        const int start = g.irange(0, 3);
        const bool fits = n + start <= cur;
        const auto qn   = static_cast<dd::QubitCount>(n);
        const auto st   = static_cast<std::size_t>(start);
        bool       thrown = false;
        const char* what  = "";
        switch (g.below(5)) {
            case 0:
                what   = "makeZeroState";
                thrown = throwsRuntime([&] { pkg->makeZeroState(qn, st); });
                break;
            case 1:
                what   = "makeBasisState(bool)";
                thrown = throwsRuntime([&] { pkg->makeBasisState(qn, std::vector<bool>(static_cast<std::size_t>(n + start), true), st); });
                break;
            case 2:
                what   = "makeBasisState(BasisStates)";
                thrown = throwsRuntime([&] { pkg->makeBasisState(qn, std::vector<dd::BasisStates>(static_cast<std::size_t>(n + start), dd::BasisStates::plus), st); });
                break;
            case 3:
                what   = "makeGateDD";
                thrown = throwsRuntime([&] { pkg->makeGateDD(dd::Hmat, qn, static_cast<dd::Qubit>(start + g.irange(0, n - 1)), st); });
                break;
            default:
                if (n < 2) {
                    throw pb::Discard{};
                }
                what   = "makeTwoQubitGateDD";
                thrown = throwsRuntime([&] { pkg->makeSWAPDD(qn, static_cast<dd::Qubit>(start), static_cast<dd::Qubit>(start + n - 1), st); });
                break;
        }
        g.note(what, " with ", n, " qubits from ", start, " in a package of ", cur);
        if (thrown == fits) {
            fail(what, " with ", n, " qubits starting at ", start, " in a package for ", cur, fits ? " was rejected" : " was accepted");
        }
        if (!fits) {
            g.nontrivial();
        }
    }

    void insufficient(Gen& g) {
        auto       pkg = makePkg(6);
        const int  n     = g.irange(1, 6);
        const int  start = g.oneIn(3) ? g.irange(0, 6 - n) : 0;
        const int  k     = g.irange(0, 8);
        const bool bits  = g.flip();
        const auto qn    = static_cast<dd::QubitCount>(n);
        const auto sz    = static_cast<std::size_t>(k);
        g.note(k, bits ? " bits" : " states", " for ", n, " qubits from ", start);
        // the states are indexed by the qubit, so those below the start have to be there as well
        const bool thrown = throwsRuntime([&] {
            if (bits) {
                pkg->makeBasisState(qn, std::vector<bool>(sz, true), static_cast<std::size_t>(start));
            } else {
                pkg->makeBasisState(qn, std::vector<dd::BasisStates>(sz, dd::BasisStates::one), static_cast<std::size_t>(start));
            }
        });
        if (thrown != (k < n + start)) {
            fail(k, bits ? " given bits" : " given qubit states", " for ", n, " qubits from ", start, ": ", thrown ? "rejected" : "accepted");
        }
        if (k < n + start) {
            g.nontrivial();
        }
        // package sizes
        const auto nq  = static_cast<std::size_t>(g.irange(120, 140));
        bool       inv = false;
        try {
            if (g.flip()) {
                pkg->resize(nq);
            } else {
                const Pkg big(nq);
            }
        } catch (const std::invalid_argument&) {
            inv = true;
        }
        if (inv != (nq > 128)) {
            fail("a package for ", nq, " qubits was ", inv ? "rejected" : "accepted");
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C02",
                      "basis states from bit vectors and from the six named single-qubit states, zero states, with and without a start offset, followed by gates; requests around the capacity of the package; "
                      "non-trivial: a state of at least two qubits, or a request that must be rejected",
                      {{"states", 6, states}, {"capacity", 2, capacity}, {"insufficient", 1, insufficient}}};
    return p;
}
