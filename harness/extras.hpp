// Operations beyond those of hist.hpp's programs: sizes, exports, files, measurements, density matrices, reductions, transfers.
#pragma once
#include "dd/Export.hpp"
#include "hist.hpp"

#include <exception>

namespace rf {
    struct Extras {
        int               n;
        std::vector<Gate> noise;
    };
    struct Outcome {
        std::vector<Vec>         out;
        std::vector<std::string> text;
        std::exception_ptr       error;
    };
    template<class E>
    inline std::string dotOf(const E& e, int opts) {
        std::ostringstream os;
        dd::toDot(e, os, (opts & 1) != 0, (opts & 2) != 0, (opts & 4) != 0, false, (opts & 4) != 0);
        return os.str();
    }
    inline std::size_t lines(const std::string& s) {
        return static_cast<std::size_t>(std::count(s.begin(), s.end(), '\n'));
    }
    inline void extra(Pkg& p, Exec& ex, const Extras& j, int k, Outcome& o) {
        if (ex.vs.empty()) {
            return;
        }
        const auto& v = ex.vs[static_cast<std::size_t>(k) % ex.vs.size()];
        switch (k % 22) {
            case 0:
                o.out.push_back({C{static_cast<double>(p.size(v)), 0.}});
                if (!ex.ms.empty()) {
                    o.out.push_back({C{static_cast<double>(p.size(ex.ms.back())), 0.}});
                }
                break;
            case 1:
                o.out.push_back({C{static_cast<double>(lines(dotOf(v, k / 22))), 0.}}); // the labels are addresses
                if (!ex.ms.empty()) {
                    o.out.push_back({C{static_cast<double>(lines(dotOf(ex.ms.back(), k / 22))), 0.}});
                }
                break;
            case 2: {
                std::stringstream ss;
                dd::serialize(v, ss, (k / 22 & 1) != 0);
                o.out.push_back(readVec(p.deserialize<dd::vNode>(ss, (k / 22 & 1) != 0), j.n));
                break;
            }
            case 3:
                if (!ex.ms.empty()) {
                    std::stringstream ss;
                    dd::serialize(ex.ms.back(), ss, (k / 22 & 1) != 0);
                    o.out.push_back(readMat(p.deserialize<dd::mNode>(ss, (k / 22 & 1) != 0), j.n).a);
                }
                break;
            case 4: {
                std::ostringstream os;
                os << dd::ComplexValue{static_cast<double>(k) / 7., -dd::SQRT2_2} << ' ' << v.w << ' ' << dd::Complex{v.w}.toString(true, 5);
                o.text.push_back(os.str());
                break;
            }
            case 5: {
                std::mt19937_64 mt(static_cast<std::uint64_t>(k));
                const auto      r = readVec(v, j.n);
                if (std::abs(norm(r) - 1.) < 1e-9) {
                    const auto [p0, p1] = p.determineMeasurementProbabilities(v, 0, true);
                    o.out.push_back({C{p0, p1}});
                }
                break;
            }
            case 6: { // a density matrix
                auto rho = p.makeZeroDensityOperator(static_cast<dd::QubitCount>(j.n));
                p.incRef(rho);
                for (const auto& x: j.noise) {
                    const auto u = gateDD(p, x, j.n);
                    p.applyOperationToDensity(rho, u, (k / 22 & 1) != 0);
                }
                const auto m = p.getDensityMatrix(rho);
                Vec        flat;
                for (const auto& row: m) {
                    flat.insert(flat.end(), row.begin(), row.end());
                }
                o.out.push_back(flat);
                dd::dEdge::alignDensityEdge(rho);
                p.decRef(rho);
                break;
            }
            case 7:
                o.out.push_back(readVec(p.deleteEdge(v, static_cast<dd::Qubit>(k % j.n), static_cast<std::size_t>(k / 22 % 2)), j.n));
                if (!ex.ms.empty()) {
                    std::vector<bool> elim(static_cast<std::size_t>(j.n), false);
                    elim[static_cast<std::size_t>(k % j.n)] = true;
                    o.out.push_back(readMat(p.partialTrace(ex.ms.back(), elim), j.n - 1).a);
                }
                break;
            case 8: {
                std::vector<std::complex<dd::fp>> amps(1ULL << j.n);
                p.exportAmplitudes(v, amps, static_cast<dd::QubitCount>(j.n));
                o.out.emplace_back(amps.begin(), amps.end());
                std::ostringstream os;
                p.exportAmplitudes(v, os, static_cast<dd::QubitCount>(j.n), false);
                o.text.push_back(os.str());
                break;
            }
            case 9:
                o.out.push_back(readVec(p.kronecker(v, ex.vs.back()), 2 * j.n));
                if (!ex.ms.empty()) {
                    std::vector<bool> anc(static_cast<std::size_t>(j.n), false);
                    anc[static_cast<std::size_t>(k % j.n)] = true;
                    auto m = ex.ms.back();
                    p.incRef(m);
                    const auto r = p.reduceAncillae(m, anc);
                    o.out.push_back(readMat(r, j.n).a);
                    p.decRef(r);
                }
                break;
            case 10: {
                std::ostringstream os;
                dd::exportEdgeWeights(v, os);
                o.out.push_back({C{static_cast<double>(lines(os.str())), 0.}});
                break;
            }
            case 11:
                o.out.push_back({C{p.isCloseToIdentity(ex.ms.empty() ? p.makeIdent(static_cast<dd::QubitCount>(j.n)) : ex.ms.back()) ? 1. : 0., 0.}});
                break;
            case 12:
                o.out.push_back(readVec(ex.vs.back(), j.n));
                if (const auto r = readVec(v, j.n); std::abs(norm(r) - 1.) < 1e-9) {
                    std::mt19937_64 mt(static_cast<std::uint64_t>(k));
                    auto            e = v;
                    p.incRef(e);
                    const auto c = p.measureOneCollapsing(e, static_cast<dd::Qubit>(k % j.n), true, mt);
                    o.out.push_back({C{c == '1' ? 1. : 0., 0.}});
                    o.out.push_back(readVec(e, j.n));
                    p.decRef(e);
                }
                break;
            case 13: { // what is reduced must be referenced, and the result is
                std::vector<bool> garbage(static_cast<std::size_t>(j.n), false);
                garbage[static_cast<std::size_t>(k % j.n)] = true;
                auto e = v;
                p.incRef(e);
                const auto r = p.reduceGarbage(e, garbage);
                o.out.push_back(readVec(r, j.n));
                p.decRef(r);
                if (!ex.ms.empty()) {
                    auto m = ex.ms.back();
                    p.incRef(m);
                    const auto q = p.reduceGarbage(m, garbage, (k / 22 & 1) != 0);
                    o.out.push_back(readMat(q, j.n).a);
                    p.decRef(q);
                }
                break;
            }
            case 14:
                if (!ex.ms.empty() && !ex.ms.back().isTerminal() && !v.isTerminal()) {
                    const auto r = readVec(v, j.n);
                    const auto m = readMat(ex.ms.back(), j.n);
                    bool       h = true;
                    for (std::size_t i = 0; i < m.n; ++i) {
                        for (std::size_t l = 0; l <= i; ++l) {
                            h = h && std::abs(m(i, l) - std::conj(m(l, i))) < 1e-12;
                        }
                    }
                    if (h && std::abs(norm(r) - 1.) < 1e-9) {
                        o.out.push_back({C{p.expectationValue(ex.ms.back(), v), 0.}});
                    }
                }
                break;
            case 15: { // from another package, and there and back
                Pkg  other(static_cast<std::size_t>(j.n));
                auto e = v;
                auto t = other.transfer(e);
                auto u = p.transfer(t);
                o.out.push_back(readVec(u, j.n));
                if (!ex.ms.empty()) {
                    auto m = ex.ms.back();
                    auto x = other.transfer(m);
                    auto y = p.transfer(x);
                    o.out.push_back(readMat(y, j.n).a);
                }
                break;
            }
            case 16: {
                std::vector<bool> anc(static_cast<std::size_t>(j.n), false);
                anc[static_cast<std::size_t>(k % j.n)] = true;
                const auto m                           = p.createInitialMatrix(static_cast<dd::QubitCount>(j.n), anc);
                o.out.push_back(readMat(m, j.n).a);
                p.decRef(m);
                break;
            }
            case 17:
                if (j.n > 1) {
                    const auto a = static_cast<dd::Qubit>(k % j.n);
                    const auto b = static_cast<dd::Qubit>((k + 1) % j.n);
                    const auto q = static_cast<dd::QubitCount>(j.n + 1);
                    const auto c = dd::Controls{dd::Control{static_cast<dd::Qubit>(j.n)}};
                    for (const auto& m: {p.makeSWAPDD(q, c, a, b), p.makePeresDD(q, c, a, b), p.makeiSWAPDD(q, c, a, b), p.makeDCXDD(q, c, a, b), p.makeRZZDD(q, c, a, b, 0.3), p.makeRXXDD(q, c, a, b, 0.7), p.makeECRDD(q, c, a, b),
                                         p.makeXXPlusYYDD(q, c, a, b, 0.7, 0.2), p.makeXXMinusYYDD(q, c, a, b, 0.7, 0.2), p.makeTwoQubitGateDD(dd::ECRmat, q, a, b)}) {
                        o.out.push_back(readMat(m, j.n + 1).a);
                    }
                }
                break;
            case 18: { // a mixture, and its outcomes
                auto rho = p.makeZeroDensityOperator(static_cast<dd::QubitCount>(j.n));
                p.incRef(rho);
                for (const auto& x: j.noise) {
                    p.applyOperationToDensity(rho, gateDD(p, x, j.n), (k / 22 & 1) != 0);
                }
                Vec flat;
                for (const auto& [bits, pr]: p.getProbVectorFromDensityMatrix(rho, 0.001)) {
                    flat.emplace_back(std::stod("0" + bits), pr);
                }
                o.out.push_back(flat);
                dd::dEdge::alignDensityEdge(rho);
                p.decRef(rho);
                p.garbageCollect((k / 22 & 2) != 0);
                break;
            }
            case 19: {
                Vec flat;
                for (const auto& a: p.getVector(v)) {
                    flat.push_back(a);
                }
                o.out.push_back(flat);
                if (!ex.ms.empty()) {
                    o.out.push_back({val(p.trace(ex.ms.back()))});
                    o.out.push_back(readMat(p.multiply(p.extend(ex.ms.back(), 1), p.kronecker(p.makeIdent(1), ex.ms.back())), j.n + 1).a);
                }
                break;
            }
            case 20: { // factors that are tiny, or vanish together
                const auto f = std::pow(10., -2. - k / 22);
                auto       s = v;
                s.w          = p.cn.lookup(val(s.w) * f);
                o.out.push_back(readVec(p.kronecker(s, s), 2 * j.n));
                o.out.push_back(readVec(p.add(s, v), j.n));
                o.out.push_back({val(p.innerProduct(s, v)), C{p.fidelity(s, s)}});
                if (!ex.ms.empty()) {
                    auto m = ex.ms.back();
                    m.w    = p.cn.lookup(val(m.w) * f);
                    for (const auto& a: {m, ex.ms.back()}) {
                        for (const auto& b: {s, v}) {
                            o.out.push_back(readVec(p.multiply(a, b), j.n));
                        }
                        o.out.push_back(readMat(p.multiply(a, m), j.n).a);
                        o.out.push_back(readMat(p.add(a, m), j.n).a);
                        o.out.push_back(readMat(p.kronecker(a, m), 2 * j.n).a);
                        o.out.push_back(readMat(p.conjugateTranspose(a), j.n).a);
                        o.out.push_back({val(p.trace(a))});
                    }
                }
                break;
            }
            case 21: { // sums that vanish, at least in part
                auto s = v;
                s.w    = p.cn.lookup(-val(s.w) * (k / 22 % 2 == 0 ? 1. : 1. + 1e-9));
                o.out.push_back(readVec(p.add(s, v), j.n));
                if (!ex.ms.empty()) {
                    const auto& m = ex.ms.back();
                    auto        t = m;
                    t.w           = p.cn.lookup(-val(t.w));
                    o.out.push_back(readMat(p.add(t, m), j.n).a);
                    o.out.push_back(readVec(p.add(p.multiply(t, v), p.multiply(m, v)), j.n));
                }
                break;
            }
            default: break;
        }
    }
} // namespace rf
