// C36: packages are independent of each other.
#include "hist.hpp"
using namespace rf;

namespace {
    void interleaved(Gen& g) {
        const int                         k = g.irange(2, 3);
        std::vector<int>                  ns;
        std::vector<std::vector<Op>>      progs;
        std::vector<std::unique_ptr<Pkg>> pkgs;
        std::vector<Exec>                 ex;
        for (int i = 0; i < k; ++i) {
            ns.push_back(g.irange(1, 3));
            progs.push_back(i > 0 && g.oneIn(3) && ns.back() == ns[0] ? progs[0] : genProgram(g, ns.back(), g.irange(2, 12)));
            g.note("package ", i, " (", ns.back(), " qubits): ", brief(progs.back()));
            pkgs.push_back(makePkg(ns.back()));
        }
        for (int i = 0; i < k; ++i) {
            ex.emplace_back(*pkgs[static_cast<std::size_t>(i)], ns[static_cast<std::size_t>(i)]);
        }
        std::vector<std::size_t> at(static_cast<std::size_t>(k), 0);
        std::string              order;
        for (;;) {
            std::vector<std::size_t> open;
            for (std::size_t i = 0; i < at.size(); ++i) {
                if (at[i] < progs[i].size()) {
                    open.push_back(i);
                }
            }
            if (open.empty()) {
                break;
            }
            const auto i = g.pick(open);
            order += std::to_string(i);
            ex[i].step(progs[i][at[i]++]);
            if (g.oneIn(8)) {
                ex[g.below(ex.size())].audit("while several packages are in use");
            }
        }
        g.note("order ", order);
        // one package may go at any time
        const auto gone = g.oneIn(3) ? g.below(ex.size()) : ex.size();
        for (std::size_t i = 0; i < ex.size(); ++i) {
            if (i == gone) {
                continue;
            }
            auto alone = makePkg(ns[i]);
            Exec y(*alone, ns[i]);
            y.run(progs[i]);
            sameResults(ex[i].out, y.out, "a program next to others and alone");
            y.release();
        }
        if (gone < ex.size()) {
            if (g.flip()) {
                pkgs[gone]->reset();
            } else {
                pkgs[gone].reset();
            }
        }
        for (std::size_t i = 0; i < ex.size(); ++i) {
            if (i != gone) {
                std::vector<Vec> rv;
                for (const auto& e: ex[i].vs) {
                    rv.push_back(readVec(e, ns[i]));
                }
                ex[i].audit("after other packages were used");
                pkgs[i]->garbageCollect(true);
                for (std::size_t q = 0; q < rv.size(); ++q) {
                    expectVec(readVec(ex[i].vs[q], ns[i]), rv[q], 0., "a referenced vector after other packages were used");
                }
                ex[i].release();
            }
        }
        int busy = 0;
        for (const auto& e: ex) {
            busy += e.out.empty() ? 0 : 1;
        }
        if (busy > 1) {
            g.nontrivial();
        }
    }
} // namespace

pb::Property& pb::property() {
    static Property p{"C36",
                      "two or three packages of 1-3 qubits running random programs in a random interleaving, each compared with the same program alone, their tables and references inspected, one possibly reset or destroyed; "
                      "non-trivial: at least two packages produced results",
                      {{"interleaved", 1, interleaved}}};
    return p;
}
