// Objects share nothing: interleaved use, copies, assignments, moves and use from several threads.
#include "objects.hpp"
// a data race ends the case
extern "C" char const* __tsan_default_options() { return "halt_on_error=1:report_bugs=1"; }
namespace {
struct Life
{
    std::size_t kind;
    std::uint64_t seed;
    std::unique_ptr<Machine> m;
    std::vector<std::uint64_t> log;
    std::vector<Out> outs;
    void step(std::uint64_t v)
    {
        log.push_back(v);
        outs.push_back(m->step(v));
    }
};
// the same history on an object of its own, nothing in between
void require_as_alone(Life const& l, char const* what)
{
    auto m = kinds[l.kind].make(l.seed);
    for (std::size_t i = 0; i < l.log.size(); ++i) {
        auto const want = m->step(l.log[i]);
        PBT_REQUIRE(want.size() == l.outs[i].size(), "%s %s, step %zu: %zu numbers, alone %zu", kinds[l.kind].name, what, i, l.outs[i].size(), want.size());
        double top = 0;
        for (auto v : want) { top = std::max(top, std::fabs(v)); }
        for (std::size_t k = 0; k < want.size(); ++k) {
            auto const g = l.outs[i][k];
            if (!(std::fabs(g - want[k]) <= 1e-3 * top)) { PBT_FAIL("%s %s, step %zu, number %zu: %.9g, but %.9g when used alone", kinds[l.kind].name, what, i, k, g, want[k]); }
        }
    }
}
std::uint64_t seed_of(Src& s) { return s.below(1 << 20); }

void interleaved(Src& s)
{
    std::vector<Life> all;
    auto born = [&](std::size_t kind, std::uint64_t seed) {
        all.push_back({kind, seed, kinds[kind].make(seed), {}, {}});
        s.note(kinds[kind].name);
    };
    auto const first = s.below(std::size(kinds));
    born(first, seed_of(s));
    for (auto k = s.size(1, 4); k > 0; --k) { born(s.flag() ? first : s.below(std::size(kinds)), seed_of(s)); }
    auto const steps = s.size(4, 30);
    std::size_t copies = 0;
    for (std::size_t i = 0; i < steps; ++i) {
        auto const w = s.below(all.size());
        auto& l      = all[w];
        switch (s.below(12)) {
            case 0:
                if (all.size() < 8) {
                    Life c{l.kind, l.seed, l.m->clone(), l.log, l.outs};
                    s.note(fmt("copy %zu", std::size_t(w)));
                    all.push_back(std::move(c));
                    ++copies;
                }
                break;
            case 1: {
                for (std::size_t k = 0; k < all.size(); ++k) {
                    if (k != w && all[k].kind == l.kind) {
                        s.note(fmt("assign %zu to %zu", std::size_t(w), k));
                        all[k].m->assign(*l.m);
                        all[k].seed = l.seed;
                        all[k].log  = l.log;
                        all[k].outs = l.outs;
                        ++copies;
                        break;
                    }
                }
                break;
            }
            case 2:
                l.m->relocate();
                s.note(fmt("move %zu", std::size_t(w)));
                break;
            case 3:
                if (all.size() > 2) {
                    require_as_alone(l, "(destroyed)");
                    s.note(fmt("destroy %zu", std::size_t(w)));
                    all.erase(all.begin() + std::ptrdiff_t(w));
                }
                break;
            default: l.step(seed_of(s)); break;
        }
    }
    for (auto& l : all) { require_as_alone(l, "among others"); }
    s.nontrivial(steps >= 6);
    s.label(copies > 0 ? "with copies" : "no copies");
    s.label(kinds[first].name);
}
void threads(Src& s)
{
    auto const n = s.size(2, 4);
    std::vector<std::vector<Life>> work(n);
    std::vector<std::vector<std::pair<std::size_t, std::uint64_t>>> plan(n);
    auto const shared = s.below(std::size(kinds));
    auto const seed   = seed_of(s);
    // half of the time all threads use objects of one kind and size, or copies of one object
    auto const mode = s.below(3);
    Life origin{shared, seed, kinds[shared].make(seed), {}, {}};
    origin.step(seed_of(s));
    s.note(fmt("%zu threads, %s", n, mode == 0 ? "copies of one object" : mode == 1 ? "objects of one kind" : "any objects"));
    s.label(kinds[shared].name);
    for (std::size_t t = 0; t < n; ++t) {
        for (auto k = s.size(1, 2); k > 0; --k) {
            if (mode == 0) {
                work[t].push_back({shared, seed, origin.m->clone(), origin.log, origin.outs});
            } else {
                auto const kind = mode == 1 ? shared : s.below(std::size(kinds));
                work[t].push_back({kind, mode == 1 && s.flag() ? seed : seed_of(s), nullptr, {}, {}});
            }
            s.note(kinds[work[t].back().kind].name);
        }
        for (auto k = s.size(1, 6); k > 0; --k) { plan[t].emplace_back(s.below(work[t].size()), seed_of(s)); }
    }
    std::vector<std::thread> run;
    for (std::size_t t = 0; t < n; ++t) {
        run.emplace_back([&, t] {
            for (auto& l : work[t]) {
                if (!l.m) { l.m = kinds[l.kind].make(l.seed); }
            }
            for (auto const& [which, v] : plan[t]) { work[t][which].step(v); }
        });
    }
    for (auto& t : run) { t.join(); }
    s.nontrivial(true);
    for (auto& w : work) {
        for (auto& l : w) { require_as_alone(l, "in a thread of its own"); }
    }
}
}  // namespace
PBT_CHECK_T(k1, "interleaved", 4000, 60000, interleaved)
PBT_CHECK_T(k2, "threads", 800, 12000, threads)
