// Is a concurrent history equal to some sequential one that respects real-time order? (Wing & Gong search with memory.)
#pragma once

#include "pbt.hpp"

#include <string>
#include <unordered_set>
#include <vector>

namespace lin {

// Timestamps order operations in real time and must not order the code under test for the race detector: relaxed.
inline std::atomic<std::uint64_t> clock{0};
inline std::uint64_t
tick()
{
    std::atomic_signal_fence(std::memory_order_seq_cst);
    std::uint64_t const t = clock.fetch_add(1, std::memory_order_relaxed);
    std::atomic_signal_fence(std::memory_order_seq_cst);
    return t;
}

enum class verdict { yes, no, gave_up };

// Model: state with  std::string key() const;  bool apply(Op const&)  (false: this outcome is impossible here).
template <class Op, class Model>
struct search {
    std::vector<Op> const&          ops;    // each with .from and .to
    std::unordered_set<std::string> seen{};
    std::size_t                     nodes = 0, limit = 400000;
    Model                           last{};
    std::vector<std::uint64_t>      after{};    // per operation, those known to come before it for other reasons than time

    bool
    go(std::uint64_t done, Model const& m)
    {
        if (done == (ops.size() == 64 ? ~0ULL : (1ULL << ops.size()) - 1)) {
            last = m;
            return true;
        }
        if (++nodes > limit)
            return false;
        std::string k = m.key() + "#" + std::to_string(done);
        if (!seen.insert(std::move(k)).second)
            return false;
        std::uint64_t first_end = ~0ULL;
        for (std::size_t i = 0; i < ops.size(); ++i)
            if (!(done >> i & 1))
                first_end = std::min(first_end, ops[i].to);
        for (std::size_t i = 0; i < ops.size(); ++i) {
            if ((done >> i & 1) || ops[i].from > first_end || (!after.empty() && (after[i] & ~done)))
                continue;
            Model next = m;
            if (next.apply(ops[i]) && go(done | 1ULL << i, next))
                return true;
        }
        return false;
    }
    verdict
    run(Model const& m)
    {
        if (go(0, m))
            return verdict::yes;
        return nodes > limit ? verdict::gave_up : verdict::no;
    }
};

}    // namespace lin
