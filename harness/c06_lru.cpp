#include "lru_ops.hpp"

#include <map>

char const* const property_rule
    = "One case is a history of put and get on one of 15 cache configurations (1 to 1025 entries, now and then 66000; int, 64-bit, string and "
      "hash-colliding keys; throwing and not), keys drawn from a range a little larger than the cache, time passing but "
      "in three cases of four never as much as the period; afterwards every key is looked up. Where entries expire, those "
      "among the most recently used that have not must be there. Reference: a recency-ordered list. Non-trivial: an "
      "entry was evicted after a lookup had changed the order.";

// A cache too large for its entries to be counted in 16 bits; the reference is a list with an index.
static void
huge(pbt::ctx& c)
{
    constexpr int            S = 66000;
    auto                     u = std::make_unique<lru_box<int, int, S, false>>(std::chrono::hours(24 * 365));
    std::list<int>           order;
    std::vector<int>         value(S + 2000, -1);
    std::vector<std::list<int>::iterator> at(value.size(), order.end());
    auto                     evicted = 0;
    auto put = [&](int k, int v) {
        u->put(k, v);
        if (at[k] != order.end())
            order.erase(at[k]);
        else if (order.size() == S) {
            at[order.back()] = order.end();
            order.pop_back();
            ++evicted;
        }
        order.push_front(k);
        at[k]    = order.begin();
        value[k] = v;
    };
    auto look = [&](int k) {
        auto const r = u->get(k);
        if (at[k] == order.end()) {
            PBT_CHECK(r.first == lru_if::status::absent, "lookup of key %d, which is not among the %d most recently used, gave %s",
                      k, S, name_of(r.first));
            return;
        }
        PBT_CHECK(r.first == lru_if::status::value && r.second == value[k], "lookup of key %d gave %s %d, last stored %d", k,
                  name_of(r.first), r.second, value[k]);
        order.splice(order.begin(), order, at[k]);
    };
    std::uint64_t x     = c.draw(1000);
    auto          any   = [&] { return int((x = pbt::mix(x + 1)) % value.size()); };
    int const     first = int(c.draw(value.size() - 1)), fill = int(c.pick<std::size_t>({value.size(), S, S + 1, 65536, 65537}));
    c.op("lru with %d entries, %d keys stored from %d on", S, fill, first);
    for (int i = 0; i < fill; ++i)
        put(int((first + i) % value.size()), i);
    int const n = int(c.draw(3000));
    c.op("%d stores and lookups of arbitrary keys", n);
    for (int i = 0; i < n; ++i)
        i % 3 ? put(any(), i) : look(any());
    c.op("every key is looked up");
    for (std::size_t k = 0; k < value.size(); ++k)
        look(int(k));
    PBT_CHECK(order.size() <= S, "model broken");
    c.label("66000 entries");
    if (evicted && n)
        c.nontrivial();
}

void
property(pbt::ctx& c)
{
    if (c.chance(1, 3000)) {
        vclock::on = true;
        huge(c);
        vclock::on = false;
        return;
    }
    vclock::now_ns = std::int64_t(c.draw(1'000'000'000));
    vclock::on     = true;
    std::size_t const kind = draw_lru(c);
    // Entries may expire: then those lost must still be no others than the least recently used ones.
    bool const        expiring = c.chance(1, 4);
    auto const        period = expiring ? std::chrono::nanoseconds(1'000'000 + std::int64_t(c.draw(1'000'000)))
                               : c.chance(1, 4) ? std::chrono::nanoseconds::max()
                                                : std::chrono::nanoseconds(std::chrono::hours(24 * 365));
    auto              u    = make_lru(kind, period);
    lru_model         m{{}, u->size, std::chrono::nanoseconds(period).count(), 0};
    c.op("lru with %zu entries, %s keys, %s%s", u->size, u->keys, u->throws ? "throwing" : "not throwing",
         expiring ? ", entries expire" : "");
    int const keys = int(u->size) + int(c.range(1, 4)) * (c.chance(1, 6) ? 8 : 1);
    bool      reordered = false, used = false, expired = false;
    std::map<int, std::pair<int, std::int64_t>> stored;    // value and time, where entries expire
    auto      put = [&](int k, int val) {
        auto const now = vclock::now_ns.load();
        u->put(k, val);
        m.put(k, val, now);
        if (expiring)
            stored[k] = {val, now};
    };
    auto      look = [&](int k, char const* when) {
        auto const r  = u->get(k);
        auto       it = m.find(k);
        c.op("get(%d) -> %s %d", k, name_of(r.first), r.second);
        if (it == m.l.end()) {
            if (expiring && r.first != lru_if::status::absent) {    // an expired entry may have made room for it
                auto const st = stored.find(k);
                PBT_CHECK(st != stored.end(), "%s: lookup of key %d, never stored, gave %s %d", when, k, name_of(r.first), r.second);
                if (r.first == lru_if::status::value) {
                    PBT_CHECK(r.second == st->second.first, "%s: lookup of key %d gave %d, last stored %d", when, k, r.second,
                              st->second.first);
                    m.put(k, r.second, st->second.second);
                }
                return;
            }
            PBT_CHECK(r.first == lru_if::status::absent, "%s: lookup of key %d, which is not among the %zu most recently "
                      "used, gave %s %d", when, k, u->size, name_of(r.first), r.second);
            return;
        }
        if (expiring && vclock::now_ns.load() - it->at >= m.period) {    // no use of it
            expired = true;
            PBT_CHECK(r.first != lru_if::status::value, "%s: lookup of expired key %d gave %d", when, k, r.second);
            return;
        }
        PBT_CHECK(r.first == lru_if::status::value, "%s: lookup of key %d (position %td of %zu) gave %s", when, k,
                  std::distance(m.l.begin(), it), m.l.size(), name_of(r.first));
        PBT_CHECK(r.second == it->value, "%s: lookup of key %d gave %d, last stored %d", when, k, r.second, it->value);
        if (it != m.l.begin())
            reordered = true;
        m.l.splice(m.l.begin(), m.l, it);
    };
    unsigned const avg = c.pick<unsigned>({20, 60, 120});
    int            v   = 0;
    while (c.more(avg)) {
        int k = int(c.draw(std::uint64_t(keys - 1)));
        switch (c.weighted({20, 18, 4, 2, u->size > 33 ? 6u : 1u})) {
        case 0: {
            ++v;
            int const val = c.chance(1, 4) ? int(c.draw(3)) : v;
            c.op("put(%d, %d)", k, val);
            int const ev = m.evicted;
            put(k, val);
            if (m.evicted != ev && reordered)
                used = true;
            break;
        }
        case 1: look(k, "during the history"); break;
        case 2:
            vclock::now_ns += std::int64_t(expiring ? c.draw(c.chance(1, 2) ? 1'500'000 : 50'000) : c.sized(40));
            break;
        case 3:    // the least recently used entry is the interesting one
            if (!m.l.empty())
                look(m.l.back().key, "during the history");
            break;
        default: {    // many keys in a row
            int const n = int(c.draw(u->size + 4));
            c.op("put %d keys from %d on", n, k);
            for (int i = 0; i < n; ++i, k = (k + 1) % keys) {
                int const ev = m.evicted;
                put(k, ++v);
                if (m.evicted != ev && reordered)
                    used = true;
            }
        }
        }
    }
    // look everything up, oldest first or by key
    if (c.chance(1, 2)) {
        std::vector<int> ks;
        for (auto it = m.l.rbegin(); it != m.l.rend(); ++it)
            ks.push_back(it->key);
        for (int k : ks)
            look(k, "at the end");
    }
    for (int k = 0; k < keys; ++k)
        look(k, "at the end");
    PBT_CHECK(m.l.size() <= u->size, "model broken");
    if (used)
        c.nontrivial();
    if (m.evicted)
        c.label("evictions");
    if (expired)
        c.label("found expired");
    vclock::on = false;
}
