#include "lru_ops.hpp"

char const* const property_rule
    = "One case is a history of put, get and clock advances on one of 15 cache configurations under a virtual clock, with "
      "periods from 0 ns to days and advances aimed at entries' exact expiry instants (one nanosecond before, at, after). "
      "Reference: a recency-ordered list with the time each value was stored. Non-trivial: some entry was found expired "
      "and some entry older than one period since first stored was still returned because it had been stored again, or an "
      "entry was looked up within two nanoseconds of its expiry.";

void
property(pbt::ctx& c)
{
    vclock::now_ns = std::int64_t(c.draw(3'000'000'000));
    vclock::on     = true;
    std::size_t const  kind = draw_lru(c);
    std::int64_t const period
        = c.pick<std::int64_t>({1'000'000'000, 1'000'000, 1, 2, 1000, 86'400'000'000'000, 999'999'999, 1'500'000'000, 0, 1'000'001,
                               60ll * 86'400'000'000'000, 40ll * 365 * 86'400'000'000'000, INT64_MAX - (1ll << 31)})
          + (c.chance(1, 4) ? std::int64_t(c.sized(31)) : 0);
    auto      u = make_lru(kind, std::chrono::nanoseconds(period));
    lru_model m{{}, u->size, period, 0};
    c.op("lru with %zu entries, %s keys, %s, period %lld ns", u->size, u->keys, u->throws ? "throwing" : "not throwing",
         (long long)period);
    PBT_CHECK(u->period_ns() == period, "expired_after() is %lld ns, configured %lld", (long long)u->period_ns(),
              (long long)period);
    int const keys = std::max(1, int(u->size) + int(c.range(-1, 2)));
    bool      expired = false, edge = false, renewed = false;
    std::vector<std::int64_t> first(std::size_t(keys), -1);
    auto      now = [&] { return vclock::now_ns.load(); };
    struct last_t {
        int          value{};
        std::int64_t at{-1};
    };
    std::vector<last_t> stored(static_cast<std::size_t>(keys));
    auto                put = [&](int k, int val) {
        u->put(k, val);
        m.put(k, val, now());
        stored[std::size_t(k)] = {val, now()};
    };
    auto      look = [&](int k, char const* when) {
        auto const r  = u->get(k);
        auto       it = m.find(k);
        if (it == m.l.end()) {
            c.op("get(%d) -> %s", k, name_of(r.first));
            auto const& st = stored[std::size_t(k)];
            if (expired && !u->throws && r.first == lru_if::status::value && st.at >= 0) {    // an expired entry made room
                PBT_CHECK(r.second == st.value && now() - st.at < period, "%s: lookup of key %d gave %d, last stored %d, %lld ns "
                          "old, period %lld ns", when, k, r.second, st.value, (long long)(now() - st.at), (long long)period);
                m.put(k, st.value, st.at);
                return;
            }
            PBT_CHECK(r.first == lru_if::status::absent, "%s: lookup of missing key %d gave %s %d", when, k,
                      name_of(r.first), r.second);
            return;
        }
        std::int64_t const age = now() - it->at;
        c.op("get(%d) -> %s %d   [age %lld of %lld]", k, name_of(r.first), r.second, (long long)age, (long long)period);
        if (age - period <= 2 && age - period >= -2)
            edge = true;
        if (age >= period) {
            expired = true;
            auto const want = u->throws ? lru_if::status::timeout : lru_if::status::absent;
            PBT_CHECK(r.first == want, "%s: key %d is %lld ns old, period %lld ns: expected %s, got %s %d", when, k,
                      (long long)age, (long long)period, name_of(want), name_of(r.first), r.second);
            return;
        }
        PBT_CHECK(r.first == lru_if::status::value, "%s: key %d is %lld ns old, period %lld ns: expected its value, got %s",
                  when, k, (long long)age, (long long)period, name_of(r.first));
        PBT_CHECK(r.second == it->value, "%s: lookup of key %d gave %d, last stored %d", when, k, r.second, it->value);
        if (first[std::size_t(k)] >= 0 && now() - first[std::size_t(k)] >= period)
            renewed = true;
        m.l.splice(m.l.begin(), m.l, it);
    };
    unsigned const avg = c.pick<unsigned>({15, 40, 80});
    int            v   = 0;
    while (c.more(avg)) {
        int k = int(c.draw(std::uint64_t(keys - 1)));
        switch (c.weighted({32, 40, 32, u->size > 33 ? 4u : 1u})) {
        case 0: {
            // now and then the value that is there already
            int const val = stored[std::size_t(k)].at >= 0 && c.chance(1, 4) ? stored[std::size_t(k)].value : ++v;
            c.op("put(%d, %d)", k, val);
            put(k, val);
            if (first[std::size_t(k)] < 0)
                first[std::size_t(k)] = now();
            break;
        }
        case 1: look(k, "during the history"); break;
        case 3: {    // many keys in a row
            int const n = int(c.draw(u->size + 4));
            c.op("put %d keys from %d on", n, k);
            for (int i = 0; i < n; ++i, k = (k + 1) % keys) {
                put(k, ++v);
                if (first[std::size_t(k)] < 0)
                    first[std::size_t(k)] = now();
            }
            break;
        }
        default: {
            std::int64_t dt = 0;
            if (!m.l.empty() && !c.chance(1, 3)) {    // to an entry's expiry, or just beside it
                auto it = m.l.begin();
                std::advance(it, long(c.draw(m.l.size() - 1)));
                dt = it->at - now() + period + c.pick<std::int64_t>({0, -1, 1, -2, -1000, 1000, -1'000'000});
                k  = it->key;
            } else
                dt = c.chance(1, 2) ? std::int64_t(c.draw(std::uint64_t(std::min<std::int64_t>(period / 2 + 2, 1ll << 57)))) : std::int64_t(c.sized(36));
            if (dt > 0 && dt < 4'000'000'000'000'000'000 - now()) {    // the clock itself must not overflow
                c.op("advance by %lld ns", (long long)dt);
                vclock::now_ns += dt;
            }
            if (c.chance(3, 4))
                look(k, "during the history");
            if (c.chance(1, 8))
                look(k, "looked up again");
            break;
        }
        }
    }
    for (int k = 0; k < keys; ++k)
        look(k, "at the end");
    if ((expired && renewed) || edge)
        c.nontrivial();
    if (expired)
        c.label("found expired");
    if (renewed)
        c.label("alive only because stored again");
    if (edge)
        c.label("within 2 ns of expiry");
    vclock::on = false;
}
