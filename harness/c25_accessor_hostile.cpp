// C25: packet_accessor with hostile sizes and contents.
#include "acc_world.hpp"

char const* const property_rule
    = "One case is a history on one buffer of 3 to 70000 bytes: arbitrary or correct bytes arrive with an arbitrary stated size "
      "(0, around every limit, off by part of an item, beyond the buffer, up to the largest integer), each read with several "
      "formats, and serialization is asked for item counts around capacity and around every overflow point. "
      "Non-trivial: a read with a bad size, and a refused serialization after an accepted one.";
bool const property_flaky = false;
void
known_findings()
{}

void
property(pbt::ctx& c)
{
    using namespace aw;
    constexpr std::size_t top = std::numeric_limits<std::size_t>::max();
    world                 w(c);
    bool                  bad_size = false, accepted = false, refused = false;
    do {
        std::size_t const f = w.any_format();
        format const&     m = formats[f];
        switch (c.weighted({5, 5, 2})) {
        case 0: {    // something arrives
            std::size_t n = 0;
            switch (c.weighted({3, 3, 2, 2, 2, 1, 1, 1})) {
            case 0: n = m.fixed() + c.draw(w.room(f)) * m.item; break;    // right
            case 1: n = c.draw(w.b->max); break;
            case 2: n = m.fixed() - 1 - c.draw(std::min<std::size_t>(m.fixed() - 1, 5)); break;    // short
            case 3: n = w.b->max + 1 + c.draw(2 * m.item + m.fixed()); break;    // past the buffer
            case 4: n = m.fixed() + m.item * ((w.b->max - m.fixed()) / m.item + 1 + c.draw(40)); break;    // whole items past it
            case 5: n = top - c.draw(2 * m.fixed() + m.item); break;
            case 6: n = (std::size_t(1) << c.range(8, 63)) + m.fixed() - c.draw(2); break;
            default: n = c.draw(top); break;
            }
            if (c.chance(1, 3)) {    // bytes whose checksum matches at that size, where there is such a thing
                std::size_t const at = std::min(n, w.b->max);
                bytes             body = draw_bytes(c, at >= m.c ? at - m.c : 0);
                bytes             s    = m.sum(body);
                body.insert(body.end(), s.begin(), s.end());
                for (std::size_t i = 0; i < body.size() && i < w.b->max; ++i)
                    w.b->poke(i, w.mem[i] = body[i]);
                c.label("checksum matches");
            } else if (c.chance(1, 2)) {
                bytes const raw = draw_bytes(c, w.b->max);
                for (std::size_t i = 0; i < raw.size(); ++i)
                    w.b->poke(i, w.mem[i] = raw[i]);
            }
            w.b->size(w.size = n);
            c.op("arrived for %s with size %zu (fixed part %zu, item %zu)", m.name, n, m.fixed(), m.item);
            break;
        }
        case 1: {    // serialize at and beyond the limits
            std::size_t const r = w.room(f);
            std::size_t       n = 0;
            switch (c.weighted({3, 3, 3, 2, 2, 1})) {
            case 0: n = c.draw(r); break;
            case 1: n = r + 1 + c.draw(1); break;
            case 2: {    // n * item wraps to something small
                std::size_t const wraps = m.item > 1 ? 1 + c.draw(m.item - 2) : 1;
                // the smallest n with n * item >= wraps * 2^64
                n = std::size_t(((__uint128_t(wraps) << 64) + m.item - 1) / m.item) + c.draw(r + 1);
                if (m.item == 1)
                    n = top - c.draw(m.fixed() + 1);
                c.label("count that overflows");
                break;
            }
            case 3: n = top - c.draw(3 * m.fixed()); break;
            case 4: {    // fixed + n * item wraps: n * item in the last few multiples
                n = (top - c.draw(m.fixed() + m.item)) / m.item;
                break;
            }
            default: n = c.edgy(64); break;
            }
            c.op("serialize %s with %zu items (at most %zu fit)", m.name, n, r);
            bool const        in_place = c.chance(1, 6);    // no payload given
            std::size_t const from     = m.h + m.f;
            bytes const       payload  = in_place && n <= r ? bytes(w.mem.begin() + from, w.mem.begin() + from + n * m.item)
                                                            : draw_bytes(c, n <= r ? n * m.item : c.draw(2) * m.item);
            if (w.send(f, n, payload, false, in_place)) {
                accepted = true;
                PBT_CHECK(w.check_read(f), "a message just serialized was judged invalid");
            } else
                refused = refused || accepted;
            break;
        }
        default: {    // a byte changes
            std::size_t const i = c.draw(w.b->max - 1);
            w.b->poke(i, w.mem[i] = (unsigned char)c.draw(255));
            break;
        }
        }
        w.same("after the step");
        for (int i = 0; i < 3; ++i) {
            std::size_t const g = i == 0 ? f : w.any_format();
            w.check_read(g);
            bad_size = bad_size || !w.well_sized(formats[g]);
        }
    } while (c.more(8));
    if (bad_size && refused)
        c.nontrivial();
}
