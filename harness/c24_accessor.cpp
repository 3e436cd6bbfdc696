// C24: packet_accessor as a reusable buffer: histories of messages that fit, read back, damaged and replaced.
#include "acc_world.hpp"

char const* const property_rule
    = "One case is a history on one buffer of 3 to 70000 bytes: messages of 11 formats with 0 up to the most items that fit "
      "are serialized (sometimes from the buffer's own payload, or around the bytes already in its place), read back checked and unchecked, damaged and read again; "
      "storage and size are compared byte for byte with a model after every step. Non-trivial: a message with items "
      "was read back valid, a damaged one invalid, and two formats or two item counts were used.";
bool const property_flaky = false;
void
known_findings()
{}

void
property(pbt::ctx& c)
{
    using namespace aw;
    world       w(c);
    std::size_t cur    = w.any_format();
    bool        filled = false, items_read = false, damaged_read = false, varied = false, full = false;
    std::size_t last_n = 0;
    do {
        std::size_t const what = filled ? c.weighted({6, 3, 2, 2, 1, 1, 1, 1}) : 0;
        switch (what) {
        case 0: {
            std::size_t const f = c.chance(1, 2) ? w.any_format() : cur;
            std::size_t const r = w.room(f);
            std::size_t       n = 0;
            switch (c.weighted({4, 2, 1})) {
            case 0: n = c.draw(std::min<std::size_t>(r, 12)); break;
            case 1: n = r - c.draw(std::min<std::size_t>(r, 1)); break;
            default: n = c.draw(r); break;
            }
            c.op("serialize %s with %zu items (at most %zu fit)", formats[f].name, n, r);
            w.send(f, n, draw_bytes(c, n * formats[f].item), false);
            varied = varied || (filled && (f != cur || n != last_n));
            full   = full || n == r;
            cur    = f;
            last_n = n;
            filled = true;
            break;
        }
        case 1: {    // transmission error
            bytes part(w.mem.begin(), w.mem.begin() + w.size);
            corrupt(c, part);
            std::copy(part.begin(), part.end(), w.mem.begin());
            for (std::size_t i = 0; i < w.size; ++i)
                w.b->poke(i, w.mem[i]);
            c.op("bytes now %s", hex(part).c_str());
            break;
        }
        case 2: {    // another length of the same format
            std::size_t const n = c.draw(w.room(cur));
            w.size              = formats[cur].fixed() + n * formats[cur].item;
            w.b->size(w.size);
            c.op("size set to %zu", w.size);
            break;
        }
        case 3: {    // a correct message arrives from elsewhere
            format const&     m   = formats[cur];
            std::size_t const n   = c.draw(w.room(cur));
            bytes const       all = world::compose(m, draw_bytes(c, m.h), draw_bytes(c, m.f), draw_bytes(c, n * m.item));
            for (std::size_t i = 0; i < all.size(); ++i)
                w.b->poke(i, w.mem[i] = all[i]);
            w.b->size(w.size = all.size());
            c.op("received %s, %zu items", m.name, n);
            PBT_CHECK(w.check_read(cur), "a correct message was judged invalid");
            items_read = items_read || n;
            break;
        }
        case 4: {    // reply with the payload just received
            format const& m = formats[cur];
            if (!w.well_sized(m))
                break;
            std::size_t const have = (w.size - m.fixed()) / m.item, n = c.draw(have);
            c.op("echo %zu of %zu items", n, have);
            w.send(cur, n, bytes(w.mem.begin() + m.h + m.f, w.mem.begin() + m.h + m.f + n * m.item), true);
            c.label("echo");
            break;
        }
        case 6: {    // header and fields around a payload that is in its place already
            std::size_t const f = c.chance(1, 2) ? w.any_format() : cur;
            std::size_t const n = c.draw(c.chance(1, 2) ? w.room(f) : std::min<std::size_t>(w.room(f), 6)),
                              at = formats[f].h + formats[f].f;
            c.op("serialize %s around %zu items in place", formats[f].name, n);
            w.send(f, n, bytes(w.mem.begin() + at, w.mem.begin() + at + n * formats[f].item), false, true);
            varied = varied || f != cur || n != last_n;
            cur    = f;
            last_n = n;
            if (n)
                c.label("payload in place");
            break;
        }
        case 7: {
            bool const assigned = c.chance(1, 2);
            c.op("go on with a copy (%s)", assigned ? "assigned" : "constructed");
            w.b->go_on_with_a_copy(assigned);
            break;
        }
        default: {    // the bytes past the message do not matter
            if (w.size < w.mem.size()) {
                std::size_t const i = w.size + c.draw(w.mem.size() - w.size - 1);
                w.b->poke(i, w.mem[i] = (unsigned char)c.draw(255));
                c.op("byte %zu past the message changed", i);
            }
            break;
        }
        }
        w.same("after the step");
        bool const v = w.check_read(cur);
        if (what == 0 || what == 6)
            PBT_CHECK(v, "a message just serialized was judged invalid");
        items_read   = items_read || (v && w.size > formats[cur].fixed());
        damaged_read = damaged_read || (!v && w.well_sized(formats[cur]));
        if (c.chance(1, 4))
            w.check_read(w.any_format());
    } while (c.more(8));
    if (full)
        c.label("filled to capacity");
    if (items_read && damaged_read && varied)
        c.nontrivial();
}
