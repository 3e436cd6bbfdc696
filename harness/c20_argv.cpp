// C20: argv_parser against a reference reading of the argument list.
#include "pbt.hpp"

#include <xitren/func/argv_parser.hpp>

#include <bit>
#include <map>
#include <optional>
#include <set>

char const* const property_rule
    = "One case registers up to 9 options (string, int, double, flag; awkward names) in a random order and parses a random "
      "argument list (up to 700 arguments, some longer than 65536 bytes) of options, values (spaces, empty, dashes, any byte; "
      "numbers at the edges of their type; sometimes words that spell no number, whose own option is then left out of the comparison), unknown words and values missing at the end, sometimes beside a "
      "second parser; every member of the result is compared with a reference reading of the list. Non-trivial: at least two registered options occur, and one gets a value that is not its default.";
bool const property_flaky = false;
void
known_findings()
{}

namespace {

struct options {
    std::string s0{"default zero"}, s1{}, s2{"x"}, s3{"   "};
    int         i0{0}, i1{-7}, i2{2147483647}, i3{42};
    double      d0{0.0}, d1{-1.5}, d2{1e300}, d3{3.25};
    bool        b0{false}, b1{false}, b2{false}, b3{true};
};

using parser = xitren::func::argv_parser<options>;

std::string options::* const strs[] = {&options::s0, &options::s1, &options::s2, &options::s3};
int options::* const         ints[] = {&options::i0, &options::i1, &options::i2, &options::i3};
double options::* const      dbls[] = {&options::d0, &options::d1, &options::d2, &options::d3};
bool options::* const        flgs[] = {&options::b0, &options::b1, &options::b2, &options::b3};

struct opt {
    std::string name;
    int         kind;    // 0 string, 1 int, 2 double, 3 flag
    int         field;
};

std::string
word(pbt::ctx& c, unsigned avg)
{
    std::string s;
    while (c.more(avg)) {
        switch (c.weighted({6, 2, 1, 1})) {
        case 0: s += char('a' + c.draw(5)); break;
        case 1: s += c.pick<char>({' ', '-', '=', '0', '9', '.', '"', '\''}); break;
        case 2: s += c.pick<char>({'\t', '\n', '\\', '/', ',', ';'}); break;
        default: s += char(1 + c.draw(254)); break;
        }
    }
    return s;
}

std::string
int_text(pbt::ctx& c)
{
    std::int64_t v = 0;
    switch (c.weighted({3, 3, 1, 1})) {
    case 0: v = c.range(-20, 20); break;
    case 1: v = std::int32_t(c.edgy(32)); break;
    case 2: v = 2147483647; break;
    default: v = -2147483648LL; break;
    }
    std::string s = std::to_string(v < 0 ? -v : v);
    if (c.chance(1, 6))
        s = std::string(c.draw(3), '0') + s;
    if (v < 0)
        return "-" + s;
    return c.chance(1, 8) ? "+" + s : s;
}

std::string
dbl_text(pbt::ctx& c)
{
    char buf[400];
    for (;;) {
        double v = 0;
        switch (c.weighted({3, 3, 2, 2})) {
        case 0: v = double(c.range(-1000, 1000)) / 8; break;
        case 1: v = std::bit_cast<double>(c.draw(~0ULL)); break;
        case 2: v = double(c.range(-1000000, 1000000)) / 1000; break;
        default: v = double(std::int64_t(c.edgy(64))); break;
        }
        if (!(v - v == 0))
            v = 12.5;
        int const how = int(c.weighted({4, 2, 1, 1}));
        if (how == 2 && (v > 1e18 || v < -1e18))
            v = 7;
        std::snprintf(buf, sizeof buf, how == 0 ? "%.17g" : how == 1 ? "%g" : how == 2 ? "%.6f" : "%.10e", v);
        double const back = std::strtod(buf, nullptr);
        if (back - back == 0)    // rounding may have left the range
            return buf;
    }
}

std::string
show(std::string const& s)
{
    std::string r = "\"";
    for (unsigned char ch : s.substr(0, 60)) {
        char b[8];
        if (ch < 32 || ch > 126 || ch == '"' || ch == '\\')
            std::snprintf(b, sizeof b, "\\x%02x", ch);
        else
            std::snprintf(b, sizeof b, "%c", ch);
        r += b;
    }
    return r + "\"";
}

}    // namespace

void
property(pbt::ctx& c)
{
    // names: distinct, sharing prefixes
    static char const* const pool[] = {"-n",     "--name", "--names", "-nn",  "--name=", "-N",   "-x",    "--x",
                                       "n",      "-",      "--",      "-n1",  "--a b",   "-nam", "--nam", "--NAME",
                                       "--in",   "--int",  "-i",      "-ii",  "-d",      "-f",   "--flag", "--flags"};
    std::vector<opt> opts;
    std::size_t const n_opts = c.draw(9);
    bool used[3][4] = {};
    for (std::size_t k = 0; k < n_opts; ++k) {
        opt o;
        o.name = c.chance(1, 4) ? "-" + word(c, 4) : pool[c.draw(std::size(pool) - 1)];
        o.kind = int(c.draw(3));
        o.field = int(c.draw(3));
        bool dup = o.kind < 3 && used[o.kind][o.field];    // only flags may share a field
        for (auto const& p : opts)
            dup = dup || p.name == o.name;
        if (dup)
            continue;
        if (o.kind < 3)
            used[o.kind][o.field] = true;
        opts.push_back(o);
    }
    auto const is_name = [&](std::string const& s) {
        for (auto const& o : opts)
            if (o.name == s)
                return true;
        return false;
    };
    auto const plain = [&](std::string s) {
        while (is_name(s))
            s += "~";
        return s;
    };
    static char const* const kinds[] = {"string", "int", "double", "flag"};
    for (auto const& o : opts)
        c.op("register %s as %s %d", show(o.name).c_str(), kinds[o.kind], o.field);

    // the command line
    std::vector<std::string> args;
    if (!c.chance(1, 40))
        args.push_back(plain(c.chance(1, 6) ? word(c, 3) : "prog"));
    std::size_t occurrences = 0;
    std::vector<bool> seen(opts.size());
    bool dangling = false;
    std::set<std::size_t> bad;    // arguments that spell no number, after an option that wants one
    bool                  open[3][4] = {};
    // now and then hundreds of arguments, or one of many kilobytes
    bool const        crowd = c.chance(1, 60), huge = c.chance(1, 60);
    std::size_t const most  = crowd ? 700 : 60;
    auto const        text  = [&](unsigned avg) {
        std::string s = word(c, avg);
        if (huge && c.chance(1, 3))
            s += std::string(c.pick<std::size_t>({254, 255, 256, 4096, 65535, 65536, 70001}), char('a' + c.draw(25))) + word(c, 3);
        return s;
    };
    while (!args.empty() && c.more(crowd ? 500 : 7) && args.size() < most) {
        switch (opts.empty() ? 0 : c.weighted({3, 10, 1})) {
        case 0: args.push_back(plain(c.chance(1, 3) && !opts.empty()
                                         ? opts[c.draw(opts.size() - 1)].name + c.pick<char const*>({"x", " ", "=1", "-", "\t"})
                                         : text(4)));
            break;
        case 1:
        case 2: {
            std::size_t const w = c.draw(opts.size() - 1);
            opt const& o = opts[w];
            args.push_back(o.name);
            seen[w] = true;
            if (o.kind == 3)
                break;
            if (o.kind == 0)
                args.push_back(plain(c.chance(1, 8) ? std::string() : text(6)));
            else if (o.kind == 1)
                args.push_back(plain(int_text(c)));
            else
                args.push_back(plain(dbl_text(c)));
            if (o.kind != 0 && args.back().back() == '~')
                args.back() = o.kind == 1 ? "31" : "2.5";
            if (o.kind != 0 && c.chance(1, 6)) {    // spells no number of that type: what this option becomes is open
                args.back() = c.chance(1, 3) ? text(5)
                                             : c.pick<char const*>({"", " ", "abc", "-", "+", ".", "99999999999999999999", "-2147483649",
                                                                    "1e999", "-1e999", "12abc", "0x10", "1.5", "e5", "nan", "inf", "1 2", "--"});
                args.back() = plain(args.back());
                bad.insert(args.size() - 1);
            }
            break;
        }
        }
    }
    if (!args.empty() && !opts.empty() && c.chance(1, 4)) {    // an option at the very end
        std::size_t const w = c.draw(opts.size() - 1);
        args.push_back(opts[w].name);
        seen[w] = true;
        dangling = opts[w].kind != 3;
    }
    for (auto const b : seen)
        occurrences += b;
    // a number named like an option would be a value equal to an option name: outside the property
    for (std::size_t k = 0; k < args.size(); ++k)
        c.op("argv[%zu] = %s", k, show(args[k]).c_str());

    // reference
    options     expect{};
    bool        changed = false;
    std::size_t k = 0;
    std::vector<std::size_t> value_at;
    for (; k < args.size(); ++k)
        for (auto const& o : opts) {
            if (o.name != args[k])
                continue;
            if (o.kind == 3) {
                expect.*flgs[o.field] = true;
                continue;
            }
            if (k + 1 >= args.size())
                continue;
            std::string const& v = args[k + 1];
            if (is_name(v))
                return;    // outside the property
            if (o.kind != 0)
                open[o.kind][o.field] = bad.count(k + 1) > 0;
            if (o.kind != 0 && open[o.kind][o.field])
                continue;
            if (o.kind == 0)
                expect.*strs[o.field] = v;
            else if (o.kind == 1)
                expect.*ints[o.field] = int(std::strtol(v.c_str(), nullptr, 10));
            else
                expect.*dbls[o.field] = std::strtod(v.c_str(), nullptr);
            changed = true;
        }

    // Registration takes an initializer_list, so its length is chosen by case.
    using A = parser::argument_type;
    auto arg = [&](std::size_t j) -> A {
        opt const& o = opts[j];
        switch (o.kind) {
        case 0: return {o.name, strs[o.field]};
        case 1: return {o.name, ints[o.field]};
        case 2: return {o.name, dbls[o.field]};
        default: return {o.name, flgs[o.field]};
        }
    };
    std::unique_ptr<parser> p;
    switch (opts.size()) {
    case 0: p = parser::instance({}); break;
    case 1: p = parser::instance({arg(0)}); break;
    case 2: p = parser::instance({arg(0), arg(1)}); break;
    case 3: p = parser::instance({arg(0), arg(1), arg(2)}); break;
    case 4: p = parser::instance({arg(0), arg(1), arg(2), arg(3)}); break;
    case 5: p = parser::instance({arg(0), arg(1), arg(2), arg(3), arg(4)}); break;
    case 6: p = parser::instance({arg(0), arg(1), arg(2), arg(3), arg(4), arg(5)}); break;
    case 7: p = parser::instance({arg(0), arg(1), arg(2), arg(3), arg(4), arg(5), arg(6)}); break;
    case 8: p = parser::instance({arg(0), arg(1), arg(2), arg(3), arg(4), arg(5), arg(6), arg(7)}); break;
    default: p = parser::instance({arg(0), arg(1), arg(2), arg(3), arg(4), arg(5), arg(6), arg(7), arg(8)}); break;
    }
    // each argument in an allocation of its own, the vector of exactly argc + 1 pointers, as main() gets it
    std::vector<std::unique_ptr<char[]>> own;
    std::unique_ptr<char const*[]>       argv(new char const*[args.size() + 1]);
    for (std::size_t j = 0; j < args.size(); ++j) {
        own.emplace_back(new char[args[j].size() + 1]);
        std::memcpy(own.back().get(), args[j].c_str(), args[j].size() + 1);
        argv[j] = own.back().get();
    }
    argv[args.size()] = nullptr;
    // another parser, made before and used after, must not notice
    bool const             two = c.chance(1, 3) && !opts.empty();
    std::unique_ptr<parser> other;
    if (two)
        other = parser::instance({{opts[0].name, &options::s2}, {"other", &options::i3}, {"-o", &options::b0}});
    options const got = p->parse(int(args.size()), argv.get());
    if (two) {
        std::string const       name = opts[0].name;
        char const*         line[] = {"prog", "other", "17", "stray"};
        options const       o2     = other->parse(name == "other" || name == "stray" || name == "17" || name == "prog" ? 1 : 4, line);
        bool const          set    = !(name == "other" || name == "stray" || name == "17" || name == "prog");
        PBT_CHECK(o2.s2 == "x" && o2.i3 == (set ? 17 : 42) && !o2.b0 && o2.s0 == "default zero" && o2.i0 == 0 && o2.i1 == -7
                      && o2.i2 == 2147483647 && o2.d0 == 0.0 && o2.d1 == -1.5 && o2.d2 == 1e300 && o2.d3 == 3.25 && !o2.b1
                      && !o2.b2 && o2.b3 && o2.s1.empty() && o2.s3 == "   ",
                  "a parser of its own, given other arguments, does not report what those say");
        c.label("two parsers");
    }
    for (std::size_t j = 0; j < args.size(); ++j) {
        PBT_CHECK(!std::strcmp(own[j].get(), args[j].c_str()), "argument %zu was changed", j);
        std::memset(own[j].get(), '#', args[j].size());    // the result must not refer to the arguments
    }
    if (c.chance(1, 4))
        p.reset();

    for (int f = 0; f < 4; ++f) {
        PBT_CHECK(got.*strs[f] == expect.*strs[f], "string option %d is %s, expected %s", f,
                  show(got.*strs[f]).c_str(), show(expect.*strs[f]).c_str());
        PBT_CHECK(open[1][f] || got.*ints[f] == expect.*ints[f], "int option %d is %d, expected %d", f, got.*ints[f],
                  expect.*ints[f]);
        PBT_CHECK(open[2][f] || std::bit_cast<std::uint64_t>(got.*dbls[f]) == std::bit_cast<std::uint64_t>(expect.*dbls[f]),
                  "double option %d is %.17g, expected %.17g", f, got.*dbls[f], expect.*dbls[f]);
        PBT_CHECK(got.*flgs[f] == expect.*flgs[f], "flag %d is %d, expected %d", f, int(got.*flgs[f]),
                  int(expect.*flgs[f]));
    }
    if (!bad.empty())
        c.label("value that spells no number");
    if (args.size() > 256)
        c.label("more than 256 arguments");
    if (dangling)
        c.label("value missing at the end");
    if (occurrences < opts.size())
        c.label("registered option absent");
    if (args.empty())
        c.label("argc 0");
    if (occurrences >= 2 && changed)
        c.nontrivial();
}
