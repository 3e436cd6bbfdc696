// C30: uses that cannot work are refused by the compiler, and all others are accepted.
#include "pbt.hpp"

#include <spawn.h>
#include <string>

char const* const property_rule
    = "One case is a translation unit of up to 60 generated uses (fast_pimpl with a size, alignment and strictness around what "
      "its type needs; byte-order types over 14 types; packets of parts that need padding or not; reading a packet from an array, and payload buffers, of a length around "
      "what is needed; caches of 0 and more entries; checksums and log adapters with and without each member; copies of objects "
      "that others point to), compiled by clang. Each use must be refused exactly when the predicate says so. Non-trivial: the "
      "unit has both kinds and uses that miss or meet their limit exactly.";
bool const property_flaky = false;
void
known_findings()
{}

extern char** environ;

namespace {

char const* const more_headers = R"(
#include <xitren/allocators/static_heap_allocator.hpp>
#include <xitren/cache/lru.hpp>
#include <xitren/comm/mediator.hpp>
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>
#include <xitren/comm/values/observable.hpp>
#include <xitren/comm/values/observed.hpp>
#include <xitren/func/argv_parser.hpp>
#include <xitren/func/interval_event.hpp>
)";
// two headers declare the same names: a unit has one of them
char const* const one_of[] = {"#include <xitren/comm/observer_static.hpp>\n", "#include <xitren/comm/observer.hpp>\n"};
char const* const prelude = R"(
#include <xitren/func/data.hpp>
#include <xitren/func/fast_pimpl.hpp>
#include <xitren/func/packet.hpp>
template <std::size_t N, std::size_t A, int Tag> struct alignas(A) blob { unsigned char b[N]; };
template <std::size_t N, std::size_t A, int Tag> struct alignas(A) pooled {
    unsigned char b[N];
    static void* operator new(std::size_t n) { return ::operator new(n); }
    static void operator delete(void* p) { ::operator delete(p); }
};
template <std::size_t N, int Tag> struct part { unsigned char b[N]; };
template <class U, int Tag> struct plain { U v; };
template <class U, int Tag> class guarded { U v; public: guarded() : v{} {} U get() const { return v; } };
template <class V> struct sum {
    using value_type = V;
    template <class I> static value_type calculate(I b, I e) { std::uint16_t s{}; for (; b != e; ++b) s += *b; return V(s); }
};
using sum16 = sum<xitren::func::lsb_t<std::uint16_t>>;
using sum32 = sum<xitren::func::msb_t<std::uint32_t>>;
struct log_ok { static void trace() {} static void debug() {} static void warning() {} static void error() {} };
enum class en { a };
struct str { int i; };
)";

struct use {
    std::string text, what;
    bool        ok;
    bool        edge;
    std::string ahead{};    // what has to stand outside a function
};

std::string
n(std::uint64_t v)
{
    return std::to_string(v);
}

use
make_use(pbt::ctx& c, int tag, bool all, bool events)
{
    switch (all ? c.weighted({3, 1, 1, 1, 1, 2, 4, 6}) : c.weighted({8, 3, 4, 5, 0, 2})) {
    case 0: {
        std::size_t const a     = std::size_t(1) << c.draw(5);
        std::size_t const k     = c.chance(1, 6) ? std::size_t(c.range(9, 70)) : std::size_t(c.range(1, 8));
        std::size_t const need  = a * k;
        std::size_t const al    = c.chance(2, 3) ? a << c.draw(2) : std::size_t(1) << c.draw(6);
        bool const        strict = c.chance(1, 3);
        std::int64_t const delta
            = c.chance(1, 3) ? 0 : c.chance(1, 2) ? c.range(-1, 1) : c.range(-std::int64_t(need) + 1, 40);
        std::size_t const size = std::max<std::int64_t>(1, std::int64_t(need) + delta);
        bool const        ok   = size >= need && (!strict || size == need) && al % a == 0;
        std::string const t    = std::string("xitren::func::fast_pimpl<") + (c.chance(1, 6) ? "pooled<" : "blob<") + n(need) + "," + n(a) + "," + n(tag) + ">," + n(size) + ","
                              + n(al) + (strict ? ",true>" : c.chance(1, 2) ? ",false>" : ">");
        std::string how;
        if (c.chance(1, 4)) {    // the idiom's own use: the type is complete only where the members are defined
            std::string const l = "late" + n(tag), w = "wid" + n(tag);
            return {w + " v{}; v = " + w + "{v}; " + w + " u{static_cast<" + w + " const&>(v)}; u = v;",
                    "pimpl of " + n(size) + " bytes aligned " + n(al) + (strict ? ", strict," : "")
                        + " for a type defined later, of " + n(need) + " aligned " + n(a),
                    ok, size == need || size + 1 == need || size == need + 1,
                    "struct " + l + "; class " + w + " { xitren::func::fast_pimpl<" + l + "," + n(size) + "," + n(al)
                        + (strict ? ",true" : "") + "> p; public: " + w + "(); " + w + "(" + w + " const&); " + w + "(" + w + "&&); " + w
                        + "& operator=(" + w + " const&); " + w + "& operator=(" + w + "&&); ~" + w + "(); }; inline std::size_t size"
                        + n(tag) + "(" + w + " const& v) { return sizeof v; } struct alignas(" + n(a) + ") " + l
                        + " { unsigned char b[" + n(need) + "]; }; " + w + "::" + w + "() = default; " + w + "::" + w + "(" + w
                        + " const&) = default; " + w + "::" + w + "(" + w + "&&) = default; " + w + "& " + w + "::operator=(" + w
                        + " const&) = default; " + w + "& " + w + "::operator=(" + w + "&&) = default; " + w + "::~" + w
                        + "() = default; "};
        }
        switch (c.draw(2)) {
        case 0: how = t + " p{};"; break;
        case 1: how = "auto* p = new " + t + "{}; delete p;"; break;
        default: how = "struct holder { " + t + " p{}; }; holder h{};"; break;
        }
        return {how,
                "pimpl of " + n(size) + " bytes aligned " + n(al) + (strict ? ", strict," : "") + " for a type of " + n(need)
                    + " aligned " + n(a),
                ok, size == need || size + 1 == need || size == need + 1};
    }
    case 1: {
        static char const* const ty[]
            = {"std::uint16_t", "std::uint32_t", "std::uint64_t", "std::uint8_t", "std::int16_t", "std::int32_t", "std::int64_t",
               "float", "double", "bool", "char", "en", "str", "void*"};
        std::size_t const i = c.chance(1, 3) ? c.draw(2) : c.draw(13);
        std::string const k = c.chance(1, 2) ? "lsb_t" : "msb_t";
        return {"xitren::func::" + k + "<" + ty[i] + "> v{}; (void)v;", k + " over " + ty[i], i < 3, i < 4};
    }
    case 2: {
        if (c.chance(1, 4)) {    // a compiler packs only plain structures: others stay aligned, which may need padding
            static char const* const ty[] = {"std::uint8_t", "std::uint16_t", "std::uint32_t", "double"};
            unsigned const    i = unsigned(c.draw(3));
            std::size_t const a = std::size_t(1) << i, h = std::size_t(c.range(1, 12)), s = c.chance(1, 2) ? 4 : 2;
            bool const        g = c.chance(2, 3), w = s == 4;
            std::string const F = std::string(g ? "guarded<" : "plain<") + ty[i] + "," + n(tag) + ">";
            return {"xitren::func::packet<part<" + n(h) + "," + n(tag) + ">," + F + "," + (w ? "sum32" : "sum16") + "> p{}; (void)p;",
                    "a packet of a " + n(h) + " byte header, " + (g ? "a class" : "a plain structure") + " aligned to " + n(a)
                        + " and a " + n(s) + " byte checksum",
                    !g || (h % a == 0 && s % a == 0), h % a == 0 || s % a == 0};
        }
        std::size_t const h = std::size_t(c.range(1, 12)), f = std::size_t(c.range(1, 20));
        bool const        w = c.chance(1, 2);
        std::size_t const need = h + f + (w ? 4 : 2);
        std::size_t const size = std::max<std::int64_t>(1, std::int64_t(need) + (c.chance(1, 2) ? c.range(-1, 1) : c.range(-12, 12)));
        return {"std::array<std::uint8_t," + n(size) + "> a{}; auto r = xitren::func::packet<part<" + n(h) + "," + n(tag) + ">,part<"
                    + n(f) + "," + n(tag) + ">," + (w ? "sum32" : "sum16") + ">::deserialize(a); (void)r;",
                "a packet of " + n(need) + " bytes read from an array of " + n(size), size >= need,
                size + 1 >= need && size <= need + 1};
    }
    case 3: {
        std::size_t const h = std::size_t(c.range(1, 12)), f = std::size_t(c.range(1, 20)), t = std::size_t(c.range(1, 9));
        bool const        w = c.chance(1, 2);
        std::size_t const need = h + f + (w ? 4 : 2);
        std::size_t const size = std::max<std::int64_t>(1, std::int64_t(need) + (c.chance(1, 2) ? c.range(-1, 1) : c.range(-12, 12)));
        std::string const H = "part<" + n(h) + "," + n(tag) + ">", F = "part<" + n(f) + "," + n(tag + 1000) + ">",
                          T = "part<" + n(t) + "," + n(tag) + ">", C = w ? "sum32" : "sum16";
        std::string how = "xitren::func::packet_accessor<" + n(size) + "> a{}; ";
        switch (c.draw(2)) {
        case 0: how += "auto r = a.deserialize<" + H + "," + F + "," + T + "," + C + ">(); (void)r;"; break;
        case 1: how += "auto r = a.deserialize_no_check<" + H + "," + F + "," + T + "," + C + ">(); (void)r;"; break;
        default:
            how += "decltype(a)::fields_in<" + H + "," + F + "," + T + "> in{}; a.serialize<" + H + "," + F + "," + T + "," + C
                   + ">(in);";
        }
        return {how, "a buffer of " + n(size) + " bytes for at least " + n(need), size >= need,
                size + 1 >= need && size <= need + 1};
    }
    case 4: {
        std::size_t const s = c.chance(1, 2) ? 0 : std::size_t(c.range(1, 40));
        return {"xitren::cache::lru<part<1," + n(tag) + ">*,int," + n(s) + (c.chance(1, 2) ? ",true" : ",false")
                    + "> l{std::chrono::seconds{1}}; (void)l;",
                "a cache of " + n(s), s > 0, s < 2};
    }
    case 5: {
        bool const        vt = c.chance(2, 3), calc = c.chance(2, 3);
        std::string const crc = std::string("struct crc { ") + (vt ? "using value_type = xitren::func::lsb_t<std::uint16_t>; " : "")
                                + (calc ? "static xitren::func::lsb_t<std::uint16_t> calculate(std::uint8_t*, std::uint8_t*) { return {}; } "
                                          "static xitren::func::lsb_t<std::uint16_t> calculate(std::uint8_t const*, std::uint8_t const*) { return {}; } "
                                        : "")
                                + "}; ";
        return {crc + "using p = xitren::func::packet<part<2," + n(tag) + ">,part<3," + n(tag) + ">,crc>; p q{}; (void)q;",
                std::string("a checksum") + (vt ? "" : " without value_type") + (calc ? "" : " without calculate"), vt && calc, true};
    }
    case 6: {
        unsigned const miss = unsigned(c.draw(7));    // 4 and more: nothing is missing
        static char const* const f[] = {"trace", "debug", "warning", "error"};
        std::string lg = "struct lg { ";
        for (unsigned i = 0; i < 4; ++i)
            if (i != miss)
                lg += std::string("static void ") + f[i] + "() {} ";
        lg += "}; ";
        bool const pool = c.chance(1, 2);
        return {lg + "using t = xitren::comm::" + (pool ? "pipeline_stage_pool<int,int,4,2,lg>" : "pipeline_stage<int,int,4,lg>")
                    + "; t* p = nullptr; (void)p; (void)sizeof(t);",
                std::string(pool ? "a pool" : "a stage") + " with a log adapter" + (miss < 4 ? std::string(" without ") + f[miss] : ""),
                miss >= 4, true};
    }
    default: {
        struct kind {
            char const *decl, *what;
        };
        static kind const ks[] = {
            {"xitren::cache::lru<int,int,3,false> a{std::chrono::seconds{1}};", "cache"},
            {"xitren::func::interval_event a{[] {}};", "interval event"},
            {"xitren::comm::values::observed<int> a{[](auto const&) {}};", "observed value"},
            {"xitren::comm::values::observable<int, 8> a{};", "observable value"},
            {"xitren::comm::values::observable<int, 0> a{};", "dynamic observable value"},
            {"xitren::allocators::static_heap<256> a{};", "heap"},
            {"xitren::comm::manager<4> a{};", "manager"},
            {"static xitren::comm::manager<4> m{}; struct mod : xitren::comm::module<int, int> { using module::module; void data(int const&) "
             "override {} }; mod a{m};",
             "module"},
        };
        static kind const lists[] = {
            {"struct ob : xitren::comm::observer<int, ob> { void notification_impl(xitren::comm::observable_impl<int> const&, int const&) "
             "noexcept {} }; ob o{}; xitren::comm::observable<int, ob> a{o};",
             "compile-time observable of one"},
            {"struct ob : xitren::comm::observer<int, ob> { void notification_impl(xitren::comm::observable_impl<int> const&, int const&) "
             "noexcept {} }; ob o{}; xitren::comm::observable<int, ob, ob, ob> a{o, o, o};",
             "compile-time observable of three"},
        };
        static kind const evs[] = {
            {"xitren::comm::observable_static<int, 4> a{};", "fixed-capacity event observable"},
            {"xitren::comm::observable_dynamic<int> a{};", "dynamic event observable"},
        };
        auto const  pos = c.draw(9);
        auto const& k   = pos < 8 ? ks[pos] : events ? evs[pos - 8] : lists[pos - 8];
        switch (c.draw(3)) {
        case 0: return {k.decl, std::string("a ") + k.what, true, true};
        case 1: return {std::string(k.decl) + " auto b{a};", std::string("a copy of a ") + k.what, false, true};
        case 2: return {std::string(k.decl) + " auto b{static_cast<decltype(a)&&>(a)};", std::string("a moved ") + k.what, false, true};
        default:
            return {std::string(k.decl) + " decltype(a)* b = &a; *b = static_cast<decltype(a) const&>(a);",
                    std::string("an assigned ") + k.what, false, true};
        }
    }
    }
}

// Feeds `src` to the compiler and returns its diagnostics.
std::string
compile(std::string const& src, int& status, bool gcc = false)
{
    int in[2], out[2];
    if (pipe2(in, O_CLOEXEC) || pipe2(out, O_CLOEXEC))
        _exit(3);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, in[0], 0);
    posix_spawn_file_actions_adddup2(&fa, out[1], 1);
    posix_spawn_file_actions_adddup2(&fa, out[1], 2);
    char const* argv[] = {gcc ? "g++" : "clang++", "-std=c++20", "-w", "-fsyntax-only",
                          gcc ? "-fmax-errors=0" : "-ferror-limit=0", "-ftemplate-backtrace-limit=0",
                          gcc ? "-fno-diagnostics-show-caret" : "-fno-caret-diagnostics", "-I", REPO_INCLUDE, "-isystem",
                          HARNESS_STUB, "-x", "c++", "-", nullptr};
    pid_t       pid    = 0;
    if (posix_spawnp(&pid, argv[0], &fa, nullptr, const_cast<char**>(argv), environ))
        _exit(3);
    close(in[0]);
    close(out[1]);
    std::signal(SIGPIPE, SIG_IGN);
    std::size_t done = 0;
    while (done < src.size()) {
        ssize_t const k = write(in[1], src.data() + done, src.size() - done);
        if (k <= 0)
            break;
        done += std::size_t(k);
    }
    close(in[1]);
    std::string r;
    char        b[65536];
    ssize_t     k;
    while ((k = read(out[0], b, sizeof b)) > 0)
        r.append(b, std::size_t(k));
    close(out[0]);
    waitpid(pid, &status, 0);
    return r;
}

}    // namespace

void
property(pbt::ctx& c)
{
    std::vector<use> us;
    bool const        all = c.chance(1, 5), events = all && c.chance(1, 2);
    std::string const head = (all ? std::string(more_headers) + one_of[events] : std::string()) + prelude;
    std::string       src  = head;
    while (us.size() < 60 && c.more(40)) {
        auto const u = make_use(c, int(us.size()), all, events);
        auto const i = us.size();
        src += "#line 1 \"use" + n(i) + "!\"\n" + u.ahead + "void use" + n(i) + "() { " + u.text + " }\n";
        us.push_back(u);
    }
    int         status = 0;
    std::string diag   = compile(src, status);
    bool        gcc    = false;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 1) {
        // clang is the faster of the two; what only gcc, the library's own compiler, takes is judged by gcc
        static int takes[3] = {-1, -1, -1};
        if (takes[all + events] < 0) {
            int               plain = 0;
            std::string const none  = compile(head, plain);
            takes[all + events]     = none.empty() && WIFEXITED(plain) && !WEXITSTATUS(plain);
        }
        gcc = !takes[all + events];
        if (gcc)
            diag = compile(src, status, true);
    }
    if (WIFSIGNALED(status) || (WIFEXITED(status) && WEXITSTATUS(status) > 1))
        _exit(0);    // the compiler itself was ended (memory): decides nothing
    // an error belongs to every use named in its own line or in the notes that follow it
    std::vector<std::string> why(us.size());
    std::vector<std::size_t> ahead;
    std::string              current, unowned;
    bool                     owned = true, any = false;
    std::size_t              at = 0;
    auto                     flush = [&] {    // the compiler does not repeat the notes of the error before
        if (!owned && !any && unowned.empty())
            unowned = current;
    };
    while (at < diag.size()) {
        auto e = diag.find('\n', at);
        if (e == std::string::npos)
            e = diag.size();
        std::string const line = diag.substr(at, e - at);
        at                     = e + 1;
        bool const is_error = line.find(" error: ") != std::string::npos;
        if (is_error) {
            flush();
            current = line;
            owned   = false;
        }
        // gcc names the place that led to an error before the error
        if (gcc && (is_error || line.find(" note: ") != std::string::npos)) {
            for (auto v : ahead) {
                owned = any = true;
                if (why[v].empty())
                    why[v] = current;
            }
            ahead.clear();
        }
        bool const before = gcc && line.find(" error: ") == std::string::npos && line.find(" note: ") == std::string::npos;
        for (std::size_t p = 0; (p = line.find("use", p)) != std::string::npos; p += 3) {
            std::size_t   q = p + 3;
            std::uint64_t v = 0;
            while (q < line.size() && std::isdigit(static_cast<unsigned char>(line[q])))
                v = v * 10 + std::uint64_t(line[q++] - '0');
            if (before && q > p + 3 && q < line.size() && line[q] == '!' && v < us.size())
                ahead.push_back(v);
            else if (q > p + 3 && q < line.size() && line[q] == '!' && v < us.size() && !current.empty()) {
                owned = any = true;
                if (why[v].empty())
                    why[v] = current;
            }
        }
    }
    flush();
    PBT_CHECK(unowned.empty(), "an error that belongs to no single use: %s", unowned.c_str());
    bool yes = false, no = false, edge = false;
    for (std::size_t i = 0; i < us.size(); ++i) {
        auto const& u = us[i];
        c.op("%s: %s%s%s", u.what.c_str(), why[i].empty() ? "accepted" : "refused", why[i].empty() ? "" : " | ", why[i].c_str());
        PBT_CHECK(why[i].empty() == u.ok, "%s: %s, although it %s: %s   [%s]", u.what.c_str(),
                  why[i].empty() ? "accepted" : "refused", u.ok ? "fits" : "cannot work", u.text.c_str(), why[i].c_str());
        (u.ok ? yes : no) = true;
        edge |= u.edge;
        c.label(u.ok ? "uses that fit" : "uses that do not");
    }
    if (yes && no && edge)
        c.nontrivial();
}
