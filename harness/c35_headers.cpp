// C35: every public header is enough for what it offers, in any combination, order and number of translation units.
#include "pbt.hpp"

#include <fcntl.h>
#include <spawn.h>
#include <string>

char const* const property_rule
    = "One case is a program of 1 to 4 translation units, each including 1 to 18 of the public headers in a generated order "
      "(some repeatedly) and using what it included (in half the cases also instantiating every member of every class), built by g++ or clang++ as C++20 or 23 at a generated optimisation level with and without DEBUG and "
      "the locks, linked and run. It must compile, link, and every use must work; a header that is the only one included is "
      "followed by nothing but what its use itself needs. Non-trivial: two units include the same header, or the same headers in "
      "different orders, or a unit includes one header alone.";
bool const property_flaky = false;
void
known_findings()
{}

extern char** environ;

namespace {

struct part {
    char const *header, *needs, *use;    // use: the body of a function that returns whether it worked
    char const* all = "";                // what instantiates every member of what it offers
};
// what a use itself needs is included behind everything else
part const parts[] = {
    {"allocators/static_heap.hpp", "",
     "xitren::allocators::static_heap<256> h; void* p = h.allocate(40); auto const left = h.free_heap_size();"
     " h.deallocate(p); return p && h.free_heap_size() > left && h.minimum_ever_free_heap_size() == left;",
     "template class xitren::allocators::static_heap<320>;"},
    {"allocators/static_heap_allocator.hpp", "#include <vector>\n",
     "xitren::allocators::static_heap<1024> h; xitren::allocators::static_heap_allocator<int, 1024> a{h};"
     " std::vector<int, xitren::allocators::static_heap_allocator<int, 1024>> v{a};"
     " for (int i = 0; i < 20; ++i) v.push_back(i); return v[19] == 19 && a == v.get_allocator();",
     "template class xitren::allocators::static_heap_allocator<short, 512>; template class xitren::allocators::static_heap_allocator<long double, 768>;"},
    {"cache/lru.hpp", "",
     "xitren::cache::lru<int, int, 2> c{std::chrono::hours{1}}; c.put(1, 10); c.put(2, 20); c.get(1); c.put(3, 30);"
     " return c.get(1) && !c.get(2) && *c.get(3) == 30;",
     "template class xitren::cache::lru<char, long, 3, true>; template class xitren::cache::lru<long, char, 2, false>;"},
    {"cache/exceptions.hpp", "",
     "try { throw xitren::cache::cache_timeout{}; } catch (std::exception const& e) { return e.what()[0] != 0; } return false;"},
    {"comm/observer_errors.hpp", "", "return int(xitren::comm::observer_errors::ok) == 0;"},
    {"comm/observer.hpp", "",
     "struct o_t : xitren::comm::observer<int> { int n = 0, off = 0; void data(void const*, int const& v) override { n += v; }"
     " void disconnect(void const*) override { ++off; } } a, b;"
     " xitren::comm::observable_static<int, 2> s; xitren::comm::observable_dynamic<int> d;"
     " s.add_observer(a); d.add_observer(b); s.notify_observers(2); d.notify_observers(3); s.clear_observers(); d.remove_observer(b);"
     " return a.n == 2 && b.n == 3 && a.off == 1 && b.off == 0;",
     "template class xitren::comm::observer<char>; template class xitren::comm::observable<char, true, 3>; template class xitren::comm::observable<char, false, 0>;"},
    {"comm/observer_static.hpp", "",
     "struct o_t : xitren::comm::observer<int, o_t> { int n = 0;"
     " void notification_impl(xitren::comm::observable_impl<int> const&, int const& v) { n += v; } } a, b;"
     " xitren::comm::observable<int, o_t, o_t> s{a, b}; s.notify(3); return a.n == 3 && b.n == 3;"},
    {"comm/values/observable.hpp", "",
     "xitren::comm::values::observable<int, 2> s; xitren::comm::values::observable_dynamic<int> d; s = 3; d = 4; ++s; d += 2;"
     " volatile auto& v = s; v += 3; v--; volatile auto& w = d; --w; w -= 1; w = 7;"
     " return s.value() == 6 && d.value() == 7;",
     "template class xitren::comm::values::observable<short, 3>; template class xitren::comm::values::observable<double, 0>;"},
    {"comm/values/observed.hpp", "",
     "int n = 0; xitren::comm::values::observed<int> o{[&](int v) { n = v; }}; o.notification(nullptr, 7);"
     " return n == 7 && o.value() == 7;",
     "template class xitren::comm::values::observed<unsigned char>;"},
    {"comm/values/pre_def.hpp", "", "xitren::comm::values::observable<int, 3>* p = nullptr; return !p;"},
    {"comm/mediator.hpp", "",
     "struct ping { int i; }; struct pong { char c; };"
     " struct a_t : xitren::comm::module<ping, pong> { using module::module; int n = 0; void data(pong const& p) override { n += p.c; } };"
     " struct b_t : xitren::comm::module<pong, ping> { using module::module; int n = 0; void data(ping const& p) override { n += p.i; } };"
     " xitren::comm::manager<4> m; a_t a{m}; b_t b{m}; a.send(ping{5}); b.send(pong{6}); return a.n == 6 && b.n == 5;",
     "template class xitren::comm::manager<7>; struct note_%u { int i; }; template class xitren::comm::module<note_%u, note_%u>;"},
    {"comm/pipeline_stage.hpp", "",
     "int n = 0; { xitren::comm::pipeline_stage<int, void, 4, LOG> s{[&](auto, int v, auto) { n += v; }};"
     " for (int i = 0; i < 9; ++i) s.push(i); } return n == 36;",
     "template class xitren::comm::pipeline_stage<char, long, 3, LOG>;"},
    {"comm/pipeline_stage_pool.hpp", "",
     "std::atomic<int> n{0}; { xitren::comm::pipeline_stage_pool<int, void, 4, 2, LOG> s{[&](auto, int v, auto) { n += v; }};"
     " for (int i = 0; i < 9; ++i) s.push(i); } return n == 36;",
     "template class xitren::comm::pipeline_stage_pool<char, long, 3, 2, LOG>;"},
    {"func/argv_parser.hpp", "",
     "struct opts { int i{}; std::string s{}; double d{}; bool b{}; }; char const* av[] = {\"x\", \"-i\", \"4\", \"-b\", \"-s\", \"t u\"};"
     " auto p = xitren::func::argv_parser<opts>::instance({{\"-i\", &opts::i}, {\"-s\", &opts::s}, {\"-d\", &opts::d}, {\"-b\", &opts::b}});"
     " opts const o = p->parse(6, av); return o.i == 4 && o.s == \"t u\" && o.b;",
     "struct args_%u { int i; std::string s; double d; bool b; }; template class xitren::func::argv_parser<args_%u>;"},
    {"func/data.hpp", "",
     "using namespace xitren::func; msb_t<std::uint32_t> m{1}; lsb_t<std::uint16_t> l{0x102}; auto a = data<decltype(m)>::serialize(m);"
     " auto b = data<decltype(l)>::serialize(l); return a[3] == 1 && b[0] == 2 && m < decltype(m){2} && xitren::func::swap(std::uint16_t{1}) == 256"
     " && xitren::func::swap(std::uint64_t{1}) == (std::uint64_t{1} << 56) && data<std::uint32_t>::deserialize(a.begin()) == 0x01000000;",
     "template class xitren::func::lsb_t<std::uint16_t>; template class xitren::func::msb_t<std::uint32_t>; template class xitren::func::lsb_t<std::uint64_t>; template class xitren::func::msb_t<std::uint64_t>;"},
    {"func/packet.hpp", "",
     "struct sum { using value_type = xitren::func::lsb_t<std::uint16_t>; static value_type calculate(std::uint8_t const* b, std::uint8_t const* e)"
     " { std::uint16_t s{}; for (; b != e; ++b) s = std::uint16_t(s + *b); return {s}; } };"
     " struct __attribute__((__packed__)) h { std::uint8_t a; }; struct __attribute__((__packed__)) f { std::uint16_t b; };"
     " using p_t = xitren::func::packet<h, f, sum>; p_t p{h{1}, f{2}}; auto a = p.to_array(); xitren::func::packet_accessor<32> x;"
     " std::uint8_t d[3] = {1, 2, 3}; x.serialize<h, f, std::uint8_t, sum>({{1}, {2}, 3, d}); auto r = x.deserialize<h, f, std::uint8_t, sum>();"
     " return p.valid() && a.size() == 5 && a[3] == 3 && r.valid && r.size == 3;",
     "template class xitren::func::packet_accessor<48>;"},
    {"func/fast_pimpl.hpp", "",
     "xitren::func::fast_pimpl<long, sizeof(long), alignof(long)> p{5}; auto q = p; *q += 1; return *p == 5 && *q == 6;",
     "template class xitren::func::fast_pimpl<double, sizeof(double), alignof(double)>; template class xitren::func::fast_pimpl<int, 16, 16>;"},
    {"func/interval_event.hpp", "",
     "std::atomic<int> n{0}; { xitren::func::interval_event e{[&] { ++n; }, std::chrono::milliseconds{1}, std::chrono::milliseconds{1}};"
     " for (int i = 0; i < 5000 && !n; ++i) std::this_thread::sleep_for(std::chrono::milliseconds{1}); } return n > 0;"},
    {"func/log_adapter.hpp", "",
     "struct no { static void trace(); }; return xitren::func::log_adapter_concept<LOG> && !xitren::func::log_adapter_concept<no>;"},
};
constexpr std::size_t n_parts = sizeof parts / sizeof *parts;
constexpr std::size_t dynamic = 5, fixed = 6;    // these two declare the same names and are made for different programs

char const* const the_log = R"(
namespace { struct sink { template <class T> sink& operator<<(T const&) { return *this; } };
struct LOG { static sink trace() { return {}; } static sink debug() { return {}; } static sink warning() { return {}; } static sink error() { return {}; } }; }
)";

std::string
slurp(std::string const& path)
{
    std::string r;
    char        b[4096];
    if (FILE* f = std::fopen(path.c_str(), "r")) {
        std::size_t n;
        while ((n = std::fread(b, 1, sizeof b, f)) > 0)
            r.append(b, n);
        std::fclose(f);
    }
    return r;
}

// -> exit status as waitpid has it; what it said is in log
int
run(std::vector<std::string> const& args, std::string const& log)
{
    std::vector<char*> av;
    for (auto& a : args)
        av.push_back(const_cast<char*>(a.c_str()));
    av.push_back(nullptr);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    posix_spawn_file_actions_adddup2(&fa, 1, 2);
    pid_t pid = 0;
    int   st  = 0;
    if (posix_spawnp(&pid, av[0], &fa, nullptr, av.data(), environ))
        st = 9;    // as if ended by a signal: decides nothing
    else
        while (waitpid(pid, &st, 0) != pid) {}
    posix_spawn_file_actions_destroy(&fa);
    return st;
}

struct scratch {
    char path[32] = "/tmp/c35.XXXXXX";
    scratch()
    {
        if (!mkdtemp(path))
            _exit(0);
    }
    void
    done()
    {
        for (char const* f : {"u0.cpp", "u1.cpp", "u2.cpp", "u3.cpp", "log", "prog"})
            unlink((std::string(path) + "/" + f).c_str());
        rmdir(path);
    }
};

}    // namespace

void
property(pbt::ctx& c)
{
    unsigned const units = 1 + unsigned(c.weighted({3, 6, 2, 1}));
    bool const     debug = c.chance(1, 4), locked = c.chance(1, 4);
    auto const     other = c.chance(1, 4) ? dynamic : fixed;    // the one of the two that is not used here
    std::string    opt   = c.pick<char const*>({"-O0", "-O0", "-O0", "-O1", "-O2"});
    std::vector<std::vector<std::size_t>> has(units);
    std::vector<std::string>              text(units);
    std::string                           calls, shown;
    bool                                  alone = false, entire = c.chance(1, 2);
    bool const        clang = c.chance(1, 5);
    char const* const std_ = c.pick<char const*>({"-std=c++20", "-std=c++20", "-std=gnu++20", "-std=c++23"});
    for (unsigned u = 0; u < units; ++u) {
        std::size_t const want = c.chance(1, 3) ? 1 : c.chance(1, 6) ? n_parts : 1 + c.draw(5);
        std::vector<std::size_t> left;
        for (std::size_t i = 0; i < n_parts; ++i)
            if (i != other)
                left.push_back(i);
        // what another unit has, more often than not
        while (has[u].size() < want && !left.empty()) {
            std::size_t k = c.draw(left.size() - 1);
            if (u && c.chance(1, 2)) {
                auto const h = has[0][c.draw(has[0].size() - 1)];
                auto const f = std::find(left.begin(), left.end(), h);
                if (f != left.end())
                    k = std::size_t(f - left.begin());
            }
            has[u].push_back(left[k]);
            left.erase(left.begin() + long(k));
        }
        alone       = alone || has[u].size() == 1;
        auto& t     = text[u];
        std::string needs, body;
        shown += "  unit " + std::to_string(u) + ":";
        for (std::size_t j = 0; j < has[u].size(); ++j) {
            auto const& p = parts[has[u][j]];
            t += std::string("#include <xitren/") + p.header + ">\n";
            shown += std::string(" ") + p.header;
            needs += p.needs;
            std::string const fn = "unit" + std::to_string(u) + "_" + std::to_string(j);
            body += "bool " + fn + "() { " + p.use + " }\n";
            calls += "bool " + fn + "();\n";
        }
        if (c.chance(1, 4))    // once more
            t += std::string("#include <xitren/") + parts[has[u][c.draw(has[u].size() - 1)]].header + ">\n";
        t += needs + the_log + body;
        for (std::size_t j = 0; entire && j < has[u].size(); ++j) {
            std::string all = parts[has[u][j]].all;
            for (std::size_t at; (at = all.find("%u")) != std::string::npos;)
                all.replace(at, 2, std::to_string(u));
            t += all + "\n";
        }
        shown += "\n";
    }
    std::string main = calls + "#include <stdio.h>\n#include <unistd.h>\nint main() { alarm(100); int bad = 0;\n";
    for (unsigned u = 0; u < units; ++u)
        for (std::size_t j = 0; j < has[u].size(); ++j)
            main += "if (!unit" + std::to_string(u) + "_" + std::to_string(j) + "()) { bad = 1; puts(\"the use of "
                    + parts[has[u][j]].header + " in unit " + std::to_string(u) + " does not work\"); }\n";
    text[0] += main + "return bad; }\n";
    c.op("%s %s %s%s%s%s\n%s", clang ? "clang++" : "g++", std_, opt.c_str(), entire ? ", every member instantiated" : "", debug ? ", DEBUG" : "", locked ? ", locks on" : "", shown.c_str());
    scratch                  d;
    std::string const        at = std::string(d.path) + "/";
    std::vector<std::string> cmd{clang ? "clang++" : "g++", std_, "-w", "-pthread", opt, "-I", REPO_INCLUDE, "-isystem", HARNESS_STUB};
    if (debug)
        cmd.push_back("-DDEBUG");
    if (locked)
        cmd.push_back("-DPTHREAD_MUTEX_DEFAULT=PTHREAD_MUTEX_DEFAULT");
    for (unsigned u = 0; u < units; ++u) {
        std::string const p = at + "u" + std::to_string(u) + ".cpp";
        if (FILE* f = std::fopen(p.c_str(), "w")) {
            std::fwrite(text[u].data(), 1, text[u].size(), f);
            std::fclose(f);
        }
        cmd.push_back(p);
    }
    cmd.insert(cmd.end(), {"-o", at + "prog"});
    int const   built = run(cmd, at + "log");
    std::string said  = slurp(at + "log");
    pbt::tick();
    if (built) {
        d.done();
        if (!WIFEXITED(built) || WEXITSTATUS(built) > 1 || said.find("error") == std::string::npos
            || said.find("No space left") != std::string::npos || said.find("Killed signal") != std::string::npos)
            _exit(0);    // the compiler itself was ended (memory): decides nothing
        auto const e = said.find("error");
        PBT_CHECK(false, "the program is not built: %s", said.substr(e > 300 ? e - 300 : 0, 900).c_str());
    }
    int const ran = run({at + "prog"}, at + "log");
    said          = slurp(at + "log");
    d.done();
    if (WIFSIGNALED(ran) && WTERMSIG(ran) == SIGKILL)
        _exit(0);
    PBT_CHECK(!WIFSIGNALED(ran) || WTERMSIG(ran) != SIGALRM, "the program does not end");
    PBT_CHECK(!WIFSIGNALED(ran), "the program crashed with signal %d after: %s", WTERMSIG(ran), said.substr(0, 400).c_str());
    PBT_CHECK(ran == 0, "%s", said.substr(0, 600).c_str());
    bool shared = false;
    for (unsigned u = 1; u < units; ++u)
        for (auto h : has[u])
            shared = shared || std::find(has[0].begin(), has[0].end(), h) != has[0].end();
    if (shared || alone)
        c.nontrivial();
    if (alone)
        c.label("a header alone");
    if (shared)
        c.label("a header in two units");
}
