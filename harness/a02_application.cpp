// @props A02
// @src src/app/application_info.cpp src/app/os_version.cpp src/file/file.cpp src/core/reference_counted.cpp src/core/lifetime.cpp src/core/string_utils.cpp
// @link -lboost_filesystem -lboost_locale
// Versions: every pair and triple over boundary components, text and back, every short text. Application information and
// program arguments: every combination of what is given, copied through the interface, with the home directory made here.
#include <map>
#include <string>
#include <filesystem>
#include <neolib/app/version.hpp>
#include <neolib/app/application_info.hpp>
#include <neolib/app/os_version.hpp>
#include "mc.hpp"
#include "enumerate.hpp"
#include <sstream>
#include <unistd.h>
#include <pwd.h>
using namespace neolib; namespace fs = std::filesystem; typedef std::string S; typedef std::vector<S> L; using mc::choose;
static S sHome; // what the code takes for the home directory
extern "C" passwd* getpwuid(uid_t) { static passwd p{}; p.pw_dir = sHome.data(); return &p; }
struct area { fs::path p; area() { char t[] = "/tmp/mc_a02_XXXXXX"; if (!mkdtemp(t)) std::abort(); p = t; sHome = p.string(); } ~area() { std::error_code e; fs::current_path("/", e); fs::remove_all(p, e); } };
typedef std::array<std::uint32_t, 4> Q;
static Q parts(i_version const& v) { return { v.version_major(), v.version_minor(), v.version_maintenance(), v.version_build() }; }
static std::uint32_t const N[] = { 0, 1, 2, 10, 0xFFFFFFFFu };
static Q pick(std::uint32_t n) { return { N[choose(n)], N[choose(n)], N[choose(n)], N[choose(n)] }; }
MC_SCENARIO("version/order")
{
    auto const a = pick(mc::tier(4, 5)); version const x{ a[0], a[1], a[2], a[3] }; mc::heavy(); auto const n = mc::tier(4, 5);
    for (int i = 0; i < n * n * n * n; ++i)
    {
        Q const b{ N[i % n], N[i / n % n], N[i / n / n % n], N[i / n / n / n] }; version const y{ b[0], b[1], b[2], b[3], "name" };
        MC_CHECK((x < y) == (a < b) && (y < x) == (b < a), "less", mc::show(a), " ", mc::show(b)); MC_CHECK((x > y) == (a > b), "greater", mc::show(a), " ", mc::show(b)); MC_CHECK((x == y) == (a == b) && (x != y) == (a != b), "equal", mc::show(a), " ", mc::show(b)); mc::op();
    }
    mc::validated();
}
MC_SCENARIO("version/text")
{
    auto const a = pick(5); for (S const& name : L{ "", "beta", "release candidate 2", "4th", "a.b", "b" })
    {
        version const v{ a[0], a[1], a[2], a[3], name }; MC_CHECK(parts(v) == a && v.version_name().to_std_string() == name, "components", ""); version const c{ static_cast<i_version const&>(v) }, d{ v }; MC_CHECK(parts(c) == a && c.version_name().to_std_string() == name && parts(d) == a && c == v, "copy", "");
        S const dots = mc::str(a[0], ".", a[1], ".", a[2]); S const tail = name.empty() ? S{} : " " + name; std::ostringstream o; o << v; MC_CHECK(o.str() == dots + "." + std::to_string(a[3]) + tail, "output", o.str()); S const t = to_string(static_cast<i_version const&>(v)); MC_CHECK(t == dots + (a[3] ? "." + std::to_string(a[3]) : S{}) + tail, "to_string", t);
        for (S const& s : { o.str(), t }) { version const r{ s }; MC_CHECK(parts(r) == a, "read", s, " gives ", mc::show(parts(r))); MC_CHECK(r.version_name().to_std_string() == name, "name", s, " gives '", r.version_name().to_std_string(), "'"); }
        version const m{ mc::str(a[0], ".", a[1]) + tail }; MC_CHECK((parts(m) == Q{ a[0], a[1], 0, 0 }) && m.version_name().to_std_string() == name, "short", ""); version const w{ mc::str(a[0]) }; MC_CHECK((parts(w) == Q{ a[0], 0, 0, 0 }), "short", ""); mc::op();
    }
    mc::validated();
}
MC_SCENARIO("version/any") { static std::vector<char> const alphabet{ '1', '0', '.', ' ', 'x' }; MC_CHECK((parts(version{}) == Q{}) && version{}.version_name().empty(), "default", ""); mc::words(alphabet, 2, mc::tier(6, 8), [](auto const& w) { S const s = mc::text(w); version const v{ s }; version const r{ (std::ostringstream{} << v).str() }; MC_CHECK(parts(r) == parts(v) && r.version_name() == v.version_name(), "read again", "'", s, "' '", v.version_name().to_std_string(), "'"); mc::op(); }); }
static S lower(S s) { for (auto& c : s) c = char(std::tolower(c)); return s; }
MC_SCENARIO("arguments")
{
    L const words{ "", "a", "-pocket", "/POCKET", "--pocket", "-Removable", "/removable", "pocket", "-pocket=1" }; auto const n = choose(4); L given; for (std::uint32_t i = 0; i < n; ++i) given.push_back(words[choose(9)]); std::vector<char*> raw; for (auto& g : given) raw.push_back(g.data()); raw.push_back(nullptr); area a;
    bool removable = false; for (std::size_t i = 1; i < given.size(); ++i) for (S w : { "/pocket", "-pocket", "/removable", "-removable" }) removable = removable || lower(given[i]) == w;
    program_arguments const p{ int(n), raw.data() }, q{ p }, r{ static_cast<i_program_arguments const&>(p) }; application_info const x{ int(n), raw.data(), "name" }, y{ p, "name" }, z{ static_cast<i_application_info const&>(x) };
    for (i_program_arguments const* i : { static_cast<i_program_arguments const*>(&p), static_cast<i_program_arguments const*>(&q), static_cast<i_program_arguments const*>(&r), static_cast<i_program_arguments const*>(&x.arguments()), static_cast<i_program_arguments const*>(&y.arguments()), static_cast<i_program_arguments const*>(&z.arguments()) })
    { MC_CHECK(i->argc() == int(n) && i->argv() == raw.data(), "argc", ""); L got; for (auto const& s : i->as_vector()) got.push_back(s.to_std_string()); MC_CHECK(got == given, "arguments", mc::show(got)); }
    MC_CHECK(x.removable() == removable && y.removable() == removable && z.removable() == removable, "removable", mc::show(given)); program_arguments const none; MC_CHECK(none.argc() == 0 && none.argv() == nullptr && none.as_vector().empty(), "none", ""); mc::op(); mc::validated();
}
MC_SCENARIO("information")
{
    area a; bool const name = choose(2), company = choose(2), af = choose(2), sf = choose(2), df = choose(2), plugin = choose(2), args = choose(2); auto const copies = choose(3); fs::create_directories(a.p / "cwd"); fs::create_directories(a.p / "other"); fs::current_path(a.p / "cwd"); auto const before = [&] { L r; for (auto const& e : fs::recursive_directory_iterator(a.p)) r.push_back(e.path().string()); std::sort(r.begin(), r.end()); return r; }; auto const files = before();
    S const n = name ? "app name" : "", c = company ? "a company" : "", afv = af ? "/x/app" : "", sfv = sf ? "/x/set" : "", dfv = df ? "/x/data" : "", ext = plugin ? ".so" : ".plg"; version const v{ 1, 2, 3, 4, "five" }; char arg0[] = "prog"; char* raw[] = { arg0, nullptr };
    auto make = [&]() -> application_info { if (args) return plugin ? application_info{ 1, raw, n, c, v, "(c)", afv, sfv, dfv, ext } : application_info{ 1, raw, n, c, v, "(c)", afv, sfv, dfv }; return plugin ? application_info{ n, c, v, "(c)", afv, sfv, dfv, ext } : application_info{ n, c, v, "(c)", afv, sfv, dfv }; };
    std::unique_ptr<application_info> x = std::make_unique<application_info>(make()); for (std::uint32_t i = 0; i < copies; ++i) x = std::make_unique<application_info>(i ? get_application_info(*x) : application_info{ static_cast<i_application_info const&>(*x) }); i_application_info const& i = *x;
    MC_CHECK(before() == files, "files", "made without being asked for"); MC_CHECK(i.name().to_std_string() == n && i.company().to_std_string() == c && parts(i.version()) == parts(v) && i.version().version_name().to_std_string() == "five" && i.copyright().to_std_string() == "(c)" && i.plugin_extension().to_std_string() == ext && !i.removable() && i.arguments().argc() == int(args), "given", "");
    MC_CHECK(i.application_folder(false).to_std_string() == afv && i.settings_folder(false).to_std_string() == sfv && i.data_folder(false).to_std_string() == dfv, "folders", i.application_folder(false).to_std_string(), " ", i.settings_folder(false).to_std_string(), " ", i.data_folder(false).to_std_string()); MC_CHECK(before() == files, "files", "made without being asked for");
    MC_CHECK(i.application_folder().to_std_string() == (af ? afv : (a.p / "cwd").string()), "application folder", i.application_folder().to_std_string()); S const settings = sf ? sfv : sHome + "/.app name"; auto folder = [&](auto f, S const& want, bool possible) { for (int k = 0; k < 2; ++k) { bool thrown = false; try { S const got = f(); MC_CHECK(got == want, "folder", got, " expected ", want); } catch (unknown_application_name const&) { thrown = true; } MC_CHECK(thrown != possible, "folder", "without a name"); } };
    folder([&] { return i.settings_folder().to_std_string(); }, settings, sf || name); folder([&] { return i.data_folder().to_std_string(); }, df ? dfv : settings, df || sf || name); if (!sf && name) MC_CHECK(fs::is_directory(settings), "settings folder", "not there"); else MC_CHECK(before() == files, "files", "made");
    MC_CHECK(i.settings_folder(false).to_std_string() == sfv && i.application_folder(false).to_std_string() == afv, "folders", "changed"); mc::op(); mc::validated();
}
