// @props P01
// @src src/plugin/plugin_manager.cpp src/app/module.cpp src/posix/app/posix_module.cpp src/app/application_info.cpp src/file/file.cpp
// @src src/task/timer.cpp src/task/timer_object.cpp src/task/async_task.cpp src/task/event.cpp src/task/thread.cpp src/task/waitable_event.cpp src/task/time_slice.cpp
// @src src/core/lifetime.cpp src/core/mutex.cpp src/core/service.cpp src/core/reference_counted.cpp src/core/uuid.cpp src/io/openssl.cpp src/core/string_utils.cpp
// @link -lboost_chrono -lboost_filesystem -lboost_locale -lcrypto -ldl
// @flags -Ddlopen=mc_dlopen -Ddlsym=mc_dlsym -Ddlclose=mc_dlclose -Ddlerror=mc_dlerror
// Plugins and modules: every history of loading, initializing, unloading and failing over modules made here: dlopen, dlsym
// and dlclose are answered by the harness, which knows when the code of a plugin would be gone.
#include <map>
#include <set>
#include <string>
#include <filesystem>
#include <fstream>
#include <neolib/plugin/plugin_manager.hpp>
#include <neolib/plugin/plugin.hpp>
#include <neolib/app/application_info.hpp>
#include "mc.hpp"
#include "enumerate.hpp"
#include <memory>
#include <unistd.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <dlfcn.h>
using namespace neolib; namespace fs = std::filesystem; typedef std::string S; typedef std::vector<S> L; using mc::choose;
static bool sServices = (services::allocate_service_provider(), true);
struct area { fs::path p; area() { char t[] = "/tmp/mc_p01_XXXXXX"; if (!mkdtemp(t)) std::abort(); p = fs::canonical(t); } ~area() { std::error_code e; fs::remove_all(p, e); } };
enum how { FINE, MISSING, NO_ENTRY, NO_PLUGIN, ENTRY_THROWS, ENTRY_THROWS_INT, LOAD_FALSE, LOAD_THROWS, INIT_FALSE, INIT_THROWS, UNLOAD_FALSE, SAME_ID, KINDS };
struct fake_module { int opens = 0; how kind = FINE; int index = 0; };
static std::map<S, fake_module> sModules; static fake_module* sAsked = nullptr; static int sPlugins = 0; static S sProgram;
static S id_text(int i) { return "00000000-0000-0000-0000-00000000000" + std::to_string(i); }
static uuid const& common() { static uuid const u = make_uuid("10000000-0000-0000-0000-000000000000"); return u; }
struct fake_plugin : plugin<>
{
    fake_module& m; uuid iId; string iName, iText; neolib::version iVersion{ 1, 2, 3 };
    fake_plugin(fake_module& aModule) : m{ aModule }, iId{ make_uuid(id_text(m.kind == SAME_ID ? 0 : m.index)) }, iName{ std::to_string(m.index) } { ++sPlugins; }
    ~fake_plugin() { here(); --sPlugins; }
    void here() const { if (m.opens <= 0) mc::fail("code is gone", "a plugin was used after its module was closed"); }
    bool discover(uuid const& aId, void*& aObject) override { here(); if (aId == common() || aId == iId) { aObject = this; return true; } return false; }
    uuid const& id() const override { here(); return iId; } i_string const& name() const override { here(); return iName; } i_string const& description() const override { here(); return iText; } i_version const& version() const override { here(); return iVersion; } i_string const& copyright() const override { here(); return iText; }
    bool load() override { here(); if (m.kind == LOAD_THROWS) throw std::runtime_error("no load"); return m.kind != LOAD_FALSE && plugin<>::load(); }
    bool initialize() override { here(); if (m.kind == INIT_THROWS) throw std::runtime_error("no initialize"); return m.kind != INIT_FALSE && plugin<>::initialize(); }
    bool unload() override { here(); return m.kind != UNLOAD_FALSE && plugin<>::unload(); }
    bool open_uri(i_string const& u) override { here(); return u.to_std_string() == "any" || u.to_std_string() == std::to_string(m.index); }
};
static void entry(i_application&, i_string const&, i_ref_ptr<i_plugin>& aResult)
{
    auto& m = *sAsked; if (m.kind == ENTRY_THROWS) throw std::runtime_error("no entry"); if (m.kind == ENTRY_THROWS_INT) throw 1; if (m.kind != NO_PLUGIN) aResult = make_ref<fake_plugin>(m);
}
extern "C"
{
    void* dlopen(char const* p, int) noexcept { auto i = p ? sModules.find(p) : sModules.end(); if (i == sModules.end() || i->second.kind == MISSING) return nullptr; ++i->second.opens; return &i->second; }
    void* dlsym(void* h, char const* n) noexcept { for (auto& m : sModules) if (&m.second == h) { sAsked = &m.second; if (m.second.opens <= 0) abort(); return m.second.kind != NO_ENTRY && S(n) == "entry_point" ? (void*)&entry : nullptr; } return nullptr; }
    int dlclose(void* h) noexcept { for (auto& m : sModules) if (&m.second == h) { if (m.second.opens <= 0) abort(); --m.second.opens; return 0; } return -1; }
    char* dlerror() noexcept { static char t[] = "no such module"; return t; }
    ssize_t readlink(char const* p, char* b, size_t n) noexcept { if (!sProgram.empty() && S(p) == "/proc/self/exe") { auto const k = std::min(n, sProgram.size()); std::memcpy(b, sProgram.data(), k); return ssize_t(k); } return syscall(SYS_readlinkat, AT_FDCWD, p, b, n); }
}
struct app : reference_counted<i_application>
{
    application_info iInfo; std::unique_ptr<neolib::plugin_manager> iManager;
    app(S const& folder, S const& extension = ".plg") : iInfo{ "name", {}, neolib::version{ 1, 0, 0 }, {}, folder, "/x", "/y", extension } { pin(); }
    ~app() { iManager.reset(); }
    bool discover(uuid const& aId, void*& aObject) override { return iManager->discover(aId, aObject); }
    i_service_provider& service_provider() const override { return services::get_service_provider(); } i_application_info const& info() const override { return iInfo; } i_plugin_manager& plugin_manager() override { return *iManager; }
};
struct entry_of { int i; bool initialized = false, enabled = true; };
struct rig
{
    area a; std::unique_ptr<app> p; std::vector<S> paths; std::vector<how> kinds; std::vector<int> found; std::vector<entry_of> list; L log, want; std::function<void(S const&)> on; bool strict = true;
    rig(std::vector<how> k) : kinds{ k }
    {
        sModules.clear(); sPlugins = 0; sProgram = (a.p / "bin" / "prog").string(); fs::create_directories(a.p / "bin"); fs::create_directories(a.p / "plugins" / "sub"); { std::ofstream o(a.p / "plugins" / "x.txt"); } static char const* const names[] = { "p0.plg", "sub/p1.plg", "p2.plg" };
        for (std::size_t i = 0; i < k.size(); ++i) { paths.push_back((a.p / "plugins" / names[i]).string()); { std::ofstream o(paths.back()); } sModules[paths.back()] = { 0, k[i], int(i) }; }
        for (auto const& e : fs::recursive_directory_iterator(a.p / "plugins")) for (std::size_t i = 0; i < k.size(); ++i) if (e.path().string() == paths[i]) found.push_back(int(i));
        p = std::make_unique<app>(a.p.string()); p->iManager = std::make_unique<plugin_manager>(*p); auto& m = *p->iManager; m.plugin_folders().clear(); m.plugin_folders().push_back(string{ (a.p / "plugins").string() }); m.plugin_folders().push_back(string{ "/nonexistent" });
        auto say = [this](S const& s) { log.push_back(s); if (on) on(s); }; m.PluginLoaded([=](i_plugin& x) { say("loaded " + x.name().to_std_string()); }); m.PluginInitialized([=](i_plugin& x) { say("initialized " + x.name().to_std_string()); }); m.PluginUnloaded([=](i_plugin& x) { say("unloaded " + x.name().to_std_string()); });
        m.PluginLoadFailure([=, this](i_string const& t) { S who = "-"; for (std::size_t i = 0; i < paths.size(); ++i) if (t.to_std_string().find(paths[i]) != S::npos) who = std::to_string(i); say("failure " + who); });
    }
    ~rig() { on = nullptr; p.reset(); MC_LATE(); }
    void MC_LATE() { sProgram.clear(); }
    plugin_manager& m() { return *p->iManager; }
    int number(int i) const { return kinds[i] == SAME_ID ? 0 : i; }
    entry_of* at(int i) { for (auto& e : list) if (e.i == i) return &e; return nullptr; }
    i_plugin* plugin(int i) { for (auto& x : m().plugins()) if (x->name().to_std_string() == std::to_string(i)) return x.ptr(); return nullptr; }
    void drop(int i) { want.push_back("unloaded " + std::to_string(i)); list.erase(std::find_if(list.begin(), list.end(), [&](auto& e) { return e.i == i; })); }
    bool load(int i, bool later)
    {
        auto const k = kinds[i]; auto const fail = [&] { want.push_back("failure " + std::to_string(i)); return false; }; if (k >= MISSING && k <= LOAD_THROWS) return fail(); for (auto& e : list) if (number(e.i) == number(i)) return fail();
        list.push_back({ i }); want.push_back("loaded " + std::to_string(i)); if (later) return true; if (k == INIT_FALSE || k == INIT_THROWS) { drop(i); return fail(); } at(i)->initialized = true; want.push_back("initialized " + std::to_string(i)); return true;
    }
    bool initialize(int i) { if (kinds[i] == INIT_FALSE || kinds[i] == INIT_THROWS) { drop(i); return false; } at(i)->initialized = true; want.push_back("initialized " + std::to_string(i)); return true; }
    bool unload(int i) { if (kinds[i] == UNLOAD_FALSE) return false; drop(i); return true; }
    void check()
    {
        MC_CHECK(log == want, "events", mc::show(log), " expected ", mc::show(want)); L have, expected; for (auto const& x : m().plugins()) have.push_back(x->name().to_std_string()); for (auto& e : list) expected.push_back(std::to_string(e.i)); MC_CHECK(have == expected, "plugins", mc::show(have), " expected ", mc::show(expected)); consistent();
        for (auto& e : list) { auto& x = *plugin(e.i); MC_CHECK(x.loaded() && x.initialized() == e.initialized && x.enabled() == e.enabled && m().plugin_enabled(x) == e.enabled, "state", e.i); }
    }
    void consistent()
    {
        std::set<int> open; std::set<S> ids; for (auto const& x : m().plugins()) { auto const i = std::stoi(x->name().to_std_string()); open.insert(i); MC_CHECK(ids.insert(id_text(number(i))).second, "same id twice", ""); MC_CHECK(m().find_plugin(x->id()).ptr() == x.ptr(), "find_plugin", ""); }
        for (std::size_t i = 0; i < paths.size(); ++i) { MC_CHECK(sModules[paths[i]].opens == int(open.count(int(i))), "modules", i, " open ", sModules[paths[i]].opens); bool const there = ids.count(id_text(int(i))); MC_CHECK((m().find_plugin(make_uuid(id_text(int(i)))) != nullptr) == there, "find_plugin", i); }
        MC_CHECK(sPlugins == int(open.size()), "plugin objects", sPlugins); void* o = nullptr; auto const& all = m().plugins(); MC_CHECK(m().discover(common(), o) == !all.empty() && (all.empty() || o == static_cast<fake_plugin*>(all.front().ptr())), "discover", ""); if (!all.empty()) { o = nullptr; MC_CHECK(m().discover(all.back()->id(), o) && o == static_cast<fake_plugin*>(all.back().ptr()), "discover", ""); }
        o = nullptr; MC_CHECK(!m().discover(make_uuid("20000000-0000-0000-0000-000000000000"), o) && o == nullptr, "discover", "nothing"); MC_CHECK(m().open_uri(string{ "any" }) == !all.empty() && !m().open_uri(string{ "none" }), "open_uri", ""); for (int i = 0; i < 3; ++i) MC_CHECK(m().open_uri(string{ std::to_string(i) }) == (open.count(i) != 0), "open_uri", i);
    }
    void end() { on = nullptr; p.reset(); MC_CHECK(sPlugins == 0, "plugin objects", "left"); for (auto& x : sModules) MC_CHECK(x.second.opens == 0, "modules", "left open"); }
};
static std::vector<how> kinds() { how const first[] = { FINE, INIT_FALSE, INIT_THROWS, UNLOAD_FALSE, LOAD_FALSE }, third[] = { FINE, SAME_ID, INIT_THROWS }; return { first[choose(5)], how(choose(SAME_ID)), third[choose(3)] }; }
MC_SCENARIO_S("plugins/histories", 4)
{
    rig r{ kinds() }; auto& m = r.m();
    for (int d = 0; d < mc::tier(3, 4); ++d)
    {
        auto const op = choose(17); int const i = int(op) % 3; r.log.clear(); r.want.clear();
        if (op < 3) { bool const want = r.load(i, false); MC_CHECK(m.load_plugin(string{ r.paths[i] }) == want, "load_plugin", i); }
        else if (op < 6) { bool const want = r.load(i, true); MC_CHECK(m.load_plugin(string{ r.paths[i] }, true) == want, "load_plugin", i); }
        else if (op < 15)
        {
            auto const x = r.plugin(i); MC_CHECK((x != nullptr) == (r.at(i) != nullptr), "plugins", i); if (!x) throw mc::prune{};
            if (op < 9) { bool const want = r.unload(i); MC_CHECK(m.unload_plugin(*x) == want, "unload_plugin", i); }
            else if (op < 12) { bool const want = r.initialize(i); bool thrown = false; try { MC_CHECK(m.initialize_plugin(*x) == want, "initialize_plugin", i); } catch (std::runtime_error const&) { thrown = true; } MC_CHECK(thrown == (r.kinds[i] == INIT_THROWS), "initialize_plugin", i); }
            else { auto& e = *r.at(i); e.enabled = !e.enabled; m.enable_plugin(*x, e.enabled); }
        }
        else if (op == 15)
        {
            bool some = false; for (int j : r.found) r.load(j, true); auto const list = r.list; for (auto& e : list) if (!e.initialized) { bool const ok = r.initialize(e.i); some = ok || some; if (r.kinds[e.i] == INIT_THROWS) r.want.push_back("failure -"); } MC_CHECK(m.load_plugins() == some, "load_plugins", "");
        }
        else { bool some = false; auto const list = r.list; for (auto e = list.rbegin(); e != list.rend(); ++e) some = r.unload(e->i) || some; MC_CHECK(m.unload_plugins() == some, "unload_plugins", ""); }
        r.check(); mc::op();
    }
    r.end(); mc::validated();
}
// a handler of an event loads or unloads plugins
MC_SCENARIO_S("plugins/handlers", 3)
{
    how const k[] = { FINE, INIT_FALSE, INIT_THROWS, UNLOAD_FALSE }; rig r{ { k[choose(4)], k[choose(4)], choose(2) ? SAME_ID : FINE } }; auto const event = choose(4); auto const act = choose(8); S const names[] = { "loaded", "initialized", "unloaded", "failure" }; bool done = false; auto const nth = choose(2); std::uint32_t count = 0; auto& m = r.m();
    r.on = [&](S const& s) { if (done || s.find(names[event]) != 0 || count++ != nth) return; done = true; int const i = int(act) % 3; if (act < 3) m.load_plugin(string{ r.paths[i] }, act == 1); else if (act < 6) { if (auto x = r.plugin(i)) m.unload_plugin(*x); } else if (act == 6) m.unload_plugins(); else m.load_plugins(); };
    for (int d = 0; d < 2; ++d) { auto const op = choose(4); if (op < 2) m.load_plugin(string{ r.paths[op] }); else if (op == 2) m.load_plugins(); else m.unload_plugins(); r.consistent(); mc::op(); } r.end(); mc::validated();
}
MC_SCENARIO("plugins/debug") { mc::allow_leaks(); rig r{ { FINE, FINE, FINE } }; r.m().debug_dont_unload_modules(); for (int i = 0; i < 3; ++i) r.m().load_plugin(string{ r.paths[i] }); auto const n = int(choose(4)); for (int i = 0; i < n; ++i) r.m().unload_plugin(*r.plugin(i)); for (int i = 0; i < 3; ++i) MC_CHECK(sModules[r.paths[i]].opens == 1, "kept", i); if (n) { MC_CHECK(r.m().load_plugin(string{ r.paths[0] }), "load again", ""); } MC_CHECK(int(r.m().plugins().size()) == 3 - n + (n ? 1 : 0), "plugins", ""); mc::validated(); }
// the folders plugins are looked for in: that of the application and that of the program, once each and none below another
MC_SCENARIO("folders")
{
    area a; L const names{ "a", "a/b", "ab", "b", "a/b/c" }; for (auto const& n : names) fs::create_directories(a.p / n); auto const& x = names[choose(5)]; auto const& y = names[choose(5)]; sProgram = (a.p / y / "prog").string(); { std::ofstream o(sProgram); } app p((a.p / x).string() + (choose(2) ? "/." : ""), ".ext"); auto const m = std::make_unique<plugin_manager>(p);
    std::set<S> want; auto below = [](S const& s, S const& t) { return s.rfind(t + "/", 0) == 0; }; if (!below(x, y)) want.insert((a.p / x).string()); if (!below(y, x)) want.insert((a.p / y).string()); L got; for (auto const& f : m->plugin_folders()) got.push_back(f.to_std_string()); MC_CHECK(got == L(want.begin(), want.end()), "folders", mc::show(got), " expected ", mc::show(want));
    MC_CHECK(m->plugin_file_extensions().size() == 1 && m->plugin_file_extensions()[0].to_std_string() == ".ext" && m->plugins().empty(), "extension", ""); sProgram.clear(); mc::op(); mc::validated();
}
// --- modules -----------------------------------------------------------------------------------------
MC_SCENARIO_S("modules", 3)
{
    sModules.clear(); sModules["one"] = {}; sModules["two"] = {}; sModules["bad"] = { 0, MISSING }; struct ref { S path; bool open = false; }; std::vector<std::unique_ptr<neolib::module>> m(2); std::vector<ref> r(2); for (auto& x : m) x = std::make_unique<neolib::module>();
    auto check = [&](int leaked) { std::map<S, int> want; for (std::size_t i = 0; i < 2; ++i) if (m[i]) { MC_CHECK(m[i]->loaded() == r[i].open && m[i]->path() == r[i].path, "module", i); MC_CHECK((m[i]->procedure<void*>("entry_point") != nullptr) == r[i].open && m[i]->procedure_address("other") == nullptr, "procedure", i); if (r[i].open) ++want[r[i].path]; } int extra = 0; for (auto& [p, x] : sModules) { MC_CHECK(x.opens >= want[p], "open", p); extra += x.opens - want[p]; } MC_CHECK(extra == leaked, "open", extra); };
    int leaked = 0;
    for (int d = 0; d < mc::tier(4, 5); ++d)
    {
        auto const op = choose(9); auto const i = choose(2), j = 1 - i; bool thrown = false; auto attempt = [&](auto f) { try { f(); } catch (std::runtime_error const&) { thrown = true; } };
        switch (op)
        {
        case 0: case 1: { S const p = op ? "two" : "one"; m[i] = std::make_unique<neolib::module>(p); r[i] = { p, true }; break; }
        case 2: attempt([&] { m[i] = std::make_unique<neolib::module>("bad"); }); MC_CHECK(thrown, "missing module", ""); break;
        case 3: { bool ok = false; attempt([&] { ok = m[i]->load(); }); bool const can = !r[i].path.empty(); MC_CHECK(!thrown && ok == can, "load", ""); r[i].open = can; break; }
        case 4: m[i]->unload(); r[i].open = false; break;
        case 5: *m[i] = *m[j]; r[i] = r[j]; break;
        case 6: *m[i] = std::move(*m[j]); r[i] = r[j]; m[j] = std::make_unique<neolib::module>(); r[j] = {}; break;
        case 7: if (choose(2)) { auto c = std::make_unique<neolib::module>(*m[j]); m[i] = std::move(c); r[i] = r[j]; } else { auto c = std::make_unique<neolib::module>(std::move(*m[j])); m[i] = std::move(c); r[i] = r[j]; m[j] = std::make_unique<neolib::module>(); r[j] = {}; } break;
        case 8: if (r[i].open) ++leaked; mc::allow_leaks(); m[i]->release(); r[i].open = false; break;
        }
        check(leaked); mc::op();
    }
    m.clear(); r.assign(2, {}); m.resize(2); check(leaked); mc::validated();
}
