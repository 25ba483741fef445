// @props A01
// @src src/app/settings.cpp src/task/event.cpp src/core/lifetime.cpp src/core/mutex.cpp src/core/service.cpp src/core/reference_counted.cpp src/core/string_utils.cpp src/core/uuid.cpp src/io/openssl.cpp
// @link -lboost_locale -lcrypto
// Settings: every history of registering, setting, clearing, applying, discarding, deleting, saving and reloading, as a
// state space, against a reference of values, pending changes, notifications and the stored file.
#include <map>
#include <filesystem>
#include <neolib/app/settings.hpp>
#include "mc.hpp"
#include "enumerate.hpp"
#include <memory>
#include <limits>
#include <cmath>
#include <unistd.h>
using namespace neolib; namespace fs = std::filesystem; typedef std::string S; typedef std::vector<S> L; using mc::choose;
static bool sServices = (services::allocate_service_provider(), true);
namespace neolib { enum class colour : std::uint32_t { Red, Green, Blue = 7 }; }
begin_declare_enum(colour) declare_enum_string(colour, Red) declare_enum_string(colour, Green) declare_enum_string(colour, Blue) end_declare_enum(colour)
struct area { fs::path p; area() { char t[] = "/tmp/mc_a01_XXXXXX"; if (!mkdtemp(t)) std::abort(); p = t; } ~area() { std::error_code e; fs::remove_all(p, e); } };
static string str(S const& s) { return string{ s }; }
// --- the four settings: values by number ------------------------------------------------------------
typedef std::optional<int> opt;
static std::int32_t ints[] = { 1, 2, -3 }; static double doubles[] = { 0.5, 0.1 + 0.2, -1e-300 }; static colour colours[] = { colour::Red, colour::Blue, colour::Green };
static string const& text(int v) { static string const t[] = { string{ "x" }, string{ " <&\"'> \xC3\xBC" }, string{ "" } }; return t[v]; }
struct kind
{
    S key; bool optional, disabled, hidden; std::function<i_setting&(i_settings&)> add; std::function<void(i_setting&, int)> set, apply, preset; std::function<void(i_settings&, i_setting&, int, bool)> change;
    std::function<int(i_setting const&, bool)> get; std::function<int(i_setting_value const&)> number; setting_type type; S name; std::function<S(int)> as_text;
};
template <typename T, typename V> static kind make(S key, bool optional, bool disabled, S format, V value, setting_type type, S name, std::function<S(int)> as_text)
{
    kind k; k.key = key; k.optional = optional; k.disabled = disabled; k.hidden = format.empty(); k.type = type; k.name = name; k.as_text = as_text;
    k.add = [=](i_settings& s) -> i_setting& { return s.register_setting(str(key), T(value(0)), setting_constraints<T>{ optional, disabled }, str(format)); };
    k.set = [=](i_setting& s, int v) { s.set_value(T(value(v))); }; k.apply = [=](i_setting& s, int v) { s.apply_value(T(value(v))); }; k.preset = [=](i_setting& s, int v) { s.set_default_value(T(value(v))); };
    k.change = [=](i_settings& m, i_setting& s, int v, bool now) { m.change_setting(s, T(value(v)), now); };
    k.number = [=](i_setting_value const& x) { for (int v = 0; v < 3; ++v) if (T(x.get<T>()) == T(value(v))) return v; return -1; }; k.get = [=](i_setting const& s, bool pending) { auto const& x = s.value<T>(pending); for (int v = 0; v < 3; ++v) if (T(x) == T(value(v))) return v; return -1; };
    return k;
}
static std::vector<kind> const& kinds()
{
    static std::vector<kind> const k{ make<std::int32_t>("g.a", false, false, "f", [](int v) { return ints[v]; }, setting_type::Int32, "int32_t", [](int v) { return std::to_string(ints[v]); }),
        make<string>("g.b", true, false, "", [](int v) { return text(v); }, setting_type::String, "string", [](int v) { return text(v).to_std_string(); }),
        make<double>("g.a.c", true, false, "", [](int v) { return doubles[v]; }, setting_type::Float64, "double", nullptr),
        make<colour>("d", false, true, "h", [](int v) { return colours[v]; }, setting_type::Enum, "enum", [](int v) { return v == 0 ? S("Red") : v == 1 ? S("Blue") : S("Green"); }) };
    return k;
}
struct model { bool here = false, enabled = true; int def = 0; opt val; std::optional<opt> pend; int value() const { return val ? *val : def; } };
struct rig
{
    area a; std::unique_ptr<settings> s; std::vector<int> which; std::map<int, model> m; std::vector<int> order; std::map<int, int> file; bool stored = false, flag = false; L log, want; std::vector<event<>*> keep;
    S path() const { return (a.p / "s.xml").string(); }
    i_settings& all() { return *s; }
    void start()
    {
        s.reset(); s = std::make_unique<settings>(str(path())); order.clear(); for (auto& [i, x] : m) x = {}; flag = false;
        s->SettingChanging([this](i_setting const& x) { log.push_back("changing " + x.key().to_std_string()); }); s->SettingChanged([this](i_setting const& x) { log.push_back("changed " + x.key().to_std_string()); });
        s->SettingDeleted([this](i_setting const& x) { log.push_back("deleted " + x.key().to_std_string()); }); s->SettingsChanged([this](i_string const& c) { log.push_back("category " + c.to_std_string()); });
    }
    void add(int i)
    {
        auto const& k = kinds()[i]; auto& x = k.add(*s); auto& r = m[i]; r = {}; r.here = true; r.enabled = !k.disabled; order.push_back(i); if (file.count(i) && file[i] != r.def) r.val = file[i];
        x.changing()([this, n = k.key] { log.push_back("own changing " + n); }); x.changed()([this, n = k.key] { log.push_back("own changed " + n); });
    }
    i_setting& get(int i) { return s->setting(str(kinds()[i].key)); }
    void changing(int i) { want.push_back("own changing " + kinds()[i].key); want.push_back("changing " + kinds()[i].key); }
    void changed(int i) { want.push_back("own changed " + kinds()[i].key); want.push_back("changed " + kinds()[i].key); flag = true; }
    void save() { file.clear(); for (auto& [i, x] : m) if (x.here && x.val) file[i] = *x.val; flag = false; stored = true; }
    void set(int i, int v) { auto& x = m[i]; if (x.value() != v) { if (!x.pend || *x.pend != opt(v)) { x.pend = opt(v); changing(i); } } else if (x.pend) { x.pend.reset(); changing(i); } }
    bool apply(int i) { auto& x = m[i]; if (!x.pend) return false; bool const c = x.val != *x.pend; x.val = *x.pend; x.pend.reset(); if (c) changed(i); else changing(i); return true; }
    std::vector<int> by_key() const { std::vector<int> r; for (auto& [i, x] : m) if (x.here) r.push_back(i); std::sort(r.begin(), r.end(), [](int a, int b) { return kinds()[a].key < kinds()[b].key; }); return r; }
    bool modified() const { for (auto& [i, x] : m) if (x.pend) return true; return flag; }
    void check()
    {
        MC_CHECK(log == want, "events", mc::show(log), " expected ", mc::show(want)); log.clear(); want.clear(); settings const& c = *s; MC_CHECK(c.modified() == modified(), "modified", modified());
        L keys; for (auto const& e : c.all_settings()) { keys.push_back(e.first().to_std_string()); MC_CHECK(e.second()->key() == e.first(), "key", ""); } L expected; for (int i : by_key()) expected.push_back(kinds()[i].key); MC_CHECK(keys == expected, "all_settings", mc::show(keys));
        L inOrder; for (auto const& e : c.all_settings_ordered()) inOrder.push_back(e->key().to_std_string()); L o; for (int i : order) o.push_back(kinds()[i].key); MC_CHECK(inOrder == o, "all_settings_ordered", mc::show(inOrder), " expected ", mc::show(o));
        for (int i : which)
        {
            auto const& k = kinds()[i]; auto const& x = m[i]; if (!x.here) { bool thrown = false; try { c.setting(str(k.key)); } catch (i_settings::setting_not_found const&) { thrown = true; } MC_CHECK(thrown, "unknown setting", k.key); continue; }
            i_setting const& g = c.setting(str(k.key)); S const who = k.key; MC_CHECK(&g.manager() == s.get() && g.key() == str(k.key) && g.hidden() == k.hidden && g.format().empty() == k.hidden && g.enabled() == x.enabled && g.is_enabled() == x.enabled && g.disabled() != x.enabled, "description", who);
            MC_CHECK(g.modified() == x.pend.has_value(), "modified", who); MC_CHECK(g.is_default() == !x.val && g.is_default(true) == (x.pend ? !*x.pend : !x.val), "is_default", who); MC_CHECK(k.number(g.default_value()) == x.def, "default", who);
            MC_CHECK(k.get(g, false) == x.value() && k.number(g.value()) == x.value(), "value", who, " ", k.get(g, false), " expected ", x.value()); int const pending = x.pend ? *x.pend ? **x.pend : x.def : x.value(); MC_CHECK(k.get(g, true) == pending && k.number(g.value(true)) == pending, "pending value", who);
            MC_CHECK(g.value().type() == k.type && g.value().type_name() == str(k.name), "type", who, " ", g.value().type_name()); if (k.as_text) MC_CHECK(g.value_as_string() == k.as_text(x.value()) && g.value_as_string(true) == k.as_text(pending), "text", who, " ", g.value_as_string());
            bool thrown = false; try { auto const& p = g.modified_value(); MC_CHECK(x.pend && p.is_set() == x.pend->has_value() && (!p.is_set() || k.number(p) == **x.pend), "modified_value", who); } catch (i_setting::setting_not_modified const&) { thrown = true; } MC_CHECK(thrown == !x.pend, "modified_value", who);
        }
    }
    std::uint64_t hash() const { std::uint64_t h = 17; for (int i : which) { auto const& x = m.at(i); mc::hash_combine(h, x.here * 2 + x.enabled); mc::hash_combine(h, x.def); mc::hash_combine(h, x.val.value_or(-1)); mc::hash_combine(h, x.pend ? x.pend->value_or(5) : -1); auto f = file.find(i); mc::hash_combine(h, f == file.end() ? -1 : f->second); } for (int i : order) mc::hash_combine(h, i + 9); mc::hash_combine(h, flag * 2 + stored); return h; }
    bool step()
    {
        auto const n = std::uint32_t(which.size()); auto const op = choose(4 + n * 15); 
        switch (op)
        {
        case 0: s->apply_changes(); if (modified()) { std::set<S> c; for (int i : by_key()) if (apply(i)) c.insert(kinds()[i].key.substr(0, kinds()[i].key.find('.'))); for (auto& x : c) want.push_back("category " + x); save(); } break;
        case 1: s->discard_changes(); for (int i : by_key()) if (m[i].pend) { m[i].pend.reset(); changing(i); } break;
        case 2: s->save(); save(); break;
        case 3: { auto const again = order; start(); log.clear(); want.clear(); for (int i : again) add(i); break; }
        default:
        {
            int const i = which[(op - 4) / 15], act = int(op - 4) % 15; auto const& k = kinds()[i]; auto& x = m[i];
            if (act == 0) { if (x.here) { bool thrown = false; try { k.add(*s); } catch (i_settings::setting_already_registered const&) { thrown = true; } MC_CHECK(thrown, "registered twice", k.key); } else add(i); break; }
            if (!x.here) throw mc::prune{}; i_setting& g = get(i);
            switch (act)
            {
            case 1: case 2: case 3: k.set(g, act - 1); set(i, act - 1); break;
            case 4: case 5: k.change(*s, g, act - 3, true); set(i, act - 3); apply(i); save(); break;
            case 6: k.change(*s, g, 2, false); set(i, 2); break;
            case 7: k.apply(g, 1); set(i, 1); apply(i); break;
            case 8: { bool thrown = false; try { g.clear(); } catch (i_setting::setting_not_optional const&) { thrown = true; } MC_CHECK(thrown == !k.optional, "clear", k.key); if (!thrown) { if (x.val) { x.pend = opt{}; changing(i); } else if (x.pend) { x.pend.reset(); changing(i); } } break; }
            case 9: case 10: k.preset(g, act - 9); if (x.def != act - 9) { x.def = act - 9; if (!x.val) changed(i); } break;
            case 11: g.set_enabled(!x.enabled); x.enabled = !x.enabled; changed(i); break;
            case 12: if (x.enabled) g.enable(); else g.set_enabled(false); break;
            case 13: s->delete_setting(g); want.push_back("deleted " + k.key); x = {}; order.erase(std::find(order.begin(), order.end(), i)); save(); break;
            case 14: g.set_value_from_string(str(k.as_text ? k.as_text(1) : S("0.30000000000000004"))); set(i, 1); break;
            }
        }
        }
        mc::op(); return true;
    }
};
static void explore(std::vector<int> which) { rig r; r.which = which; for (int i : which) r.m[i]; r.start(); for (;;) { r.check(); mc::checkpoint(r.hash()); r.step(); } }
MC_STATESPACE("histories/int-string", 6, 40) { explore({ 0, 1 }); }
MC_STATESPACE("histories/int-double", 6, 40) { explore({ 0, 2 }); }
MC_STATESPACE("histories/string-enum", 6, 40) { explore({ 1, 3 }); }
MC_STATESPACE("histories/three", 4, 7) { explore({ 3, 1, 2 }); }
// every history of a shorter length, without looking at states
MC_SCENARIO_S("histories/plain", 2) { rig r; r.which = choose(2) ? std::vector<int>{ 0, 1 } : std::vector<int>{ 2, 3 }; for (int i : r.which) r.m[i]; r.start(); if (choose(2)) for (int i : r.which) r.add(i); for (int d = 0; d < mc::tier(3, 4); ++d) { r.step(); r.check(); } mc::validated(); }
// --- values of every type survive text and file ------------------------------------------------------
template <typename T> static void survives(std::vector<T> const& values, T const& def)
{
    auto const& v = values[choose(std::uint32_t(values.size()))]; auto const how = choose(3); area a; auto const file = str((a.p / "s.xml").string()); auto same = [](T const& x, T const& y) { if constexpr (std::is_floating_point_v<T>) return x == y && std::signbit(x) == std::signbit(y); else return x == y; };
    { settings s{ file }; auto& x = static_cast<i_settings&>(s).register_setting(string{ "a.b" }, def, setting_constraints<T>{}); MC_CHECK(same(T(x.template value<T>()), def), "default", ""); if (how == 0) { x.set_value(v); s.apply_changes(); } else if (how == 1) static_cast<i_settings&>(s).change_setting(x, v); else { x.apply_value(v); s.save(); } MC_CHECK(same(T(x.template value<T>()), v), "value", x.value_as_string());
      settings o{ string{} }; auto& y = static_cast<i_settings&>(o).register_setting(string{ "z" }, def, setting_constraints<T>{}); y.set_value_from_string(str(x.value_as_string())); MC_CHECK(same(T(y.template value<T>(true)), v), "text", x.value_as_string(), " gives ", y.value_as_string(true)); }
    { settings s{ file }; auto& x = static_cast<i_settings&>(s).register_setting(string{ "a.b" }, def, setting_constraints<T>{}); MC_CHECK(same(T(x.template value<T>()), v), "reloaded", x.value_as_string()); MC_CHECK(!x.modified() && !s.modified(), "reloaded", "modified"); s.save(); }
    { settings s{ file }; auto& x = static_cast<i_settings&>(s).register_setting(string{ "a.b" }, def, setting_constraints<T>{}); MC_CHECK(same(T(x.template value<T>()), v), "reloaded again", x.value_as_string()); }
    mc::validated();
}
template <typename T> static std::vector<T> limits() { std::vector<T> r{ std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(1), T(2), T(7), T(9), T(10), T(13), T(32), T(34), T(38), T(48), T(60), T(65), T(100), T(127) }; if constexpr (std::is_signed_v<T>) { r.push_back(T(-1)); r.push_back(T(-48)); } if constexpr (std::is_floating_point_v<T>) for (T x : { T(1) / 3, T(0.1), T(1e-5), T(123456789), T(16777217), std::numeric_limits<T>::epsilon(), std::numeric_limits<T>::denorm_min(), T(-2.5) }) r.push_back(x); return r; }
MC_SCENARIO("types/bool") { survives<bool>({ true, false }, choose(2)); }
MC_SCENARIO("types/int8") { survives<std::int8_t>(limits<std::int8_t>(), 0); }
MC_SCENARIO("types/uint8") { survives<std::uint8_t>(limits<std::uint8_t>(), 0); }
MC_SCENARIO("types/int16") { survives<std::int16_t>(limits<std::int16_t>(), 0); }
MC_SCENARIO("types/uint16") { survives<std::uint16_t>(limits<std::uint16_t>(), 0); }
MC_SCENARIO("types/int32") { survives<std::int32_t>(limits<std::int32_t>(), 0); }
MC_SCENARIO("types/uint32") { survives<std::uint32_t>(limits<std::uint32_t>(), 0); }
MC_SCENARIO("types/int64") { survives<std::int64_t>(limits<std::int64_t>(), 0); }
MC_SCENARIO("types/uint64") { survives<std::uint64_t>(limits<std::uint64_t>(), 0); }
MC_SCENARIO("types/float") { survives<float>(limits<float>(), 0); }
MC_SCENARIO("types/double") { survives<double>(limits<double>(), 0); }
MC_SCENARIO("types/enum") { survives<colour>({ colour::Red, colour::Green, colour::Blue }, colour::Green); }
MC_SCENARIO("types/string") { std::vector<string> v; for (auto const& s : L{ "", "a", " ", "  a  ", "a b", "<a>", "&amp;", "\"", "'", "]]>", "\xC3\xA4\xE2\x82\xAC", "a=b", "/", "%d{}", S(3000, 'q') }) v.push_back(str(s)); survives<string>(v, string{ "default" }); }
// --- categories, groups, friendly texts, constraints -------------------------------------------------
MC_STATESPACE("catalogue", 5, 8)
{
    settings s{ string{} }; std::map<S, S> categories; std::map<S, std::map<S, S>> groups; std::map<std::pair<int, S>, S> friendly; L const c{ "a", "b" }, g{ "a", "a.x", "a.y", "b.x" }, t{ "", "T", "U" };
    auto& p = static_cast<i_settings&>(s).register_setting(string{ "p" }, 1); auto& q = static_cast<i_settings&>(s).register_setting(string{ "q" }, 1); i_setting* const both[] = { &p, &q };
    for (;;)
    {
        L got, want; for (auto const& e : s.all_categories()) got.push_back(e.first().to_std_string() + "=" + e.second().to_std_string()); for (auto const& [k, v] : categories) want.push_back(k + "=" + v); MC_CHECK(got == want, "categories", mc::show(got)); got.clear(); want.clear();
        for (auto const& e : s.all_groups()) for (auto const& f : e.second()) got.push_back(e.first().to_std_string() + ":" + f.first().to_std_string() + "=" + f.second().to_std_string()); for (auto const& [k, v] : groups) for (auto const& [x, y] : v) want.push_back(k + ":" + x + "=" + y); MC_CHECK(got == want, "groups", mc::show(got));
        for (auto const& k : c) { bool thrown = false; try { auto const& title = s.category_title(str(k)); MC_CHECK(categories.count(k) && title.to_std_string() == categories[k], "category_title", k); } catch (i_settings::category_not_found const&) { thrown = true; } MC_CHECK(thrown == !categories.count(k), "category_title", k); }
        for (auto const& k : g) { auto const top = k.substr(0, k.find('.')); bool const has = groups.count(top) && groups[top].count(k); bool thrown = false; try { auto const& title = s.group_title(str(k)); MC_CHECK(has && title.to_std_string() == groups[top][k], "group_title", k); } catch (i_settings::group_not_found const&) { thrown = true; } MC_CHECK(thrown == !has, "group_title", k); }
        for (int i = 0; i < 2; ++i) for (S k : { "1", "2" }) { auto f = friendly.find({ i, k }); MC_CHECK(s.friendly_text(*both[i], str(k)).to_std_string() == (f == friendly.end() ? k : f->second), "friendly_text", i, k); }
        std::uint64_t h = 5; for (auto& [k, v] : categories) { mc::hash_combine(h, k); mc::hash_combine(h, v); } for (auto& [k, v] : groups) for (auto& [x, y] : v) { mc::hash_combine(h, x); mc::hash_combine(h, y); } for (auto& [k, v] : friendly) { mc::hash_combine(h, k.first); mc::hash_combine(h, k.second + v); } mc::checkpoint(h);
        switch (choose(3))
        {
        case 0: { auto& k = c[choose(2)]; auto& v = t[choose(2)]; static_cast<i_settings&>(s).register_category(str(k), str(v)); categories[k] = v; break; }
        case 1: { auto& k = g[choose(4)]; auto& v = t[choose(2)]; static_cast<i_settings&>(s).register_group(str(k), str(v)); groups[k.substr(0, k.find('.'))][k] = v; break; }
        case 2: { auto const i = int(choose(2)); S const k = choose(2) ? "1" : "2"; auto& v = t[1 + choose(2)]; s.register_friendly_text(*both[i], str(k), str(v)); friendly[{ i, k }] = v; break; }
        }
        mc::op();
    }
}
template <typename T> static void constraint(T const& lo, T const& hi, T const& step)
{
    typedef setting_value<T> V; bool const optional = choose(2), disabled = choose(2), a = choose(2), b = choose(2), c = choose(2); auto const n = choose(3); vector<V> allowed; for (std::uint32_t i = 0; i < n; ++i) allowed.push_back(V{ i ? hi : lo });
    setting_constraints<T> k{ optional, disabled, a ? V{ lo } : V{}, b ? V{ hi } : V{}, c ? V{ step } : V{}, allowed }; setting_constraints<T> const copy{ static_cast<i_setting_constraints const&>(k) }, same{ k };
    settings s{ string{} }; auto& set = static_cast<i_settings&>(s).register_setting(string{ "s" }, lo, k, string{ "f" }); setting<T> const other{ static_cast<i_setting const&>(set) };
    for (i_setting_constraints const* x : { static_cast<i_setting_constraints const*>(&k), static_cast<i_setting_constraints const*>(&copy), static_cast<i_setting_constraints const*>(&same), &set.constraints(), static_cast<i_setting_constraints const*>(&other.constraints()) })
    {
        MC_CHECK(x->optional() == optional && x->initially_disabled() == disabled && x->has_minimum_value() == a && x->has_maximum_value() == b && x->has_step_value() == c && x->has_allowable_values() == (n != 0), "constraints", "");
        if (a) MC_CHECK(T(x->template minimum_value<T>()) == lo, "minimum", ""); if (b) MC_CHECK(T(x->template maximum_value<T>()) == hi, "maximum", ""); if (c) MC_CHECK(T(x->template step_value<T>()) == step, "step", ""); MC_CHECK(x->allowable_values().size() == n, "allowed", "");
        for (std::uint32_t i = 0; i < n; ++i) MC_CHECK(T(x->allowable_values()[i].template get<T>()) == (i ? hi : lo), "allowed", i);
        bool thrown = false; try { x->minimum_value().template get<T>(); } catch (i_setting_value::not_set const&) { thrown = true; } MC_CHECK(thrown == !a, "minimum", "");
    }
    MC_CHECK(set.enabled() == !disabled && other.enabled() == !disabled && other.key() == set.key() && other.format() == set.format(), "setting", ""); mc::op(); mc::validated();
}
MC_SCENARIO("constraints") { if (choose(2)) constraint<std::int32_t>(1, 9, 2); else constraint<double>(0.5, 9.5, 0.25); }
MC_SCENARIO("values") // equality and order of values
{
    typedef setting_value<std::int32_t> I; typedef setting_value<double> D; typedef setting_value<string> T; I const i[] = { I{}, I{ 1 }, I{ 2 } }; T const t[] = { T{}, T{ string{ "a" } }, T{ string{ "b" } } }; D const d[] = { D{}, D{ 0.5 }, D{ 1.5 } };
    std::vector<i_setting_value const*> all; for (auto& x : i) all.push_back(&x); for (auto& x : d) all.push_back(&x); for (auto& x : t) all.push_back(&x); auto const a = choose(9), b = choose(9); auto const& x = *all[a]; auto const& y = *all[b];
    MC_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b), "order", a, " ", b); if (a / 3 == b / 3) { auto test = [&](auto v) { typedef decltype(v) V; V p{ x }, q{ p }; MC_CHECK(p == x && q == x && p.is_set() == x.is_set(), "copy", ""); p = V{ y }; MC_CHECK(p == y && q == x, "assign", ""); p.clear(); MC_CHECK(!p.is_set(), "clear", ""); }; if (a < 3) test(I{}); else if (a < 6) test(D{}); else test(T{}); } mc::op(); mc::validated();
}
// --- damaged files -----------------------------------------------------------------------------------
static void damaged(S const& content, bool strict)
{
    area a; auto const file = (a.p / "s.xml").string(); { std::ofstream o(file, std::ios::binary); o << content; } settings s{ str(file) }; i_settings& all = s;
    auto& x = all.register_setting(string{ "g.a" }, std::int32_t(4)); if (strict) MC_CHECK(x.value<std::int32_t>() == 4 && x.is_default() && !x.modified(), "value", content, " gives ", x.value_as_string()); auto& y = all.register_setting(string{ "g.b" }, string{ "x" }); if (strict) MC_CHECK(y.value<string>() == string{ "x" } && y.is_default(), "value", content);
    all.change_setting(x, std::int32_t(5)); all.change_setting(y, string{ "y" }); settings again{ str(file) }; auto& z = static_cast<i_settings&>(again).register_setting(string{ "g.a" }, std::int32_t(4)); MC_CHECK(z.value<std::int32_t>() == 5, "saved over", content); mc::op();
}
MC_SCENARIO("files/without") { for (S const& s : L{ "", " ", "<settings/>", "<settings></settings>", "<settings><g/></settings>", "<settings><a value='1'/><b value='1'/></settings>", "<settings><g><c value='1'/></g></settings>", "<settings><g><a type='int32_t'/><b/></g></settings>", "<settings><g><a><b value='7'/></a><b><c value='z'/></b></g></settings>", "<settings><x><g><a value='3'/></g></x></settings>" }) damaged(s, true); mc::validated(); }
MC_SCENARIO("files/damaged")
{
    S const whole = "<settings><g><a type=\"int32_t\" value=\"-17\"/><b type=\"string\" value=\"q&amp;r\"/></g></settings>"; mc::heavy(); auto const part = choose(8);
    for (std::size_t n = part; n < whole.size(); n += 8) { damaged(whole.substr(0, n), false); for (char c : { 'x', '<', '>', '/', '"', '&', ' ', '\0' }) { auto w = whole; w[n] = c; damaged(w, false); w = whole; w.insert(n, 1, c); damaged(w, false); } auto w = whole; w.erase(n, 1); damaged(w, false); } mc::validated();
}
// --- handlers that use the settings they hear from ----------------------------------------------------
MC_SCENARIO("handlers")
{
    static char const* const keys[] = { "a", "b", "c" }; area a; settings s{ str((a.p / "s.xml").string()) }; i_settings& all = s; for (auto k : keys) all.register_setting(string{ k }, std::int32_t(0)); auto get = [&](char const* k) -> i_setting& { return s.setting(string{ k }); };
    auto const event = choose(4), whose = choose(3), act = choose(7), call = choose(4); bool done = false; L changed;
    auto now = [&](i_setting const& x, std::uint32_t e) { if (e == 1 || e == 3) changed.push_back(x.key().to_std_string()); if (done || e != event || x.key() != string{ keys[whose] }) return; done = true;
        switch (act) { case 0: s.delete_setting(get("a")); break; case 1: s.delete_setting(get("b")); break; case 2: s.delete_setting(get("c")); break; case 3: s.discard_changes(); break; case 4: s.apply_changes(); break; case 5: all.register_setting(string{ "aa" }, std::int32_t(9)); break; case 6: all.change_setting(get("c"), std::int32_t(8)); break; } };
    s.SettingChanging([&](i_setting const& x) { now(x, 0); }); s.SettingChanged([&](i_setting const& x) { now(x, 1); }); for (auto k : keys) { auto const x = &get(k); x->changing()([&, x] { now(*x, 2); }); x->changed()([&, x] { now(*x, 3); }); }
    auto set = [&](char const* k, std::int32_t v) { if (s.all_settings().find(string{ k }) != s.all_settings().end()) { ref_ptr<i_setting> const x{ get(k) }; x->set_value(v); } };
    set("a", 1); set("b", 2); if (call != 3) set("c", 3); switch (call) { case 0: case 3: s.apply_changes(); break; case 1: s.discard_changes(); break; case 2: all.change_setting(*s.all_settings_ordered().as_std_vector().front(), std::int32_t(5)); break; }
    s.apply_changes(); MC_CHECK(!s.modified(), "modified", ""); L present, ordered; for (auto const& e : s.all_settings()) { present.push_back(e.first().to_std_string()); MC_CHECK(!e.second()->modified(), "modified", ""); } for (auto const& e : s.all_settings_ordered()) ordered.push_back(e->key().to_std_string()); std::sort(ordered.begin(), ordered.end()); MC_CHECK(present == ordered, "order", mc::show(present));
    L want{ "a", "b", "c" }; if (done && act < 3) want.erase(want.begin() + act); if (done && act == 5) want.insert(want.begin() + 1, "aa"); MC_CHECK(present == want, "settings", mc::show(present)); settings again{ str((a.p / "s.xml").string()) }; for (auto const& k : want) { auto& x = static_cast<i_settings&>(again).register_setting(str(k), std::int32_t(k == "aa" ? 9 : 0)); MC_CHECK(x.value<std::int32_t>() == get(k.c_str()).value<std::int32_t>(), "saved", k); } mc::op(); mc::validated();
}
