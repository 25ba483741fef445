// @props S04
// @src src/core/reference_counted.cpp src/core/lifetime.cpp src/io/uri.cpp src/core/string_utils.cpp
// @link -lboost_locale
// URIs of the form [scheme://][user@]host[:port][/path][?query][#fragment] against the splitting of RFC 3986: every
// combination of component texts, and every text over the delimiters up to a length; rebuilding and parsing again gives
// the same components. The path is reported without its leading slash.
#include "enumerate.hpp"
#include <neolib/neolib.hpp>
#include <sstream>
#include <neolib/io/uri.hpp>
using mc::choose;
namespace
{
    typedef std::string S; typedef std::vector<S> L; typedef std::optional<S> O; constexpr auto npos = S::npos;
    S decoded(S const& s, bool& good) { S r; for (std::size_t i = 0; i < s.size(); ++i) if (s[i] == '%') { if (i + 2 >= s.size() || !isxdigit((unsigned char)s[i + 1]) || !isxdigit((unsigned char)s[i + 2])) { good = false; continue; } r += char(std::stoi(s.substr(i + 1, 2), nullptr, 16)); i += 2; } else r += s[i]; return r; }
    S escaped(S const& s) { S r; for (unsigned char c : s) if (isalnum(c) || (c && strchr("-._~:/?#[]@!$&'()*+,;=%", c))) r += char(c); else { char b[8]; snprintf(b, sizeof b, "%%%02X", c); r += b; } return r; }
    struct parts { S scheme, path, query, fragment; O user, host; std::optional<std::uint16_t> port; bool good = true; };
    parts split(S s)
    {
        parts r; s = escaped(s); auto c = s.find_first_of(":/?#"); if (c != npos && s.substr(c, 3) == "://") { r.scheme = s.substr(0, c); if (r.scheme.find('%') != npos || r.scheme.find('@') != npos || r.scheme.find('[') != npos || r.scheme.find(']') != npos) r.good = false; s = s.substr(c + 3); }
        auto cut = [&](char d, S& out) { auto p = s.find(d); if (p == npos) return; out = decoded(s.substr(p + 1), r.good); s = s.substr(0, p); }; cut('#', r.fragment); cut('?', r.query); cut('/', r.path);
        if (auto p = s.find('@'); p != npos) { r.user = s.substr(0, p); s = s.substr(p + 1); if (s.find('@') != npos) r.good = false; }
        S port; std::size_t p = npos; if (!s.empty() && s[0] == '[') { auto e = s.find(']'); if (e == npos || (e + 1 < s.size() && s[e + 1] != ':')) r.good = false; else if (e + 1 < s.size()) p = e + 1; } else p = s.find(':'); if (s.find_first_of("[]", 1) != npos && s[0] != '[') r.good = false;
        if (!s.empty()) r.host = s.substr(0, p); if (p != npos) port = s.substr(p + 1); if (!port.empty()) { if (port.find_first_not_of("0123456789") != npos || std::stol(port) > 65535) r.good = false; else r.port = std::uint16_t(std::stol(port)); } return r;
    }
    S show(O const& o) { return o ? "'" + *o + "'" : "none"; }
}
static void same(neolib::uri const& u, parts const& w, S const& text, const char* who)
{
    MC_CHECK(u.scheme() == w.scheme, "scheme", who, " of ", text, ": ", u.scheme(), " expected ", w.scheme); MC_CHECK(u.authority().user_information() == w.user, "user", who, " of ", text, ": ", show(u.authority().user_information()), " expected ", show(w.user)); MC_CHECK(u.authority().host().value_or("") == w.host.value_or(""), "host", who, " of ", text, ": ", show(u.authority().host()), " expected ", show(w.host)); MC_CHECK(u.authority().port() == w.port, "port", who, " of ", text);
    MC_CHECK(u.path() == w.path, "path", who, " of ", text, ": ", u.path(), " expected ", w.path); MC_CHECK(u.query() == w.query, "query", who, " of ", text, ": ", u.query(), " expected ", w.query); MC_CHECK(u.fragment() == w.fragment, "fragment", who, " of ", text, ": ", u.fragment(), " expected ", w.fragment);
}
static void check(S const& text)
{
    auto const w = split(text); std::unique_ptr<neolib::uri> u; try { u = std::make_unique<neolib::uri>(text); } catch (std::invalid_argument const&) {} catch (std::out_of_range const&) {} if (!w.good) return; MC_CHECK(!!u, "rejected", text); same(*u, w, text, "component");
    S const built = u->to_string(); std::ostringstream o; o << *u; MC_CHECK(o.str() == built, "output", text); auto r = w; same(neolib::uri{ built }, r, text + " rebuilt as " + built, "component"); MC_CHECK(neolib::uri{ built }.to_string() == built, "stable", text, " ", built); MC_CHECK(built == escaped(built), "legal characters", text, " ", built);
    neolib::uri v; v.set_scheme(u->scheme()); v.set_authority(u->authority()); v.set_path(u->path()); v.set_query(u->query()); v.set_fragment(u->fragment()); same(v, w, text, "assigned component"); MC_CHECK(v.to_string() == built, "assigned", text);
}
MC_SCENARIO("uri/components")
{
    L const schemes{ "", "http://", "a+b.c-d://" }, users{ "", "@", "u@", "u:p@", "%40@" }, hosts{ "h", "www.x.org", "1.2.3.4", "[::1]", "%41", "" }, ports{ "", ":", ":0", ":80", ":65535" }, paths{ "", "/", "/a", "/a/b", "/a//b/", "/%3F%23%25", "/a b\xC3\xA9", "/%41", "/a:b@c" }, queries{ "", "?", "?x=1", "?a?b/c", "?u=http://x/?y", "?%23%25%3F", "?%20+" }, fragments{ "", "#", "#f", "#f?g/h", "#%23", "#a%" "20b" };
    auto const& s = schemes[choose(3)]; auto const& us = users[choose(5)]; auto const& h = hosts[choose(6)]; mc::heavy(); for (auto const& p : ports) for (auto const& pa : paths) for (auto const& q : queries) for (auto const& f : fragments) { check(s + us + h + p + pa + q + f); mc::op(); mc::validated(); }
}
MC_SCENARIO("uri/texts") { L const letters{ "a", ":", "/", "?", "#", "@", "%41", "%3F", "%", " ", "8", "://", "[", "]" }; mc::words(letters, 2, mc::tier(5, 6), [](auto const& w) { auto const s = mc::text(w); check(s); check("s://" + s); check("s://h/" + s); check("s://h" + s); }); }
MC_SCENARIO("uri/escaping") { auto const a = choose(256); mc::heavy(); for (int b = 0; b < 256; ++b) for (S const& t : { S{ char(a) }, S{ char(a), char(b) }, S{ char(a), 'x', char(b) } }) { MC_CHECK(neolib::uri::escaped(t) == escaped(t), "escaped", mc::hex(t)); if (t.find('%') == npos) MC_CHECK(neolib::uri::unescaped(neolib::uri::escaped(t)) == t, "inverse", mc::hex(t), ": ", mc::hex(neolib::uri::unescaped(neolib::uri::escaped(t)))); char e[8]; S all; for (unsigned char c : t) { snprintf(e, sizeof e, (c & 1) ? "%%%02X" : "%%%02x", c); all += e; } MC_CHECK(neolib::uri::unescaped(all) == t, "unescaped", all); MC_CHECK(neolib::uri::unescaped(all + "z") == t + "z", "unescaped", all); neolib::uri u; u.set_scheme("s"); u.set_authority(neolib::uri_authority{ "h" }); u.set_path(t); u.set_query(t); u.set_fragment(t); neolib::uri v{ u.to_string() }; MC_CHECK(v.scheme() == "s" && v.path() == t && v.query() == t && v.fragment() == t, "any component", mc::hex(t), " ", u.to_string()); mc::op(); mc::validated(); } }
