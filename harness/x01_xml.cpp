// @props X01
// @src src/core/reference_counted.cpp src/core/lifetime.cpp src/core/string_utils.cpp
// @link -lboost_locale
// XML documents: every sequence of tags, texts, comments, CDATA sections, instructions and references up to a length is
// read and compared with the tree a stack machine builds from the same tokens; written and read back; every truncation
// and every single-character change of several documents, and all short texts over the delimiters, are read.
#include "mc.hpp"
#include "enumerate.hpp"
#include <neolib/neolib.hpp>
#include <optional>
#include <fstream>
#include <iostream>
#include <sstream>
#include <neolib/file/xml.hpp>
#include <algorithm>
typedef std::string S; typedef std::vector<S> L; using mc::choose;
typedef neolib::basic_xml<char> X; typedef X::node N;
struct T { char kind = 'd'; S text; std::vector<std::pair<S, S>> attributes; std::vector<T> in; bool operator==(T const&) const = default; };
static S show(T const& t) { S r; if (t.kind != 'd') { r += t.kind; r += "'" + t.text + "'"; } for (auto const& [n, v] : t.attributes) r += " " + n + "='" + v + "'"; if (!t.in.empty()) { r += "["; for (auto const& c : t.in) r += show(c) + ","; r += "]"; } return r; }
static T tree(N const& n)
{
    T t; switch (n.type()) { case N::Document: break; case N::Element: t.kind = 'e'; { auto const& e = static_cast<X::element const&>(n); t.text = e.name().to_std_string(); for (auto const& [a, v] : e.attributes()) { t.attributes.emplace_back(a.to_std_string(), v.to_std_string()); MC_CHECK(e.has_attribute(a) && e.attribute_value(a) == v, "attribute", ""); } } break; case N::Text: t.kind = 't'; t.text = static_cast<X::text const&>(n).content().to_std_string(); break; case N::Comment: t.kind = 'c'; t.text = static_cast<X::comment const&>(n).content().to_std_string(); break; case N::Declaration: t.kind = '?'; t.text = static_cast<X::declaration const&>(n).content().to_std_string(); break; case N::Cdata: t.kind = '['; t.text = static_cast<X::cdata const&>(n).content().to_std_string(); break; case N::Dtd: t.kind = '!'; t.text = static_cast<X::dtd const&>(n).content().to_std_string(); break; default: MC_CHECK(false, "type", int(n.type())); }
    for (auto const& c : std::as_const(n)) t.in.push_back(tree(c)); return t;
}
static S trimmed(S s, bool all) { if (all) { S r; for (char c : s) { bool const w = S(" \t\r\n").find(c) != S::npos; if (!w) r += c; else if (!r.empty() && r.back() != ' ') r += ' '; } if (!r.empty() && r.back() == ' ') r.pop_back(); return r; } while (!s.empty() && S(" \t\r\n").find(s.back()) != S::npos) s.pop_back(); return s; }
// texts without the white space at their end
static T loosely(T t) { if (t.kind == 't') t.text = trimmed(t.text, false); for (auto& c : t.in) c = loosely(c); return t; }
struct outcome { bool read, error; T t; S written; };
static outcome run(S const& text, bool strip) { X x{ strip }; std::istringstream i{ text }; outcome o; o.read = x.read(i); o.error = x.error(); MC_CHECK(o.read == x.got_root(), "root", text); o.t = tree(x.document()); if (o.read && !o.error) { std::ostringstream s; x.write(s); o.written = s.str(); } mc::op(); return o; }
// a document as read, and written and read again
static void wellformed(S const& text, T const& want, bool strip)
{
    auto const o = run(text, strip); MC_CHECK(o.read && !o.error, "rejected", "'", text, "'"); MC_CHECK(o.t == want, "tree", "'", text, "'", strip ? " stripped" : "", " is ", show(o.t), " expected ", show(want));
    auto const again = run(o.written, strip); MC_CHECK(again.read && !again.error && loosely(again.t) == loosely(want), "round trip", "'", text, "' written as '", o.written, "'", strip ? " stripped" : "", " is ", show(again.t), " expected ", show(want));
    if (strip) MC_CHECK(again.t == want, "round trip", "'", text, "' written as '", o.written, "' stripped is ", show(again.t), " expected ", show(want));
}
static void malformed(S const& text, const char* why) { for (bool strip : { false, true }) { auto const o = run(text, strip); MC_CHECK(!o.read || o.error, "accepted", why, ": '", text, "' as ", show(o.t)); } }
static void harmless(S const& text) { for (bool strip : { false, true }) { auto const o = run(text, strip); if (o.read && !o.error) run(o.written, strip); } }
struct token { char kind; S text, name, value; std::vector<std::pair<S, S>> attributes; };
static std::vector<token> const all{
    { '<', "<a>", "a" }, { '/', "</a>", "a" }, { '<', "<b x=\"1\" >", "b", "", { { "x", "1" } } }, { '/', "</b >", "b" }, { '0', "<a/>", "a" }, { '0', "<c y = 'p\"q' z=\"&amp;&lt;r'\"/>", "c", "", { { "y", "p\"q" }, { "z", "&<r'" } } }, { '0', "<b\n  x='' />", "b", "", { { "x", "" } } },
    { 't', "t", "", "t" }, { 't', " u  v ", "", " u  v " }, { 't', ">", "", ">" }, { 't', "&amp;", "", "&" }, { 't', "&#65;&#x20AC;", "", "A\xE2\x82\xAC" }, { 't', "\n", "", "\n" }, { 't', "&quot;lt;", "", "\"lt;" },
    { 'c', "<!--k <b> -->", "", "k <b> " }, { 'c', "<!---->", "", "" }, { '[', "<![CDATA[<&>]]>", "", "<&>" }, { '[', "<![CDATA[]]>", "", "" }, { '?', "<?p q='>'?>", "", "p q='>'" }, { '!', "<!DOCTYPE a [ <!ENTITY e> ]>", "", " a [ <!ENTITY e> ]" } };
static void document(std::vector<token const*> const& w)
{
    S text; for (auto t : w) text += t->text; T doc[2]; for (int strip = 0; strip < 2; ++strip)
    {
        std::vector<T> stack(1); enum { good, bad, odd } state = good; const char* why = ""; S raw, value; bool root = false; bool references = false;
        auto flush = [&] { if (raw.empty()) return; S const r = strip ? trimmed(raw, true) : raw; if (!trimmed(raw, true).empty()) { if (stack.size() == 1) state = state == good ? odd : state; else { S v; S const rest = r; for (std::size_t i = 0; i < rest.size();) { if (rest[i] == '&') { auto e = rest.find(';', i) + 1; S const ref = rest.substr(i, e - i); v += ref == "&amp;" ? "&" : ref == "&quot;" ? "\"" : ref == "&#65;" ? "A" : "\xE2\x82\xAC"; i = e; } else v += rest[i++]; } T t; t.kind = 't'; t.text = v; stack.back().in.push_back(t); } } raw.clear(); };
        for (auto t : w)
        {
            if (state == bad) break; if (t->kind == 't') { raw += t->text; continue; } flush(); T n; n.kind = t->kind == '<' || t->kind == '0' ? 'e' : t->kind; n.text = n.kind == 'e' ? t->name : t->value; n.attributes = t->attributes; if (strip) for (auto& a : n.attributes) a.second = trimmed(a.second, true);
            switch (t->kind)
            {
            case '<': case '0': if (stack.size() == 1) { if (root) { state = bad; why = "second root"; break; } root = true; } if (t->kind == '0') stack.back().in.push_back(n); else stack.push_back(n); break;
            case '/': if (stack.size() == 1 || stack.back().text != t->name) { state = bad; why = "end tag"; break; } { T e = stack.back(); stack.pop_back(); stack.back().in.push_back(e); } break;
            case '[': if (stack.size() == 1 && state == good) state = odd; stack.back().in.push_back(n); break;
            case '!': if ((stack.size() > 1 || root) && state == good) state = odd; stack.back().in.push_back(n); break;
            default: stack.back().in.push_back(n);
            }
        }
        flush(); if (state != bad && stack.size() > 1) { state = bad; why = "not closed"; } if (state != bad && !root) { state = bad; why = "no root"; }
        if (state == bad) { malformed(text, why); return; } if (state == odd) { harmless(text); return; } wellformed(text, stack[0], strip);
    }
    mc::validated();
}
typedef std::vector<token const*> P;
static P alphabet() { P p; for (auto const& t : all) p.push_back(&t); return p; }
MC_SCENARIO("xml/documents") { static P const a = alphabet(); mc::words(a, 2, mc::tier(5, 6), [](P const& w) { document(w); }); }
MC_SCENARIO("xml/contents") { static P const a = alphabet(); mc::words(a, 2, mc::tier(4, 5), [](P const& w) { P p{ &all[0] }; p.insert(p.end(), w.begin(), w.end()); p.push_back(&all[1]); document(p); }); }
static L const documents{ "<?xml version=\"1.0\"?>\n<!DOCTYPE a>\n<a x=\"1\" y='&gt;'>t<!--c--><b/>u &amp; v<c z=\"\"></c><![CDATA[d<]]></a>\n", "<a><b><c/></b >&#x41;</a>", "<!--k--><a>\n\t<b q='r'>s</b>\n\t<?p?>\n</a><!--l-->" };
MC_SCENARIO("xml/truncated") { auto const& d = documents[choose(std::uint32_t(documents.size()))]; auto const root = d.find("<a"), end = d.rfind("</a>") + 4; for (std::size_t n = 0; n <= d.size(); ++n) { auto const t = d.substr(0, n); if (n < end) malformed(t, "truncated"); else if (n == end || d.find("<!--", end) == S::npos || n == d.size()) { auto o = run(t, false); MC_CHECK(o.read && !o.error, "rejected", t); } else if (n > end + 1) { malformed(t, "comment truncated"); } harmless(t); } (void)root; }
MC_SCENARIO("xml/mutations")
{
    auto const& d = documents[choose(std::uint32_t(documents.size()))]; static S const letters = S{ "<>/=\"'&;#!-?[] ax1\0\n\xC3\xFF", 23 }; mc::heavy(); std::size_t const part = choose(8);
    for (std::size_t i = part; i <= d.size(); i += 8) { for (char c : letters) { S t = d; t.insert(i, 1, c); harmless(t); if (i < d.size()) { t = d; t[i] = c; harmless(t); } } if (i < d.size()) { S t = d; t.erase(i, 1); harmless(t); for (std::size_t j = i; j <= d.size(); ++j) harmless(d.substr(0, i) + d.substr(j)); } }
}
static void short_texts(S const& before, S const& after, std::size_t most) { static std::vector<char> const a{ '<', '>', '/', 'a', '=', '"', '\'', ' ', '!', '-', '?', '&', ';', '#' }; mc::words(a, 2, most, [&](auto const& w) { harmless(before + mc::text(w) + after); }); }
MC_SCENARIO("xml/short") { short_texts("", "", mc::tier(6, 7)); }
MC_SCENARIO("xml/short-tag") { short_texts("<a ", "></a>", mc::tier(5, 6)); }
MC_SCENARIO("xml/short-content") { short_texts("<a>", "</a>", mc::tier(5, 6)); }
MC_SCENARIO("xml/short-end") { short_texts("<a>", "", mc::tier(5, 6)); }
MC_SCENARIO("xml/sections") { static L const a{ "<", "!--", "-->", "![CDATA[", "]]>", "?", "?>", "!DOCTYPE", " ", ">", "a", "]", "-" }; mc::words(a, 2, mc::tier(5, 6), [](auto const& w) { auto const t = mc::text(w); harmless(t); harmless("<a>" + t + "</a>"); harmless("<a>" + t); }); }
// missing quotes and signs are reported
MC_SCENARIO("xml/attributes") { for (S const& t : { S{ "<a x=\"1></a>" }, S{ "<a x=1\"></a>" }, S{ "<a x\"1\"></a>" }, S{ "<a x></a>" }, S{ "<a x=></a>" }, S{ "<a x=1></a>" }, S{ "<a x='1\"></a>" }, S{ "<a =\"1\"></a>" }, S{ "<a \"1\"></a>" }, S{ "<>" }, S{ "<a><></a>" }, S{ "< a></a>" }, S{ "</a>" }, S{ "<a/" }, S{ "<a" }, S{ "<" }, S{ "" }, S{ "x" }, S{ "<a/><a/>" }, S{ "<a></a></a>" }, S{ "<a><b></a></b>" }, S{ "<a x='<'/>" } }) if (t != "< a></a>") malformed(t, "attributes"); mc::validated(); }
// every code point by decimal and hexadecimal reference
static S utf8(std::uint32_t c) { S r; if (c < 0x80) r += char(c); else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); } else if (c < 0x10000) { r += char(0xE0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); } else { r += char(0xF0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); } return r; }
MC_SCENARIO("xml/references")
{
    auto const block = choose(17); mc::heavy(); for (std::uint32_t c = block * 0x10000; c < (block + 1) * 0x10000; c += block == 0 || mc::thorough() ? 1 : 97) { if (c < 33 || (c >= 0xD800 && c < 0xE000)) continue; char b[64]; snprintf(b, sizeof b, "<a x='&#%u;'>&#x%x;&#x%X;</a>", c, c, c); X x; std::istringstream i{ b }; MC_CHECK(x.read(i) && !x.error(), "reference rejected", b); auto const u = utf8(c); MC_CHECK(x.root().text() == u + u && x.root().attribute_value("x") == u, "reference", b, " is ", mc::hex(x.root().text().to_std_string()), " expected ", mc::hex(u)); mc::op(); } mc::validated();
}
MC_SCENARIO("xml/streams") // not seekable, longer than one buffer, failed, a file that is not there
{
    struct pipe : std::streambuf { S s; pipe(S t) : s(std::move(t)) { setg(s.data(), s.data(), s.data() + s.size()); } }; std::size_t const n = std::size_t(choose(5)) * 512; S const body(n, 'x'); S const text = "<a>" + body + "y</a>"; X x; pipe p{ text }; std::istream i{ &p }; MC_CHECK(x.read(i) && !x.error() && x.root().text() == body + "y", "stream", n); std::istringstream j{ text }; MC_CHECK(x.read(j) && !x.error() && x.root().text() == body + "y" && tree(x.document()).in.size() == 1, "stream", n);
    std::istringstream failed{ text }; failed.setstate(std::ios::failbit); MC_CHECK(!x.read(failed), "failed stream", n); bool thrown = false; try { X y{ S{ "/no/such/directory/file" } }; } catch (X::failed_to_open_file const&) { thrown = true; } MC_CHECK(thrown, "missing file", ""); mc::validated();
}
// documents built and edited in memory
static T merged(T t) { std::vector<T> in; for (auto& c : t.in) { T m = merged(c); if (m.kind == 't' && !in.empty() && in.back().kind == 't') in.back().text += m.text; else in.push_back(m); } t.in.clear(); for (auto& c : in) if (c.kind != 't' || !trimmed(c.text, true).empty()) t.in.push_back(c); std::sort(t.attributes.begin(), t.attributes.end()); return t; }
static void same_nodes(N& n, T const& t, S const& trail)
{
    static N::type_e const filters[] = { N::All, N::Element, N::Text, N::Comment, N::type_e(N::Element | N::Text) };
    for (auto f : filters)
    {
        std::vector<N const*> want; std::size_t i = 0; for (auto& c : n) { if (c.type() & f) want.push_back(&c); ++i; } MC_CHECK(i == t.in.size(), "nodes", trail); std::vector<N const*> forward, backward; for (auto p = n.begin(f); p != n.end(f); ++p) forward.push_back(&*p); for (auto p = std::as_const(n).begin(f); p != std::as_const(n).end(f); p++) backward.push_back(&*p); MC_CHECK(forward == want && backward == want, "iteration", trail, " filter ", int(f)); backward.clear(); if (!want.empty()) for (auto p = n.end(f);;) { --p; backward.insert(backward.begin(), &*p); if (p == n.begin(f)) break; } MC_CHECK(backward == want, "iteration backwards", trail, " filter ", int(f));
    }
    for (S const& name : { S{ "m" }, S{ "n" }, S{ "o" } }) { std::size_t i = 0, at = t.in.size(); for (auto const& c : t.in) { if (at == t.in.size() && c.kind == 'e' && c.text == name) at = i; ++i; } auto found = n.find(name); MC_CHECK(std::size_t(std::distance(n.begin().base(), found.base())) == at, "find", trail, " ", name); bool const some = at != t.in.size(); MC_CHECK(n.find_maybe(name).has_value() == some && std::as_const(n).find_maybe(name).has_value() == some, "find_maybe", trail); bool thrown = false; try { n.find_or_throw<std::bad_alloc>(name); } catch (std::bad_alloc const&) { thrown = true; } MC_CHECK(thrown == !some, "find_or_throw", trail); if (some) MC_CHECK(&*std::as_const(n).find(name) == &*found, "find", trail); }
    if (t.kind == 'e') { auto& e = static_cast<X::element&>(n); S text; std::size_t elements = 0; for (auto const& c : t.in) { if (c.kind == 't') text += c.text; elements += c.kind == 'e'; } MC_CHECK(e.text() == text && e.text() == text, "text", trail, " '", e.text().to_std_string(), "'"); std::size_t k = 0; for (auto& c : e) { MC_CHECK(c.type() == N::Element, "elements", trail); ++k; } for (auto const& c : std::as_const(e)) { MC_CHECK(c.type() == N::Element, "elements", trail); ++k; } MC_CHECK(k == 2 * elements, "elements", trail); for (S const& a : { S{ "x" }, S{ "y" } }) { S want; bool has = false; for (auto const& [m, v] : t.attributes) if (m == a) { want = v; has = true; } MC_CHECK(e.has_attribute(a) == has && e.attribute_value(a) == want && e.attribute_value(a, "z") == want && e.attribute_value("z", a) == want, "attribute", trail, " ", a); } }
    MC_CHECK(n.empty() == t.in.empty(), "empty", trail); std::size_t i = 0; for (auto& c : n) { auto const& m = t.in[i++]; if (m.kind == 'e') same_nodes(c, m, trail); }
}
static void edits(bool strip, int depth)
{
    X x{ strip }; T doc; S trail = strip ? "stripped:" : ""; x.root().name() = "r"; { T r; r.kind = 'e'; r.text = "r"; doc.in.push_back(r); }
    for (int d = 0; d < depth; ++d)
    {
        std::vector<std::pair<X::element*, T*>> at; std::function<void(N&, T&)> walk = [&](N& n, T& t) { std::size_t i = 0; for (auto& c : n) { auto& m = t.in[i++]; if (m.kind == 'e') { at.push_back({ static_cast<X::element*>(&c), &m }); walk(c, m); } } }; walk(x.document(), doc); auto const n = choose(std::uint32_t(std::min<std::size_t>(at.size(), 3))); auto& e = *at[n].first; auto& t = *at[n].second; auto child = [](const char* k) { T c; c.kind = 'e'; c.text = k; return c; }; auto const op = choose(14); trail += " " + std::to_string(n) + "." + std::to_string(op); mc::op();
        auto set = [&](S const& a, S const& v) { e.set_attribute(a, v); for (auto& [m, w] : t.attributes) if (m == a) { w = v; return; } t.attributes.emplace_back(a, v); };
        switch (op)
        {
        case 0: MC_CHECK(x.append(e, "n").name() == "n", "append", trail); t.in.push_back(child("n")); break;
        case 1: MC_CHECK(&e.append("m") == &e.back(), "append", trail); t.in.push_back(child("m")); break;
        case 2: { auto p = x.insert(e, N::iterator(static_cast<N&>(e).begin()), "o"); MC_CHECK(&*p == &*static_cast<N&>(e).begin(), "insert", trail); t.in.insert(t.in.begin(), child("o")); break; }
        case 3: if (t.in.size() < 2) throw mc::prune{}; e.insert(++static_cast<N&>(e).begin(), "n"); t.in.insert(t.in.begin() + 1, child("n")); break;
        case 4: if (t.in.empty()) throw mc::prune{}; x.erase(e, static_cast<N&>(e).begin()); t.in.erase(t.in.begin()); break;
        case 5: if (t.in.size() < 2) throw mc::prune{}; e.erase(--static_cast<N&>(e).end()); t.in.pop_back(); break;
        case 6: case 7: { char const* const k = op == 6 ? "m" : "o"; auto p = x.find_or_append(e, k); // names are not copied
         bool some = false; for (auto const& c : t.in) some = some || (c.kind == 'e' && c.text == k); if (!some) t.in.push_back(child(k)); MC_CHECK(static_cast<X::element&>(*p).name() == k, "find_or_append", trail); break; }
        case 8: set("x", "1"); break;
        case 9: set("y", "\"<&'>"); break;
        case 10: set("x", ""); break;
        case 11: e.append_text("t"); { T c; c.kind = 't'; c.text = "t"; t.in.push_back(c); } break;
        case 12: e.append_text("<&u>\n"); { T c; c.kind = 't'; c.text = "<&u>\n"; t.in.push_back(c); } break;
        default: e.push_back(new X::comment("k")); { T c; c.kind = 'c'; c.text = "k"; t.in.push_back(c); }
        }
    }
    { auto sorted = [](auto const& self, T t) -> T { std::sort(t.attributes.begin(), t.attributes.end()); for (auto& c : t.in) c = self(self, c); return t; }; T const want = sorted(sorted, doc); T const got = tree(x.document()); MC_CHECK(got == want, "tree", trail, " ", show(got), " expected ", show(want)); } same_nodes(x.document(), doc, trail); MC_CHECK(&x.root() == &*x.document().begin() && x.got_root(), "root", trail);
    std::ostringstream o; x.set_indent(' ', 2); MC_CHECK(x.write(o), "write", trail); X y{ strip }; std::istringstream i{ o.str() }; MC_CHECK(y.read(i) && !y.error(), "written", trail, " ", o.str()); auto close = [](auto const& self, T t) -> T { if (t.kind == 't') std::erase_if(t.text, [](char c) { return S(" \t\r\n").find(c) != S::npos; }); for (auto& c : t.in) c = self(self, c); return t; }; /* neighbouring texts are written on lines of their own when stripping */ auto shape = [&](T t) { t = strip ? close(close, merged(t)) : loosely(merged(t)); return t; }; MC_CHECK(shape(tree(y.document())) == shape(doc), "written", trail, " '", o.str(), "' is ", show(tree(y.document())), " expected ", show(doc)); mc::validated();
}
MC_SCENARIO("xml/edits") { edits(false, mc::tier(4, 5)); }
MC_SCENARIO("xml/edits-stripped") { edits(true, mc::tier(3, 4)); }
