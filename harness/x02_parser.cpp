// @props X02
// @src src/core/reference_counted.cpp src/core/lifetime.cpp src/core/string_utils.cpp
// @link -lboost_locale
// The grammar parser: every grammar of two symbols whose bodies are built from terminals, ranges and symbols with up to
// two levels of concatenation, alternation, first match, repetition, optional and discard, with every text over its
// letters up to a length, against a matcher that interprets the grammar without memory; and all short arithmetic texts
// against an evaluator. Verdict, concrete tree and abstract tree are compared.
#include "mc.hpp"
#include "enumerate.hpp"
#include <sstream>
#include <iomanip>
#include <iostream>
#include <optional>
#include <memory>
#include <neolib/file/parser.hpp>
namespace x02 { enum class sym { S, A, B, E, M, F, Num, Digit, Add, Sub, Mul, Open, Close, WS }; }
declare_symbols(x02::sym)
declare_symbol(x02::sym, S) declare_symbol(x02::sym, A) declare_symbol(x02::sym, B) declare_symbol(x02::sym, E) declare_symbol(x02::sym, M) declare_symbol(x02::sym, F) declare_symbol(x02::sym, Num) declare_symbol(x02::sym, Digit) declare_symbol(x02::sym, Add) declare_symbol(x02::sym, Sub) declare_symbol(x02::sym, Mul) declare_symbol(x02::sym, Open) declare_symbol(x02::sym, Close) declare_symbol(x02::sym, WS)
end_declare_symbols(x02::sym)
namespace x02
{
    enable_neolib_parser(sym)
    typedef std::string S; typedef neolib::parser<sym> P; typedef P::primitive_atom atom; typedef neolib::parser_rule<sym> rule; using mc::choose;
    // an expression: t terminal, r the range a-b, y symbol, '.' concatenation, | longest, / first, * + repetition, ? optional, d discard (trimmed), f fold
    struct X { char k; char c = 0; std::vector<X> v; S text() const { S r; switch (k) { case 't': return S{ c }; case 'r': return "[a-b]"; case 'y': return S{ c }; case '.': case '|': case '/': r = "("; for (auto const& x : v) { if (r.size() > 1) r += k == '.' ? ' ' : k; r += x.text(); } return r + ")"; case '*': case '+': case '?': return v[0].text() + k; default: return S{ k } + "(" + v[0].text() + ")"; } } };
    static sym symbol_of(char c) { return c == 'S' ? sym::S : c == 'A' ? sym::A : sym::B; }
    static bool concepts;
    static std::optional<P::_concept> concept_of(X const& x) { if (concepts && (x.k == 'y' || (x.k == 't' && x.c == 'b'))) return P::_concept{ &x.c, 1 }; return {}; }
    static atom make(X const& x)
    {
        std::vector<atom> v; for (auto const& e : x.v) v.push_back(make(e)); auto with = [&](atom a) { a.c = concept_of(x); return a; };
        switch (x.k) { case 't': return with(P::terminal{ x.c }); case 'r': return P::range{ P::terminal{ 'a' }, P::terminal{ 'b' } }; case 'y': return with(symbol_of(x.c)); case '.': return P::concatenation{ v }; case '|': return P::alternation{ v }; case '/': { P::alternation r{ v }; r.matchFirst = true; return r; } case '*': return P::repetition{ v }; case '+': return +P::repetition{ v }; case '?': return P::optional{ v }; case 'd': return P::discard{ v }; default: return ~P::discard{ v }; }
    }
    struct R { char lhs; X rhs; };
    struct G { std::vector<R> rules; S ignored; S text() const { S r; for (auto const& x : rules) r += S{ x.lhs } + ":=" + x.rhs.text() + "; "; if (!ignored.empty()) r += "ignore " + ignored; if (concepts) r += " with concepts"; return r; } };
    // what the grammar says
    struct N { char kind; char of; S c; std::size_t b, e; std::vector<N> in; };
    struct match { std::size_t b, e, next; std::vector<N> in; S c = {}; };
    struct reference
    {
        G const& g; S const& s;
        bool ignored(X const& x) const { return x.k == 'y' && g.ignored.find(x.c) != S::npos; }
        std::optional<match> symbol(char y, std::size_t at) const
        {
            std::optional<match> best; std::ptrdiff_t bestConcepts = 0;
            for (auto const& r : g.rules) if (r.lhs == y) { auto m = parse(r.rhs, y, at); if (!m) continue; auto const n = std::count_if(m->in.begin(), m->in.end(), [](N const& n) { return !n.c.empty(); }); if (!best || m->e - m->b > best->e - best->b || (m->e - m->b == best->e - best->b && n > bestConcepts)) { best = m; bestConcepts = n; if (auto c = concept_of(r.rhs)) best->c = *c; } }
            return best;
        }
        std::optional<match> parse(X const& x, char y, std::size_t at) const
        {
            switch (x.k)
            {
            case 't': if (at < s.size() && s[at] == x.c) { N n{ 't', y, concept_of(x) ? *concept_of(x) : S{}, at, at + 1, {} }; return match{ at, at + 1, at + 1, { n } }; } return {};
            case 'r': if (at < s.size() && (s[at] == 'a' || s[at] == 'b')) return match{ at, at + 1, at + 1, {} }; return {};
            case 'y': { auto m = symbol(x.c, at); if (!m) return {}; N n{ 'y', x.c, concept_of(x) ? *concept_of(x) : S{}, m->b, m->e, m->in }; match r{ m->b, m->e, m->next, {} }; if (!ignored(x)) r.in.push_back(n); return r; }
            case '.':
                {
                    std::optional<std::size_t> b, e; match r{ 0, 0, at, {} };
                    for (auto const& i : x.v) { auto m = parse(i, y, r.next); if (!m) return {}; if (ignored(i) || i.k == 'd') { if (!e) b = m->e; } else { if (!b) b = m->b; e = m->e; r.in.insert(r.in.end(), m->in.begin(), m->in.end()); } r.next = m->next; }
                    r.b = *b; r.e = e ? *e : *b; return r;
                }
            case '?': { auto m = parse(x.v[0], y, at); return m ? m : match{ at, at, at, {} }; }
            case '*': case '+':
                {
                    std::optional<std::size_t> b, e, pb, pe; match r{ 0, 0, at, {} }; bool any = false;
                    for (;;) { auto m = parse(x.v[0], y, r.next); if (!m) break; any = true; if (x.v[0].k == 'd') { if (!e) b = m->e; } else { if (!b) b = m->b; e = m->e; r.in.insert(r.in.end(), m->in.begin(), m->in.end()); } r.next = m->next; if (pb == b && pe == e) break; pb = b; pe = e; }
                    if (!any) { if (x.k == '+') return {}; return match{ at, at, at, {} }; }
                    r.b = *b; r.e = e ? *e : *b; return r;
                }
            case '|': case '/': { std::optional<match> best; for (auto const& i : x.v) { auto m = parse(i, y, at); if (m && (!best || m->e - m->b > best->e - best->b)) { best = m; if (x.k == '/') break; } } return best; }
            default: { auto m = parse(x.v[0], y, at); if (m) m->in.clear(); return m; }
            }
        }
    };
    static S const* source;
    static S value(N const& n) { return source->substr(n.b, n.e - n.b); }
    // a node that only repeats its parent is left out
    static bool simplified(N& n, N* parent)
    {
        for (std::size_t i = 0; i < n.in.size();) { N child = n.in[i]; bool const gone = simplified(child, &n); if (gone) { if (n.c.empty()) n.c = child.c; n.in.erase(n.in.begin() + i); n.in.insert(n.in.begin() + i, child.in.begin(), child.in.end()); } else { n.in[i] = child; ++i; } }
        return parent && (n.of == parent->of || (!n.c.empty() && n.c == parent->c)) && value(n) == value(*parent);
    }
    static void abstracted(N& n) { for (std::size_t i = 0; i < n.in.size();) { abstracted(n.in[i]); if (n.in[i].c.empty()) { auto in = n.in[i].in; n.in.erase(n.in.begin() + i); n.in.insert(n.in.begin() + i, in.begin(), in.end()); } else ++i; } }
    static S show(N const& n, bool root = true) { S r; if (!root) { r += n.kind == 'y' ? S{ n.of } : S{ "'" }; if (!n.c.empty()) r += ":" + n.c; r += "=" + value(n); if (n.e > n.b) r += "@" + std::to_string(n.b); } if (!n.in.empty()) { r += "["; for (auto const& i : n.in) r += show(i, false) + " "; r += "]"; } return r; }
    static S show(P::cst_node const& n, bool root = true)
    {
        S r; if (!root) { MC_CHECK(n.atom, "tree", "a node of no component"); r += std::holds_alternative<sym>(*n.atom) ? neolib::enum_to_string(std::get<sym>(*n.atom)) : S{ "'" }; if (n.c) r += ":" + *n.c; r += "=" + S{ n.value }; if (!n.value.empty()) { auto const at = n.value.data() - source->data(); MC_CHECK(at >= 0 && at + n.value.size() <= source->size(), "tree", "value outside of the source"); r += "@" + std::to_string(at); } }
        if (!n.children.empty()) { r += "["; for (auto const& i : n.children) { MC_CHECK(i->parent == &n, "tree", "parent of ", S{ i->value }); r += show(*i, false) + " "; } r += "]"; } return r;
    }
    static void check(G const& g, P& p, S const& s)
    {
        source = &s; auto const want = reference{ g, s }.symbol('S', 0); bool const accepted = want && want->next == s.size(); bool const ok = p.parse(sym::S, s);
        MC_CHECK(ok == accepted, ok ? "accepted" : "rejected", g.text(), " on '", s, "'");
        if (ok)
        {
            N n{ 'y', 'S', want->c, want->b, want->e, want->in }; simplified(n, nullptr); S const cst = show(p.cst()); MC_CHECK(cst == show(n), "concrete tree", g.text(), " on '", s, "' is ", cst, " expected ", show(n));
            p.create_ast(); abstracted(n); S const ast = show(p.ast()); MC_CHECK(ast == show(n), "abstract tree", g.text(), " on '", s, "' is ", ast, " expected ", show(n));
        }
        mc::op(); mc::validated();
    }
    static std::vector<S> const& texts(std::size_t most) { static std::vector<S> const r = [=] { std::vector<S> r{ "" }; for (std::size_t i = 0; r[i].size() < most; ++i) for (char c : { 'a', 'b' }) r.push_back(r[i] + c); return r; }(); return r; }
    static void all(G const& g, std::size_t most) { P p; for (auto const& r : g.rules) p.rules().push_back(rule{ symbol_of(r.lhs), make(r.rhs) }); for (char c : g.ignored) p.ignore(symbol_of(c)); for (auto const& s : texts(most)) check(g, p, s); }
    static X t(char c) { return X{ 't', c }; } static X y(char c) { return X{ 'y', c }; } static X op(char k, std::vector<X> v) { return X{ k, 0, v }; }
    static std::vector<X> grown(std::vector<X> const& l, S const& unary, S const& binary) { std::vector<X> r = l; for (char k : unary) for (auto const& x : l) { if ((k == '*' || k == '+' || k == '?') && (x.k == '*' || x.k == '+' || x.k == '?')) continue; r.push_back(op(k, { x })); } for (char k : binary) for (auto const& x : l) for (auto const& z : l) r.push_back(op(k, { x, z })); return r; }
    // bodies of A; none begins with itself
    static std::vector<std::vector<X>> const& bodies()
    {
        static std::vector<std::vector<X>> const r{ { t('a') }, { op('.', { t('a'), t('b') }) }, { op('*', { t('a') }) }, { op('.', { op('*', { t('a') }), t('b') }) }, { op('.', { t('a'), op('?', { y('A') }) }) }, { op('|', { op('.', { t('a'), y('A') }), t('b') }) }, { op('.', { t('a'), op('*', { y('A') }), t('b') }) }, { t('a'), op('.', { t('a'), t('b') }) }, { op('.', { X{ 'r' }, op('?', { t('b') }) }), op('.', { t('a'), y('A') }) }, { op('?', { t('b') }) }, { op('/', { t('a'), op('.', { t('a'), t('b') }) }) }, { op('.', { op('d', { t('a') }), t('b') }) }, { op('.', { t('b'), op('d', { t('a') }) }), t('a') } };
        return r;
    }
    static void grammars(std::vector<X> const& small, S const& unary, S const& binary, std::size_t most)
    {
        auto const& b = bodies(); auto const body = choose(std::uint32_t(b.size())); concepts = choose(2); bool const ignore = choose(2); auto const part = choose(16); mc::heavy();
        G g; g.rules.push_back({ 'S', t('a') }); for (auto const& x : b[body]) g.rules.push_back({ 'A', x }); if (ignore) g.ignored = "A";
        std::size_t i = 0; auto run = [&](X const& x) { if (i++ % 16 != part) return; g.rules[0].rhs = x; all(g, most); };
        for (char k : unary) for (auto const& x : small) run(op(k, { x })); for (char k : binary) for (auto const& x : small) for (auto const& z : small) run(op(k, { x, z }));
    }
    static std::vector<X> const letters{ t('a'), t('b'), y('A') };
}
using namespace x02;
MC_SCENARIO("parser/grammars of two levels") { auto const k = choose(3); S const binary{ ".|/"[k] }; grammars(grown(letters, "*?d", binary == "." ? ".|" : "."), "*+?df", binary, mc::tier(4, 6)); }
// three levels over fewer components: shared beginnings and repeated positions
MC_SCENARIO("parser/grammars of three levels") { std::vector<X> const two = grown({ t('a'), y('A') }, "*?", "."); std::vector<X> three = two; for (auto const& x : two) for (char k : S{ mc::tier(1, 2) == 1 ? "|" : "|/" }) for (auto const& z : two) three.push_back(op(k, { x, z })); grammars(three, "*", mc::tier(1, 2) == 1 ? "." : ".|", mc::tier(3, 5)); }
// two rules for the root, rules listed twice, several components in a row
MC_SCENARIO("parser/several rules")
{
    auto const& b = bodies(); auto const body = choose(std::uint32_t(b.size())); concepts = choose(2); auto const part = choose(8); mc::heavy(); std::vector<X> const small = grown(letters, "*?f", "."); std::size_t i = 0;
    for (auto const& x : small) for (auto const& z : small) if (i++ % 8 == part) { G g; g.rules = { { 'S', x } }; for (auto const& r : b[body]) g.rules.push_back({ 'A', r }); g.rules.push_back({ 'S', z }); all(g, mc::tier(4, 6)); }
    std::vector<X> const few{ t('a'), t('b'), y('A'), op('?', { t('a') }), op('d', { t('b') }) }; for (auto const& p : few) for (auto const& q : few) for (auto const& r : few) for (auto const& s : few) if (i++ % 8 == part) for (char k : { '.', '|', '/' }) { G g; g.rules = { { 'S', op(k, { p, q, r, s }) } }; for (auto const& r : b[body]) g.rules.push_back({ 'A', r }); all(g, mc::tier(4, 6)); }
}
// arithmetic with the usual precedence: the abstract tree is that of the text
namespace x02
{
    struct arithmetic
    {
        S const& s; std::size_t at = 0; bool bad = false;
        void space() { while (at < s.size() && s[at] == ' ') ++at; }
        S number() { S r; while (at < s.size() && (s[at] == '1' || s[at] == '2')) r += s[at++]; if (r.empty()) bad = true; return "n=" + r + " "; }
        S factor() { if (at < s.size() && s[at] == '(') { ++at; space(); S r = sum(); space(); if (bad || at == s.size() || s[at] != ')') { bad = true; return r; } ++at; return r; } return number(); }
        S many(S const& ops, S const& name, bool outer) { auto next = [&] { return outer ? many("*", "product", false) : factor(); }; S l = next(); bool any = false; for (;;) { if (bad) return l; auto const before = at; space(); if (at == s.size() || ops.find(s[at]) == S::npos) { at = before; return any ? name + "[" + l + "] " : l; } S const o = S{ s[at++] }; space(); auto const here = at; S const r = next(); if (bad) { (void)here; return l; } l = o + "[" + l + r + "] "; any = true; } }
        S sum() { return many("+-", "sum", true); }
    };
    static S tree(P::ast_node const& n) { S r; for (auto const& c : n.children) { MC_CHECK(c->parent == &n, "tree", "parent of ", S{ c->value }); r += *c->c; if (*c->c == "n") r += "=" + S{ c->value } + " "; else r += "[" + tree(*c) + "] "; } return r; }
}
MC_SCENARIO("parser/arithmetic")
{
    auto const WS = sym::WS;
    rule rules[] = {
        ( sym::E >> (sym::M, +repeat(sequence(WS, sym::Add <=> "+"_infix_concept | sym::Sub <=> "-"_infix_concept, WS, sym::M) <=> "sum"_concept)) ), ( sym::E >> sym::M ),
        ( sym::M >> (sym::F, +repeat(sequence(WS, sym::Mul <=> "*"_infix_concept, WS, sym::F) <=> "product"_concept)) ), ( sym::M >> sym::F ),
        ( sym::F >> ~discard(sym::Open), WS, sym::E, WS, ~discard(sym::Close) ), ( sym::F >> sym::Num ),
        ( sym::Num >> (fold(+repeat(sym::Digit)) <=> "n"_concept) ), ( sym::Digit >> range('1', '2') ), ( sym::Add >> '+' ), ( sym::Sub >> '-' ), ( sym::Mul >> '*' ), ( sym::Open >> '(' ), ( sym::Close >> ')' ), ( sym::WS >> repeat(' '_) ) };
    P p{ rules }; p.ignore(WS); static std::vector<char> const alphabet{ '1', '+', '*', '(', ')', '2', '-', ' ' };
    mc::words(alphabet, 3, mc::tier(6, 7), [&](auto const& w) { S const s(w.begin(), w.end()); arithmetic r{ s }; S const want = r.sum(); bool const good = !r.bad && r.at == s.size(); bool const ok = p.parse(sym::E, s); MC_CHECK(ok == good, ok ? "accepted" : "rejected", "'", s, "'"); if (ok) { p.create_ast(); S const is = p.ast().c ? *p.ast().c + "[" + tree(p.ast()) + "] " : tree(p.ast()); MC_CHECK(is == want, "abstract tree", "'", s, "' is ", is, " expected ", want); } });
}
// without a root, the rules are tried again and again until the source is used up
MC_SCENARIO("parser/no root")
{
    concepts = false; auto const& b = bodies(); auto const body = choose(std::uint32_t(b.size())); mc::heavy(); for (auto const& x : grown(letters, "*?", ".")) for (auto const& s : texts(mc::tier(4, 6)))
    {
        G g; g.rules = { { 'S', x } }; for (auto const& r : b[body]) g.rules.push_back({ 'A', r }); P p; for (auto const& r : g.rules) p.rules().push_back(rule{ symbol_of(r.lhs), make(r.rhs) }); source = &s; reference ref{ g, s }; std::size_t at = 0;
        for (;;) { std::optional<match> best; for (auto const& r : g.rules) { auto m = ref.parse(r.rhs, r.lhs, at); if (m && (!best || m->e - m->b > best->e - best->b)) best = m; } if (!best || best->next == at) break; at = best->next; }
        bool const ok = p.parse(s); MC_CHECK(ok == (at == s.size()), ok ? "accepted" : "rejected", g.text(), " without a root on '", s, "'"); mc::op(); mc::validated();
    }
}
