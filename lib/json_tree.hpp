// neolib JSON documents as plain trees (for the JSON harnesses)
#pragma once
template <typename V> inline J scalar(V const& v)
{
    J j; switch (v.type())
    {
    case neolib::json_type::Unknown: break; case neolib::json_type::Object: j.kind = J::object; break; case neolib::json_type::Array: j.kind = J::array; break;
    case neolib::json_type::Double: j.kind = J::number; j.num = v.template as<double>(); break; case neolib::json_type::Int64: j.kind = J::number; j.num = double(v.template as<std::int64_t>()); break; case neolib::json_type::Uint64: j.kind = J::number; j.num = double(v.template as<std::uint64_t>()); break; case neolib::json_type::Int: j.kind = J::number; j.num = v.template as<std::int32_t>(); break; case neolib::json_type::Uint: j.kind = J::number; j.num = v.template as<std::uint32_t>(); break;
    case neolib::json_type::String: j.kind = J::string; j.text = v.text().to_std_string(); break; case neolib::json_type::Bool: j.kind = J::boolean; j.flag = std::get<bool>(*v); break; case neolib::json_type::Null: j.kind = J::null; break; case neolib::json_type::Keyword: j.kind = J::word; j.text = v.text().to_std_string(); break;
    }
    return j;
}
template <typename V> inline J tree(V const& v)
{
    J j = scalar(v); std::size_t n = 0; const V* last = nullptr; for (auto const& c : v) { MC_CHECK(c.has_parent() && &c.parent() == &v, "parent", ""); MC_CHECK(c.has_name() == (j.kind == J::object), "name", ""); j.in.emplace_back(c.has_name() ? c.name().to_std_string() : S{}, tree(c)); ++n; last = &c; } MC_CHECK(v.size() == n && v.empty() == (n == 0) && v.has_children() == (n != 0), "size", ""); MC_CHECK(v.last_child() == last && (n == 0 || last->is_last_sibling()), "last child", ""); return j;
}
// the document in document order, and the lookups of objects and arrays
template <typename V> inline void lookups(V const& v, J const& want, S const& text)
{
    if (want.kind == J::object) { auto const& o = v.template as<std::decay_t<decltype(std::get<1>(*v))>>(); for (auto const& [n, c] : want.in) { MC_CHECK(o.has(n), "has", text, " ", n); auto const& found = o.at(n); bool some = false; for (auto const& [m, d] : want.in) some = some || (m == n && tree(found) == d); MC_CHECK(some, "at", text, " ", n, " is ", ref::show(tree(found))); } MC_CHECK(!o.has("no such name"), "has", text); try { o.at("no such name"); MC_CHECK(false, "at", text); } catch (std::out_of_range const&) {} }
    if (want.kind == J::array) { auto const& a = v.template as<std::decay_t<decltype(std::get<2>(*v))>>(); std::size_t n = 0; for (auto const* c : a) { MC_CHECK(n < want.in.size() && tree(*c) == want.in[n].second && c == &a[n], "element", text, " ", n); ++n; } MC_CHECK(n == want.in.size(), "elements", text, " ", n); }
    std::size_t n = 0; for (auto const& c : v) lookups(c, want.in[n++].second, text);
}
template <typename Json> inline void flat(Json const& j, J const& want, S const& text)
{
    std::vector<J const*> order; std::function<void(J const&)> walk = [&](J const& t) { order.push_back(&t); for (auto const& c : t.in) walk(c.second); }; walk(want); std::size_t n = 0; for (auto i = j.cbegin(); i != j.cend(); ++i, ++n) { MC_CHECK(n < order.size(), "document order", text, ": more values"); auto s = scalar(*i); J w = *order[n]; w.in.clear(); MC_CHECK(s == w, "document order", text, ": ", ref::show(s), " expected ", ref::show(w)); } MC_CHECK(n == order.size(), "document order", text, ": ", n, " values"); std::size_t visits = 0; j.visit([&](auto&&) { ++visits; }); MC_CHECK(visits == order.size(), "visit", text, ": ", visits); lookups(j.root(), want, text);
}
