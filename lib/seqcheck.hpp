// Observation helpers shared by the sequence-container harnesses.
#pragma once
#include "mc.hpp"
#include <iterator>
namespace seqcheck
{
    template <typename T> inline int val(T const& e) { if constexpr (requires { e.get(); }) return e.get(); else return int(e); }
    template <typename V>
    void same(V const& v, std::vector<int> const& m, const char* who, bool at = false)
    {
        MC_CHECK(std::size_t(v.size()) == m.size(), "size", who, ": size ", v.size(), " expected ", m.size());
        MC_CHECK(v.empty() == m.empty(), "empty", who);
        std::vector<int> got; got.reserve(32);
        for (auto i = v.begin(); i != v.end(); ++i) { MC_CHECK(got.size() <= m.size(), "iteration", who, ": forward iteration runs past the end"); got.push_back(val(*i)); }
        MC_CHECK(got == m, "content", who, ": ", mc::show(got), " expected ", mc::show(m));
    }
    template <typename V>
    void reverse(V const& v, std::vector<int> const& m, const char* who)
    {
        std::vector<int> got; got.reserve(32);
        for (auto i = v.rbegin(); i != v.rend(); ++i) { MC_CHECK(got.size() <= m.size(), "iteration", who, ": reverse iteration runs past the end"); got.push_back(val(*i)); }
        MC_CHECK(got == std::vector<int>(m.rbegin(), m.rend()), "reverse", who, ": ", mc::show(got), " expected reverse of ", mc::show(m));
    }
    template <typename V>
    void indexed(V& v, std::vector<int> const& m, const char* who)
    {
        V const& cv = v;
        for (std::size_t i = 0; i < m.size(); ++i) { MC_CHECK(val(v[i]) == m[i] && val(cv[i]) == m[i], "index", who, "[", i, "]"); }
        if (!m.empty()) { MC_CHECK(val(v.front()) == m.front() && val(v.back()) == m.back() && val(cv.front()) == m.front() && val(cv.back()) == m.back(), "ends", who); }
    }
    // walks from an iterator to both ends, checking every element on the way
    template <typename V, typename It>
    void walk(V& v, It it, std::size_t pos, std::vector<int> const& m, const char* who)
    {
        MC_CHECK(std::size_t(it - v.begin()) == pos, "returned-position", who, ": iterator at ", it - v.begin(), " expected ", pos);
        auto j = it; for (std::size_t p = pos; p < m.size(); ++p, ++j) { MC_CHECK(j != v.end(), "walk", who, ": reached the end at ", p); MC_CHECK(val(*j) == m[p], "walk", who, ": forward from returned iterator at ", p); }
        MC_CHECK(j == v.end(), "walk", who, ": end not reached");
        j = it; for (std::size_t p = pos; p-- > 0;) { --j; MC_CHECK(val(*j) == m[p], "walk", who, ": backward from returned iterator at ", p); }
        MC_CHECK(j == v.begin(), "walk", who, ": begin not reached");
    }
    template <typename V, typename B, typename E>
    void arithmetic_(B begin, E end, std::vector<int> const& m, const char* who)
    {
        auto const n = std::ptrdiff_t(m.size());
        auto stepped = begin;
        for (std::ptrdiff_t i = 0; i <= n; ++i)
        {
            auto it = begin + i; auto fromEnd = end - (n - i);
            MC_CHECK(it == fromEnd && it == stepped, "iterator-identity", who, " begin()+", i, ", ", i, " increments and end()-", n - i, " differ");
            MC_CHECK(it - begin == i && end - it == n - i, "iterator-distance", who, " position ", i, " of ", n);
            MC_CHECK((it == end) == (i == n), "iterator-end", who, i);
            if (i < n) { MC_CHECK(val(*it) == m[i] && val(*stepped) == m[i] && val(*fromEnd) == m[i] && val(begin[i]) == m[i], "iterator-deref", who, " begin()+", i); ++stepped; }
            for (std::ptrdiff_t j = 0; j <= n; ++j)
            {
                auto jt = it + (j - i); auto kt = it; kt -= (i - j); auto lt = it; lt += (j - i); auto ot = it - (i - j);
                MC_CHECK(jt == begin + j && kt == jt && lt == jt && ot == jt, "iterator-plus", who, " ", i, " + ", j - i);
                MC_CHECK(jt - it == j - i, "iterator-difference", who, " ", j, " - ", i, " = ", jt - it);
                MC_CHECK((it < jt) == (i < j) && (it == jt) == (i == j) && (it > jt) == (i > j) && (it <= jt) == (i <= j) && (it >= jt) == (i >= j) && (it != jt) == (i != j), "iterator-order", who, " ", i, " ", j);
                if (j < n) MC_CHECK(val(*jt) == m[j] && val(*kt) == m[j] && val(*lt) == m[j], "iterator-deref", who, " ", i, " + ", j - i);
            }
            if (i < n) { auto a = it; auto b = a++; MC_CHECK(b == it && a == begin + (i + 1), "iterator-increment", who, " ", i); }
            if (i > 0) { auto a = it; auto b = a--; MC_CHECK(b == it && a == begin + (i - 1), "iterator-decrement", who, " ", i); auto c = it; --c; MC_CHECK(val(*c) == m[i - 1], "iterator-decrement", who, " ", i); }
        }
    }
    template <typename V>
    void arithmetic(V& v, std::vector<int> const& m, const char* who)
    {
        V const& cv = v;
        arithmetic_<V>(v.begin(), v.end(), m, who);
        arithmetic_<V>(cv.begin(), cv.end(), m, who);
        for (std::size_t i = 0; i <= m.size(); ++i) { typename V::const_iterator c = v.begin() + i; MC_CHECK(c == cv.begin() + i, "iterator-const", who, " ", i); }
    }
}
