// @props C05
// @engine conc
// @src src/core/reference_counted.cpp src/core/lifetime.cpp
// Locking jars used by several threads: cookies stay distinct, every item is found under its own cookie.
#include "conc.hpp"
#include <neolib/core/jar.hpp>
#include <mutex>
#include <thread>
using namespace neolib;
template <typename J> static void two_inserters()
{
    J j; cookie c[4]; auto work = [&](int t) { c[2 * t] = j.insert(10 + t); MC_CHECK(j.contains(c[2 * t]), "contains", ""); c[2 * t + 1] = j.emplace(20 + t); };
    std::thread a{ [&] { work(0); } }, b{ [&] { work(1); } }; a.join(); b.join();
    for (int i = 0; i < 4; ++i) { for (int k = 0; k < i; ++k) MC_CHECK(c[i] != c[k], "distinct", i, " ", k, " both ", c[i]); MC_CHECK(j[c[i]] == (i & 1 ? 20 : 10) + i / 2, "item", i); MC_CHECK(j.item_cookie(j[c[i]]) == c[i], "item_cookie", i); }
    MC_CHECK(j.size() == 4, "size", ""); mc::validated();
}
template <typename J> static void insert_and_remove()
{
    J j; auto x = j.insert(1), y = j.insert(2); cookie z{}, w{};
    std::thread a{ [&] { j.remove(x); z = j.insert(3); MC_CHECK(j.contains(y), "contains", "untouched item"); } };
    std::thread b{ [&] { w = j.insert(4); MC_CHECK(j.contains(w), "contains", "own item"); j.remove(w); { std::scoped_lock lock{ j.mutex() }; MC_CHECK(j.find(y) != j.end() && *j.find(y) == 2, "find", "untouched item"); } } };
    a.join(); b.join(); MC_CHECK(j.size() == 2 && j[y] == 2 && j[z] == 3 && (x == z || !j.contains(x)) && (w == z || !j.contains(w)), "item", ""); auto n = j.insert(5); MC_CHECK(n != y && n != z, "distinct", ""); MC_CHECK(j[y] == 2 && j[z] == 3 && j[n] == 5, "item", ""); mc::validated();
}
template <typename J> static void reserve()
{
    J j; cookie c[2]; std::thread a{ [&] { c[0] = j.next_cookie(); j.add(c[0], 10); } }; c[1] = j.next_cookie(); auto d = j.insert(7); j.add(c[1], 11); a.join();
    MC_CHECK(c[0] != c[1] && c[0] != d && c[1] != d && j[c[0]] == 10 && j[c[1]] == 11 && j[d] == 7, "item", ""); mc::validated();
}
template <typename J> static void observe()
{   // a third party only looks
    J j; auto y = j.insert(2); std::thread a{ [&] { auto z = j.insert(3); j.remove(z); j.insert(4); } };
    auto n = j.size(); MC_CHECK(n >= 1 && n <= 2, "size", n); MC_CHECK(!j.empty(), "size", ""); MC_CHECK(j.contains(y), "contains", ""); { std::scoped_lock lock{ j.mutex() }; int sum = 0; for (auto& i : j) sum += i; MC_CHECK(j.at_index(0) == 2 && j[y] == 2 && (sum == 2 || sum == 5 || sum == 6), "iteration", sum); } a.join(); MC_CHECK(j.size() == 2, "size", ""); mc::validated();
}
template <typename J> static void clearing()
{
    J j; j.insert(1); std::thread a{ [&] { j.clear(); } }; auto n = j.insert(2); a.join(); MC_CHECK(j.size() <= 1 && (!j.contains(n) || (j.size() == 1 && j[n] == 2)), "clear", ""); mc::validated();
}
MC_CONC("jar/two_inserters", 6, 12) { two_inserters<jar<int, std::recursive_mutex>>(); }
MC_CONC("std_vector_jar/two_inserters", 6, 12) { two_inserters<std_vector_jar<int, std::recursive_mutex>>(); }
MC_CONC("jar/insert_and_remove", 6, 12) { insert_and_remove<jar<int, std::recursive_mutex>>(); }
MC_CONC("std_vector_jar/insert_and_remove", 6, 12) { insert_and_remove<std_vector_jar<int, std::recursive_mutex>>(); }
MC_CONC("jar/reserve", 6, 12) { reserve<jar<int, std::recursive_mutex>>(); }
MC_CONC("std_vector_jar/reserve", 6, 12) { reserve<std_vector_jar<int, std::recursive_mutex>>(); }
MC_CONC("jar/observe", 6, 12) { observe<jar<int, std::recursive_mutex>>(); }
MC_CONC("std_vector_jar/observe", 6, 12) { observe<std_vector_jar<int, std::recursive_mutex>>(); }
MC_CONC("jar/clearing", 6, 12) { clearing<jar<int, std::recursive_mutex>>(); }
MC_CONC("std_vector_jar/clearing", 6, 12) { clearing<std_vector_jar<int, std::recursive_mutex>>(); }
