// Exhaustive enumeration of inputs: all strings over an alphabet up to a length. The first letters are engine choices
// (so that executions are distributed over processes and can be replayed), the rest is a loop inside the execution.
#pragma once
#include "seqcheck.hpp"
#include <string>
#include <vector>
namespace mc
{
    inline std::string hex(std::string const& s) { static char const d[] = "0123456789ABCDEF"; std::string r; for (unsigned char c : s) { if (!r.empty()) r += ' '; r += d[c >> 4]; r += d[c & 15]; } return r; }
    // a string over alphabet[0..n) chosen letter by letter; the choice 0 ends it
    template <typename Letter> inline std::vector<Letter> chosen(std::vector<Letter> const& alphabet, std::size_t most)
    { std::vector<Letter> r; while (r.size() < most) { auto c = choose(std::uint32_t(alphabet.size() + 1)); if (c == 0) break; r.push_back(alphabet[c - 1]); } return r; }
    // f(s) for every s = prefix + t, t over the alphabet with length <= most
    template <typename Letter, typename F> inline void every(std::vector<Letter> const& alphabet, std::vector<Letter>& s, std::size_t most, F const& f)
    { f(s); if (most == 0) return; for (auto const& a : alphabet) { s.push_back(a); every(alphabet, s, most - 1, f); s.pop_back(); } }
    // all words over the alphabet with length <= most: words shorter than `split` letters are executions of their own,
    // each word of `split` letters is an execution that loops over all its extensions
    template <typename Letter, typename F> inline void words(std::vector<Letter> const& alphabet, std::size_t split, std::size_t most, F const& f)
    {
        auto g = [&](std::vector<Letter> const& w) { f(w); op(); validated(); };
        auto s = chosen(alphabet, split); if (s.size() < split) { g(s); return; } heavy(); every(alphabet, s, most - split, g);
    }
    inline std::string text(std::vector<char> const& v) { return std::string(v.begin(), v.end()); }
    template <typename S> inline std::string text(std::vector<S> const& v) { std::string r; for (auto const& s : v) r += s; return r; }
}
