// @props F01
// @src src/core/reference_counted.cpp src/core/lifetime.cpp src/core/string_utils.cpp src/core/crc.cpp src/file/gunzip.cpp src/file/zip.cpp src/file/file.cpp
// @link -lboost_locale -lz
// Compressed files and file helpers. gzip and zip files of enumerated contents, methods and headers are built here with
// zlib and unpacked by the code; every truncation, every byte replaced by every value and every header field set to
// boundary values is unpacked too: what is unpacked is what was packed, or it is refused.
#include "mc.hpp"
#include "enumerate.hpp"
#include <neolib/neolib.hpp>
#include <filesystem>
#include <fstream>
#include <zlib.h>
#include <unistd.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <neolib/file/gunzip.hpp>
#include <neolib/file/zip.hpp>
#include <neolib/file/file.hpp>
#include <neolib/file/hexdump.hpp>
typedef std::string S; using mc::choose; namespace fs = std::filesystem;
static S deflated(S const& s, int level, int strategy) { z_stream z{}; deflateInit2(&z, level, Z_DEFLATED, -15, 8, strategy); S r(compressBound(s.size()) + 64, 0); z.next_in = (Bytef*)s.data(); z.avail_in = uInt(s.size()); z.next_out = (Bytef*)r.data(); z.avail_out = uInt(r.size()); deflate(&z, Z_FINISH); r.resize(z.total_out); deflateEnd(&z); return r; }
static std::uint32_t crc(S const& s) { return std::uint32_t(::crc32(::crc32(0, nullptr, 0), (Bytef const*)s.data(), uInt(s.size()))); }
static S le(std::uint64_t v, int n) { S r; while (n--) { r += char(v); v >>= 8; } return r; }
static S gz(S const& content, int level, int strategy, int flags, S const& name = "n", S const& comment = "", S const& extra = "ex") { S h = S("\x1f\x8b\x08", 3) + char(flags) + le(0x12345678, 4) + '\0' + '\3'; if (flags & 4) h += le(extra.size(), 2) + extra; if (flags & 8) h += name + '\0'; if (flags & 16) h += comment + '\0'; if (flags & 2) h += le(crc(h) & 0xFFFF, 2); return h + deflated(content, level, strategy) + le(crc(content), 4) + le(content.size(), 4); }
// what zlib says of it, if it is exactly one member
static bool reference(S const& s, S& out) { z_stream z{}; inflateInit2(&z, 31); out.assign(1 << 17, 0); z.next_in = (Bytef*)s.data(); z.avail_in = uInt(s.size()); z.next_out = (Bytef*)out.data(); z.avail_out = uInt(out.size()); int r = inflate(&z, Z_FINISH); bool ok = r == Z_STREAM_END && z.avail_in == 0; out.resize(z.total_out); inflateEnd(&z); return ok; }
static bool unpack(S const& s, S& out) { std::vector<char> v(s.begin(), s.end()); neolib::gunzip g{ v }; mc::op(); out.assign(g.uncompressed_data().begin(), g.uncompressed_data().end()); MC_CHECK(g.ok() || out.empty(), "data of a refused file", mc::hex(s)); return g.ok(); }
static S letters(std::size_t n, int kind) { S r; std::uint32_t x = 12345; for (std::size_t i = 0; i < n; ++i) { x = x * 1664525 + 1013904223; r += kind == 0 ? 'a' : kind == 1 ? char('a' + i % 7) : char(x >> 24); } return r; }
static std::vector<S> const& contents() { static std::vector<S> c; if (c.empty()) { static std::vector<char> const a{ 'a', '\0', '\xFF' }; std::vector<char> s; mc::every(a, s, 3, [](auto const& w) { c.push_back(mc::text(w)); }); for (std::size_t n : { 4, 31, 257, 258, 259, 260, 1000, 32767, 32768, 32769, 65535, 65536, 70000 }) for (int k : { 0, 1, 2 }) c.push_back(letters(n, k)); } return c; }
static int const strategies[] = { Z_DEFAULT_STRATEGY, Z_FIXED, Z_HUFFMAN_ONLY, Z_RLE };
MC_SCENARIO("gzip/contents") { auto const& c = contents()[choose(std::uint32_t(contents().size()))]; int const level = int(choose(3)) * 4, strategy = strategies[choose(4)]; mc::heavy(); for (int flags = 0; flags < 32; ++flags) for (auto const& [n, k, e] : { std::tuple<S, S, S>{ "", "", "" }, { "file.txt", "a comment", S(300, 'e') }, { "\xFF", S(1000, 'c'), S(1, '\0') } }) { S out; auto const s = gz(c, level, strategy, flags, n, k, e); MC_CHECK(unpack(s, out) && out == c, "gunzip", "content of ", c.size(), " level ", level, " strategy ", strategy, " flags ", flags); } mc::validated(); }
static std::vector<S> const& samples() { static std::vector<S> s; if (s.empty()) for (auto const& c : { S{}, S{ "a" }, S{ "hello hello hello" }, letters(40, 2) }) for (int level : { 0, 9 }) for (int flags : { 0, 2, 8, 31 }) s.push_back(gz(c, level, Z_DEFAULT_STRATEGY, flags, "nm", "c", "xy")); return s; }
static void same_as_zlib(S const& s) { S out, want; bool const ok = unpack(s, out), reads = reference(s, want); if (ok) MC_CHECK(reads && out == want, "accepted", mc::hex(s)); else MC_CHECK(!reads, "refused", mc::hex(s)); }
MC_SCENARIO("gzip/truncated") { auto const& s = samples()[choose(std::uint32_t(samples().size()))]; for (std::size_t n = 0; n < s.size(); ++n) { S out; MC_CHECK(!unpack(s.substr(0, n), out), "truncated", n, " of ", mc::hex(s)); } S out; MC_CHECK(!unpack(s + "x", out) && !unpack(S(1, '\0') + s, out), "surplus", mc::hex(s)); mc::validated(); }
MC_SCENARIO("gzip/corrupted") { auto const& s = samples()[choose(std::uint32_t(samples().size()))]; auto const part = choose(4); mc::heavy(); for (std::size_t i = part; i < s.size(); i += 4) for (int v = 0; v < 256; ++v) { if (i == 3 && (v & 0xE1)) continue; /* text and reserved flags: ignored */ S t = s; t[i] = char(v); same_as_zlib(t); } mc::validated(); }
MC_SCENARIO("gzip/removed") { auto const& s = samples()[choose(std::uint32_t(samples().size()))]; mc::heavy(); for (std::size_t i = 0; i < s.size(); ++i) for (std::size_t j = i + 1; j <= s.size(); ++j) { S t = s.substr(0, i) + s.substr(j); if (t.size() > 3 && (t[3] & 0xE0)) { S out; unpack(t, out); continue; } same_as_zlib(t); } mc::validated(); }
MC_SCENARIO("gzip/short") { static std::vector<char> const a{ '\0', '\1', '\3', '\x1f', '\x8b', '\x08', '\xff' }; mc::words(a, 2, mc::tier(5, 7), [](auto const& w) { S out; auto const t = mc::text(w); MC_CHECK(!unpack(t, out), "too short", mc::hex(t)); for (int f : { 0, 4, 8, 16, 2 }) { S h = S("\x1f\x8b\x08", 3) + char(f) + S(6, '\0') + t; same_as_zlib(h); same_as_zlib(h + S(8, '\0')); } }); }
// zip
struct entry { S name, content; int method = 0; S extra, centralExtra, comment; bool descriptor = false; };
struct archive { S bytes; std::vector<std::size_t> local, central; std::size_t end = 0; };
static archive zipped(std::vector<entry> const& es, S const& gap = {})
{
    archive a; S dir; for (auto const& e : es)
    {
        S const data = e.method == 8 ? deflated(e.content, 9, Z_DEFAULT_STRATEGY) : e.content; std::size_t const offset = a.bytes.size(); a.local.push_back(offset); S const flags = le(e.descriptor ? 8 : 0, 2); S const sums = le(crc(e.content), 4) + le(data.size(), 4) + le(e.content.size(), 4);
        a.bytes += le(0x04034b50, 4) + le(20, 2) + flags + le(e.method, 2) + le(0x1234, 2) + le(0x5678, 2) + (e.descriptor ? S(12, '\0') : sums) + le(e.name.size(), 2) + le(e.extra.size(), 2) + e.name + e.extra + data; if (e.descriptor) a.bytes += le(0x08074b50, 4) + sums; a.bytes += gap;
        a.central.push_back(dir.size()); dir += le(0x02014b50, 4) + le(20, 2) + le(20, 2) + flags + le(e.method, 2) + le(0x1234, 2) + le(0x5678, 2) + sums + le(e.name.size(), 2) + le(e.centralExtra.size(), 2) + le(e.comment.size(), 2) + le(0, 2) + le(0, 2) + le(0, 4) + le(offset, 4) + e.name + e.centralExtra + e.comment;
    }
    for (auto& c : a.central) c += a.bytes.size(); auto const at = a.bytes.size(); a.bytes += dir; a.end = a.bytes.size(); a.bytes += le(0x06054b50, 4) + le(0, 4) + le(es.size(), 2) + le(es.size(), 2) + le(dir.size(), 4) + le(at, 4) + le(0, 2); return a;
}
static std::vector<std::uint8_t> bytes(S const& s) { return { s.begin(), s.end() }; }
static void whole(neolib::zip& z, std::vector<entry> const& es, const char* how)
{
    MC_CHECK(z.ok() && z.file_count() == es.size(), "zip refused", how, " ", z.file_count()); for (std::size_t i = 0; i < es.size(); ++i) { MC_CHECK(z.file_path(i) == es[i].name, "file_path", how, " ", i); std::size_t first = 0; while (es[first].name != es[i].name) ++first; MC_CHECK(z.index_of(es[i].name) == first, "index_of", how, " ", i); }
    for (std::size_t i = es.size(); i-- > 0;) { neolib::zip::buffer_type b{ 1, 2, 3 }; MC_CHECK(z.extract_to(i, b) && z.ok() && S(b.begin(), b.end()) == es[i].content, "extract_to", how, " ", i, " method ", es[i].method, " of ", es[i].content.size(), " bytes gives ", b.size()); MC_CHECK(z.extract_to_string(i) == es[i].content, "extract_to_string", how, " ", i); mc::op(); }
    bool thrown = false; try { z.index_of("no such file"); } catch (neolib::zip::file_not_found const&) { thrown = true; } MC_CHECK(thrown, "index_of", how); neolib::zip::buffer_type b; MC_CHECK(!z.extract_to(es.size(), b) && !z.extract_to(es.size() + 1, b) && !z.extract_to(~std::size_t(0), b), "extract_to", how, " past the last file");
}
struct area { fs::path p; area() { char t[] = "/tmp/mc_f01_XXXXXX"; if (!mkdtemp(t)) std::abort(); p = t; } ~area() { std::error_code e; fs::remove_all(p, e); } };
static void constructed(S const& s, std::vector<entry> const& es)
{
    auto v = bytes(s); { neolib::zip z{ v }; whole(z, es, "copied"); } { neolib::zip z{ v.data(), v.size() }; whole(z, es, "in memory"); } { neolib::zip z{ std::move(v) }; whole(z, es, "moved"); }
}
static std::vector<entry> const& kinds() { static std::vector<entry> k; if (k.empty()) { for (int m : { 0, 8 }) for (auto const& c : { S{}, S{ "a" }, S{ "hello hello hello" }, letters(300, 2) }) k.push_back({ "f" + std::to_string(k.size()), c, m }); k.push_back({ "d/sub", "x", 0, "extra", "other extra", "comment" }); k.push_back({ "", letters(70000, 1), 8, "", "", "", true }); k.push_back({ "stored", "follows", 0, "", "", "c", true }); } return k; }
MC_SCENARIO("zip/contents") { auto const& c = contents()[choose(std::uint32_t(contents().size()))]; for (int m : { 0, 8 }) for (bool d : { false, true }) constructed(zipped({ { "name", c, m, "", "", "", d } }).bytes, { { "name", c } }); mc::validated(); }
MC_SCENARIO("zip/archives") { std::vector<entry> es; auto const n = choose(mc::tier(4, 5)); for (std::uint32_t i = 0; i < n; ++i) es.push_back(kinds()[choose(std::uint32_t(kinds().size()))]); S const gap = choose(2) ? "gap" : ""; constructed(zipped(es, gap).bytes, es); mc::validated(); }
MC_SCENARIO("zip/files") { area a; auto const& e = kinds()[choose(std::uint32_t(kinds().size()))]; std::vector<entry> const es{ kinds()[1], e }; auto const path = (a.p / "t.zip").string(); std::ofstream{ path, std::ios::binary } << zipped(es).bytes; neolib::zip z{ path }; whole(z, es, "from a file"); bool missing = false; try { neolib::zip y{ (a.p / "none").string() }; missing = !y.ok(); } catch (std::exception const&) { missing = true; } MC_CHECK(missing, "missing zip file", ""); mc::validated(); }
static std::vector<std::vector<entry>> const& archives() { static std::vector<std::vector<entry>> const a{ {}, { { "n", "content", 0 } }, { { "aa", "hello hello hello hello", 8, "x", "y", "z" }, { "b", "stored", 0 } }, { { "e", "", 8 }, { "s", "", 0 }, { "d", "described", 8, "", "", "", true } } }; return a; }
// an archive that is not the one that was made: entries are extracted as they were, or refused
static void damaged(S const& s, std::vector<entry> const& es, S const& what) { auto const v = bytes(s); neolib::zip z{ v.data(), v.size() }; mc::op(); if (z.ok()) MC_CHECK(z.file_count() == es.size(), "files missing", what, " ", z.file_count()); for (std::size_t i = 0; i < z.file_count(); ++i) { neolib::zip y{ v.data(), v.size() }; neolib::zip::buffer_type b; if (y.extract_to(i, b)) MC_CHECK(S(b.begin(), b.end()) == es[i].content, "extracted", what, " entry ", i, " is ", mc::hex(S(b.begin(), b.end()))); else MC_CHECK(!y.ok(), "refusal not reported", what); } }
static void harmless(S const& s) { auto const v = bytes(s); neolib::zip z{ v.data(), v.size() }; mc::op(); for (std::size_t i = 0; i <= z.file_count(); ++i) { neolib::zip y{ v.data(), v.size() }; neolib::zip::buffer_type b; y.extract_to(i, b); } }
MC_SCENARIO("zip/truncated") { auto const& es = archives()[choose(std::uint32_t(archives().size()))]; auto const s = zipped(es).bytes; for (std::size_t n = 0; n < s.size(); ++n) { auto const v = bytes(s.substr(0, n)); neolib::zip z{ v.data(), v.size() }; MC_CHECK(!z.ok(), "truncated", n); if (n) { auto const w = bytes(s.substr(n)); neolib::zip y{ w.data(), w.size() }; harmless(s.substr(n)); } } mc::validated(); }
MC_SCENARIO("zip/corrupted") { auto const k = choose(std::uint32_t(archives().size())); auto const& es = archives()[k]; auto const s = zipped(es).bytes; auto const part = choose(16); mc::heavy(); for (std::size_t i = part; i < s.size(); i += 16) for (int v = 0; v < 256; ++v) { S t = s; t[i] = char(v); damaged(t, es, "byte " + std::to_string(i) + " := " + std::to_string(v) + " of archive " + std::to_string(k)); } mc::validated(); }
MC_SCENARIO("zip/removed") { auto const& es = archives()[choose(std::uint32_t(archives().size()))]; auto const s = zipped(es).bytes; auto const part = choose(8); mc::heavy(); for (std::size_t i = part; i < s.size(); i += 8) for (std::size_t j = i + 1; j <= s.size(); ++j) harmless(s.substr(0, i) + s.substr(j)); mc::validated(); }
MC_SCENARIO("zip/fields") // every two fields of the headers with values that are not theirs
{
    auto const& es = archives()[1 + choose(std::uint32_t(archives().size() - 1))]; auto const a = zipped(es); std::vector<std::pair<std::size_t, int>> fields; auto add = [&](std::size_t at, std::initializer_list<int> ns) { for (int n : ns) { fields.push_back({ at, n }); at += n; } };
    add(a.local[0] + 8, { 2 }); add(a.local[0] + 14, { 4, 4, 4, 2, 2 }); add(a.central[0] + 10, { 2 }); add(a.central[0] + 16, { 4, 4, 4, 2, 2, 2 }); add(a.central[0] + 42, { 4 }); add(a.end + 8, { 2, 2, 4, 4, 2 });
    auto const f = choose(std::uint32_t(fields.size())); mc::heavy(); std::uint64_t const n = a.bytes.size(); std::uint64_t const values[] = { 0, 1, 8, n - 1, n, n + 1, n / 2, a.central[0], a.local.back(), 0x7FFF, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFF - n };
    for (auto v : values) { S t = a.bytes; t.replace(fields[f].first, fields[f].second, le(v, fields[f].second)); harmless(t); for (std::size_t g = f + 1; g < fields.size(); ++g) for (auto w : values) { S u = t; u.replace(fields[g].first, fields[g].second, le(w, fields[g].second)); harmless(u); } } mc::validated();
}
static S slurp(fs::path const& p) { std::ifstream i{ p, std::ios::binary }; return S{ std::istreambuf_iterator<char>{ i }, {} }; }
MC_SCENARIO("zip/extract") // only below the directory, and with the bytes of the entry
{
    area a; fs::create_directories(a.p / "in" / "t" / "sub"); auto const outer = a.p.string(); S const names[] = { "f", "sub/f", "sub/../f", "../f", "../../f", "sub/../../f", "none/f", "sub", "..", ".", "", outer + "/f", "/f", "./f", "..f", "f..", "sub/..f" };
    auto const n = choose(std::size(names)); auto const& name = names[n]; if (name == "/f") { mc::validated(); return; } auto const& k = kinds()[choose(8)]; std::vector<entry> const es{ { name, k.content, k.method } }; neolib::zip z{ bytes(zipped(es).bytes) }; auto const target = a.p / "in" / "t"; bool const ok = z.extract(0, target.string()); mc::op();
    std::size_t below = 0, outside = 0; for (auto const& f : fs::recursive_directory_iterator(a.p)) if (f.is_regular_file()) { auto const rel = fs::relative(f.path(), target).string(); (rel.substr(0, 2) == ".." && rel.substr(0, 3) != "..f" ? outside : below)++; }
    MC_CHECK(outside == 0, "wrote outside", name); bool const plain = name == "f" || name == "sub/f" || name == "./f" || name == "..f" || name == "f.." || name == "sub/..f"; MC_CHECK(ok == z.ok(), "extract", name); if (plain) MC_CHECK(ok && below == 1 && slurp(target / name) == k.content, "extract", name, " of ", k.content.size()); else if (ok) MC_CHECK(below == 1 && slurp((target / name).lexically_normal()) == k.content, "extract", name); else MC_CHECK(below == 0, "left behind", name); mc::validated();
}
// file helpers
MC_SCENARIO("file/extension") { static std::vector<char> const a{ 'a', '.', '/', 'b' }; mc::words(a, 2, 6, [](auto const& w) { auto const s = mc::text(w); auto const name = s.substr(s.rfind('/') + 1); auto const d = name.rfind('.'); S const want = d == S::npos ? "" : name.substr(d + 1); MC_CHECK(neolib::file_ext(s) == want, "file_ext", s, " '", neolib::file_ext(s), "'"); MC_CHECK(neolib::file_ext(std::wstring(s.begin(), s.end())) == std::wstring(want.begin(), want.end()), "file_ext wide", s); MC_CHECK(neolib::tidy_path(s) == s, "tidy_path", s); }); }
MC_SCENARIO("file/conversion") { static std::vector<S> const a{ "a", "/", ".", " ", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9D\x84\x9E", "\\" }; static std::vector<std::wstring> const wide{ L"a", L"/", L".", L" ", L"\u00E9", L"\u20AC", L"\U0001D11E", L"\\" }; std::vector<int> letters; for (int i = 0; i < int(a.size()); ++i) letters.push_back(i); mc::words(letters, 2, 5, [](auto const& w) { S s; std::wstring u; for (int i : w) { s += a[i]; u += wide[i]; } S t; std::wstring v; /* repeated separators are one */ for (char c : s) if (c != '/' || t.empty() || t.back() != '/') t += c; for (wchar_t c : u) if (c != L'/' || v.empty() || v.back() != L'/') v += c; MC_CHECK(neolib::convert_path(s) == v && neolib::convert_path(u) == t, "convert_path", s); }); }
MC_SCENARIO("file/helpers")
{
    area a; S const names[] = { "f", "a b", "\xC3\xA9", "\xF0\x9D\x84\x9E.x", "deep/er/f" }; auto const& name = names[choose(5)]; bool const w = choose(2); auto const path = (a.p / name).string(); auto const wide = neolib::convert_path(path); auto const dir = fs::path(path).parent_path().string(); auto const wdir = neolib::convert_path(dir);
    auto exists = [&] { bool const e = neolib::file_exists(path); MC_CHECK(e == neolib::file_exists(wide) && e == fs::exists(path) && neolib::can_read_file(path) == e && neolib::can_read_file(wide) == e, "file_exists", path); return e; };
    MC_CHECK(!exists(), "exists", path); if (w) { MC_CHECK(&neolib::create_path(wdir) == &wdir, "create_path", wdir.size()); } else MC_CHECK(&neolib::create_path(dir) == &dir, "create_path", dir); MC_CHECK(fs::is_directory(dir), "create_path", dir); neolib::create_path(dir); MC_CHECK(!exists(), "exists", path);
    if (w) neolib::create_file(wide); else MC_CHECK(neolib::create_file(path) == path, "create_file", path); MC_CHECK(exists() && slurp(path).empty(), "create_file", path);
    std::size_t const n = std::size_t(choose(4)) * 1000; { neolib::simple_file f{ path, "wb" }; MC_CHECK(f.valid() && f.error() == 0, "simple_file", path); S const body(n, 'x'); fwrite(body.data(), 1, n, f); auto g = f; f.close(); MC_CHECK(!f.valid() && g.valid(), "simple_file", path); }
    MC_CHECK(neolib::file_size(path) == n && neolib::file_size(wide) == n && neolib::large_file_size(path) == n && neolib::large_file_size(wide) == n, "file_size", n); neolib::create_file(path); neolib::create_file(wide); MC_CHECK(neolib::file_size(path) == n, "create_file truncates", path);
    { neolib::simple_file f{ path + "none", "rb" }; MC_CHECK(!f.valid() && f.error() == ENOENT, "simple_file", f.error()); neolib::simple_file none; MC_CHECK(!none.valid() && none.error() == 0, "simple_file", ""); }
    for (std::time_t t : { 1000000000, 1, 1700000001, 2000000000 }) for (long ns : { 0L, 1L, 500000000L, 999999999L }) { timespec ts[2] = { { t, ns }, { t, ns } }; utimensat(AT_FDCWD, path.c_str(), ts, 0); MC_CHECK(neolib::file_date(path) == t && neolib::file_date(wide) == t, "file_date", t, ".", ns, " is ", neolib::file_date(path)); }
    auto const to = (a.p / (choose(2) ? "g" : "other/dir/g")).string(); bool const there = choose(2); if (there) { neolib::create_path(fs::path(to).parent_path().string()); std::ofstream{ to } << "old"; } MC_CHECK(neolib::move_file(path, to) && !exists() && neolib::file_size(to) == n, "move_file", to); MC_CHECK(!neolib::move_file(path, to) && neolib::file_size(to) == n, "move_file without a source", to);
    MC_CHECK(neolib::program_file() == fs::read_symlink("/proc/self/exe").string() && neolib::program_directory() == fs::read_symlink("/proc/self/exe").parent_path().string(), "program_file", ""); mc::validated();
}
MC_SCENARIO("file/relative") { area a; auto const here = fs::current_path(); fs::current_path(a.p); std::ofstream{ "a" } << "x"; bool ok = false; try { ok = neolib::move_file("a", "b"); } catch (...) {} bool const there = fs::exists("b") && !fs::exists("a"); fs::current_path(here); MC_CHECK(ok && there, "move_file", ""); mc::validated(); }
MC_SCENARIO("file/large") { area a; auto const path = (a.p / "f").string(); long long const at = 5000000000LL + choose(3); { neolib::simple_file f{ path, "wb" }; MC_CHECK(neolib::large_file_seek(f, at, SEEK_SET) == 0, "seek", at); fputc('x', f); } MC_CHECK(neolib::large_file_size(path) == (unsigned long long)at + 1, "large_file_size", at); neolib::simple_file f{ path, "rb" }; neolib::large_file_seek(f, -1, SEEK_END); MC_CHECK(fgetc(f) == 'x', "seek", at); mc::validated(); }
MC_SCENARIO("file/hexdump")
{
    std::size_t const width = 1 + choose(20), kind = choose(4); for (std::size_t n = 0; n < 70; ++n)
    {
        S d = letters(n, 2); if (kind == 1) for (std::size_t i = 0; i < n; ++i) d[i] = char(i); else if (kind == 2) for (std::size_t i = 0; i < n; ++i) d[i] = char(i * 4); else if (kind == 3) d = letters(n, 1); std::ostringstream o; neolib::hex_dump(d.data(), d.size(), o, width); std::istringstream in{ o.str() }; S line, got; std::size_t at = 0; mc::op();
        while (std::getline(in, line)) { MC_CHECK(line.size() >= 7 && line.substr(4, 3) == " : " && std::stoul(line.substr(0, 4), nullptr, 16) == at, "offset", line); std::size_t const here = std::min(width, n - at); S const text = line.substr(7, width); for (std::size_t i = 0; i < width; ++i) { char const c = i < here ? d[at + i] : ' '; MC_CHECK(text[i] == (c >= 32 ? c : '.'), "text", line, " of ", n, " width ", width); } std::istringstream h{ line.substr(7 + width) }; S b; std::size_t k = 0; while (h >> b) { MC_CHECK(b.size() == 2, "byte", line); got += char(std::stoul(b, nullptr, 16)); ++k; } MC_CHECK(k == here, "bytes", line); at += here; } MC_CHECK(got == d, "hex dump", n, " width ", width);
    }
    mc::validated();
}
