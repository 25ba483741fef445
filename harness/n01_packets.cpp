// @props N01
// @src src/task/timer.cpp src/task/timer_object.cpp src/task/async_task.cpp src/task/event.cpp src/task/thread.cpp src/task/waitable_event.cpp src/task/time_slice.cpp src/io/http.cpp src/core/string_utils.cpp
// @src src/core/lifetime.cpp src/core/mutex.cpp src/core/service.cpp src/core/reference_counted.cpp src/core/uuid.cpp src/io/openssl.cpp src/app/module.cpp src/posix/app/posix_module.cpp
// @link -lboost_chrono -lboost_filesystem -lboost_locale -lssl -lcrypto -ldl
// Packets, packet streams and the HTTP client over a network made here: the socket calls of boost::asio reach local socket
// pairs; this side decides in which pieces bytes arrive, how much of a write is taken and which call fails.
#include <map>
#include <neolib/task/async_task.hpp>
#include <neolib/io/packet_stream.hpp>
#include <neolib/io/http.hpp>
#include "mc.hpp"
#include "enumerate.hpp"
#include <memory>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <unistd.h>
#include <fcntl.h>
using namespace neolib; typedef std::string S; typedef std::vector<S> L; using mc::choose;
static bool sServices = (services::allocate_service_provider(), true);
namespace net // what the sockets of the code are connected to
{
    struct end { int peer = -1, port = 0; S early; };
    static std::map<int, end> ends; static int latest = -1, connectError = 0, bindError = 0, receiveError = 0, sendError = -1, writes = 0; static std::vector<std::size_t> takes; static std::size_t taken = 0;
    static void clear() { for (auto& [fd, e] : ends) if (e.peer >= 0) ::close(e.peer); ends.clear(); latest = -1; connectError = bindError = receiveError = writes = 0; sendError = -1; takes.clear(); taken = 0; }
    static void say(S const& s) { int const p = ends[latest].peer; std::size_t n = 0; while (p >= 0 && n < s.size()) { auto r = syscall(SYS_sendto, p, s.data() + n, s.size() - n, MSG_NOSIGNAL | MSG_DONTWAIT, nullptr, 0); if (r <= 0) break; n += r; } }
    static S heard(int fd) { S r; r.swap(ends[fd].early); char b[4096]; for (;;) { auto n = syscall(SYS_recvfrom, ends[fd].peer, b, sizeof b, MSG_DONTWAIT, nullptr, nullptr); if (n <= 0) return r; r.append(b, n); } }
    static void hang_up() { auto& e = ends[latest]; if (e.peer >= 0) syscall(SYS_shutdown, e.peer, SHUT_RDWR); }
    static bool ours(int fd) { return ends.count(fd) != 0; }
    // how much of a write is taken; 0: it fails
    static std::size_t limit(std::size_t n) { if (sendError >= 0 && writes >= sendError) return 0; ++writes; return taken < takes.size() ? std::min(n, takes[taken++]) : n; }
}
extern "C"
{
    int socket(int d, int t, int p) noexcept { if (d != AF_INET && d != AF_INET6) return int(syscall(SYS_socket, d, t, p)); int fds[2]; if (syscall(SYS_socketpair, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fds)) return -1; net::ends[fds[0]] = { fds[1], 0 }; net::latest = fds[0]; return fds[0]; }
    int bind(int fd, const sockaddr* a, socklen_t n) noexcept { if (!net::ours(fd)) return int(syscall(SYS_bind, fd, a, n)); if (net::bindError) { errno = net::bindError; return -1; } return 0; }
    int connect(int fd, const sockaddr* a, socklen_t n) { if (!net::ours(fd)) return int(syscall(SYS_connect, fd, a, n)); net::ends[fd].port = ntohs(((sockaddr_in const*)a)->sin_port); if (net::connectError) { errno = net::connectError; return -1; } return 0; }
    int getsockname(int fd, sockaddr* a, socklen_t* n) noexcept { if (!net::ours(fd)) return int(syscall(SYS_getsockname, fd, a, n)); sockaddr_in i{}; i.sin_family = AF_INET; i.sin_port = htons(40000); i.sin_addr.s_addr = htonl(0x7F000001); memcpy(a, &i, sizeof i); *n = sizeof i; return 0; }
    int setsockopt(int fd, int l, int o, const void* v, socklen_t n) noexcept { if (!net::ours(fd)) return int(syscall(SYS_setsockopt, fd, l, o, v, n)); return 0; }
    ssize_t recvmsg(int fd, msghdr* m, int f) { if (net::ours(fd) && net::receiveError) { errno = net::receiveError; return -1; } return syscall(SYS_recvmsg, fd, m, f); }
    ssize_t recv(int fd, void* b, size_t n, int f) { if (net::ours(fd) && net::receiveError) { errno = net::receiveError; return -1; } return syscall(SYS_recvfrom, fd, b, n, f, nullptr, nullptr); }
    ssize_t send(int fd, const void* b, size_t n, int f) { if (net::ours(fd) && n != 0) { auto const all = n; n = net::limit(n); if (n == 0) { errno = EPIPE; return -1; } auto const r = syscall(SYS_sendto, fd, b, n, f, nullptr, 0); if (n < all) net::ends[fd].early = net::heard(fd); /* room: the edge a full socket gives */ return r; } return syscall(SYS_sendto, fd, b, n, f, nullptr, 0); }
    ssize_t sendmsg(int fd, const msghdr* m, int f) { if (!net::ours(fd)) return syscall(SYS_sendmsg, fd, m, f); S b; for (std::size_t i = 0; i < m->msg_iovlen; ++i) b.append((char const*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return send(fd, b.data(), b.size(), f); }
}
struct test_task : async_task { using async_task::do_work; using async_task::cancel; };
static void poll(test_task& t) { for (int idle = 0; idle < 3;) idle = t.do_work() ? 0 : idle + 1; mc::op(); }
template <typename F> static bool until(test_task& t, F f) { for (int i = 0; i < 20000; ++i) { t.do_work(); if (f()) { poll(t); return true; } if (i > 20) usleep(50); } return false; }
// the lines that end in a text
static L lines(S const& s) { L r; S w; for (char c : s) if (c == '\r' || c == '\n') { if (!w.empty()) r.push_back(w); w.clear(); } else w += c; return r; }
// --- packets alone ----------------------------------------------------------------------------------
template <typename C> static void cut(S const& s)
{
    typedef basic_string_packet<C> P; L const want = lines(s);
    for (std::uint32_t mask = 0; mask < (1u << (s.empty() ? 0 : s.size() - 1)); ++mask)
    {
        P p; L got; std::size_t at = 0;
        while (at < s.size())
        {
            std::size_t n = at + 1; while (n < s.size() && !(mask & (1u << (n - 1)))) ++n;
            std::vector<C> piece(s.begin() + at, s.begin() + n); C const* first = piece.data(); C const* const last = first + piece.size();
            while (p.take_some(first, last)) { MC_CHECK(first <= last, "took too much", mc::hex(s)); if (!p.empty()) { S line; for (C c : p.contents()) line += char(c); got.push_back(line); p.clear(); } }
            MC_CHECK(first == last, "left over", mc::hex(s)); at = n;
        }
        MC_CHECK(got == want, "lines", mc::hex(s), " cut by ", mask, " gives ", mc::show(got)); mc::op();
    }
}
MC_SCENARIO("packets/lines") { static std::vector<char> const a{ 'a', 'b', '\r', '\n' }; mc::words(a, 2, mc::tier(6, 8), [](auto const& w) { cut<char>(mc::text(w)); if (w.size() < 6) cut<char16_t>(mc::text(w)); }); }
MC_SCENARIO("packets/binary")
{
    static std::vector<char> const a{ 'a', '\0', '\n' };
    mc::words(a, 2, 6, [](auto const& w)
    {
        S const s = mc::text(w);
        for (std::size_t i = 0; i <= s.size(); ++i)
        {
            binary_packet b; http_packet h;
            for (auto const& piece : { s.substr(0, i), s.substr(i) }) { char const* f = piece.data(); char const* const l = f + piece.size(); MC_CHECK(b.take_some(f, l) == !piece.empty() && f == l, "binary", ""); f = piece.data(); MC_CHECK(h.take_some(f, l) == !piece.empty() && f == l, "undelimited", ""); }
            MC_CHECK(S(b.contents().begin(), b.contents().end()) == s && h.contents() == s, "contents", mc::hex(s));
        }
    });
}
template <typename P> static void values(S const& s, S const& t)
{
    P p(s.data(), s.size()), q{ p }, r;
    auto is = [](P& x, S const& v) { MC_CHECK(x.length() == v.size() && x.empty() == v.empty() && S(x.begin(), x.end()) == v && S(std::as_const(x).begin(), std::as_const(x).end()) == v && S(x.contents().begin(), x.contents().end()) == v, "packet", mc::hex(v)); bool thrown = false; try { MC_CHECK(x.data() == std::as_const(x).data() && S(x.data(), x.length()) == v, "data", ""); } catch (typename P::packet_empty const&) { thrown = true; } MC_CHECK(thrown == v.empty(), "data of an empty packet", ""); };
    is(p, s); is(q, s); is(r, {}); r = p; is(r, s); P o(t.data(), t.size()); r.copy_from(o); is(r, t); is(p, s); auto c = p.clone(); is(static_cast<P&>(*c), s); auto& same = p; p = same; is(p, s); p.clear(); is(p, {}); is(static_cast<P&>(*c), s); q.copy_from(P{}); is(q, {});
    MC_CHECK(!p.has_max_length() && p.max_length() > 1000, "max_length", ""); P u(typename P::contents_type(s.begin(), s.end())); is(u, s); mc::op();
}
MC_SCENARIO("packets/values") { L const v{ "", "a", S("\0\n", 2), "hello", S(1000, 'x') }; auto const& s = v[choose(5)]; auto const& t = v[choose(5)]; values<binary_packet>(s, t); values<string_packet>(s, t); mc::validated(); }
// --- streams ----------------------------------------------------------------------------------------
template <typename P, std::size_t Size = 1024> struct rig
{
    typedef packet_stream<P, tcp_protocol, Size> stream_type;
    std::unique_ptr<test_task> task = std::make_unique<test_task>(); std::unique_ptr<stream_type> s; L arrived, sent; int established = 0, failed = 0, transfer = 0, closed = 0; boost::system::error_code error; S log; std::function<void(char)> on;
    rig() { net::clear(); task->io_context(); s = std::make_unique<stream_type>(*task); listen(); }
    ~rig() { on = nullptr; s.reset(); task.reset(); net::clear(); }
    void happen(char c) { log += c; if (on) { auto f = on; f(c); } }
    void listen()
    {
        s->ConnectionEstablished([this] { ++established; happen('E'); }); s->ConnectionFailure([this](boost::system::error_code const& e) { ++failed; error = e; happen('F'); });
        s->PacketSent([this](P const& p) { sent.push_back(S(p.begin(), p.end())); happen('S'); }); s->PacketArrived([this](P const& p) { arrived.push_back(S(p.begin(), p.end())); happen('A'); });
        s->TransferFailure([this](boost::system::error_code const& e) { ++transfer; error = e; happen('T'); }); s->ConnectionClosed([this] { ++closed; happen('C'); });
    }
    // as a server does it
    void accept() { s->connection().open(true); int const fd = socket(AF_INET, SOCK_STREAM, 0); s->connection().socket().assign(tcp_protocol::v4(), fd); s->connection().server_accept(); }
    void run() { poll(*task); }
    void states(bool open) { MC_CHECK(s->opened() == open && s->closed() != open && s->connected() == open, "state", log); }
};
enum ending { CLOSE, HANG_UP, RESET, DESTROY };
template <typename R> static void finish(R& r, int how)
{
    if (how == CLOSE) r.s->close(); else if (how == HANG_UP) net::hang_up(); else if (how == RESET) { net::receiveError = ECONNRESET; net::say("x"); } else { r.s.reset(); MC_CHECK(r.closed == 1, "closed", r.log); r.run(); MC_CHECK(r.closed == 1 && r.transfer == 0, "closed", r.log); return; }
    r.run(); MC_CHECK(r.closed == 1, "closed", r.log, " times ", r.closed); MC_CHECK(r.transfer == (how == RESET), "transfer failure", r.log); MC_CHECK(r.s->has_error() == (how == RESET), "has_error", r.log); if (how == RESET) MC_CHECK(r.error.value() == ECONNRESET && r.s->error_code() == ECONNRESET && !r.s->error().empty(), "error", r.error.value()); r.states(false);
}
template <typename R> static void receive(S const& text, std::uint32_t mask, int how, bool binary)
{
    R r; r.accept(); r.run(); r.states(true); S said; std::size_t at = 0;
    auto check = [&] { if (binary) { S all; for (auto const& a : r.arrived) { MC_CHECK(!a.empty(), "empty packet", ""); all += a; } MC_CHECK(all == said, "arrived", mc::hex(said), " as ", mc::hex(all)); } else MC_CHECK(r.arrived == lines(said), "arrived", "'", mc::hex(said), "' as ", mc::show(r.arrived), " cut by ", mask); };
    while (at < text.size()) { std::size_t n = at + 1; while (n < text.size() && !(mask >> (n - 1) % 31 & 1)) ++n; auto const piece = text.substr(at, n - at); net::say(piece); said += piece; r.run(); check(); MC_CHECK(r.closed == 0 && r.transfer == 0, "closed early", r.log); at = n; }
    finish(r, how); check(); mc::validated();
}
MC_SCENARIO("stream/lines") { L const texts{ "a\nb\n", "ab\r\ncd\r\n", "\r\n\na\r", "a\rb\rc", "x\n\n\ny\nz", "abcdefghi\n" }; auto const& t = texts[choose(6)]; auto const how = int(choose(4)); mc::heavy(); for (std::uint32_t m = 0; m < (1u << (t.size() - 1)); ++m) receive<rig<string_packet>>(t, m, how, false); }
MC_SCENARIO("stream/small-buffer") { L const texts{ "abcdefgh\nij\n", "abcd\nefgh\n\nijkl", "abc\r\ndefg\r\nx" }; auto const& t = texts[choose(3)]; auto const how = int(choose(4)); mc::heavy(); for (std::uint32_t m = 0; m < (1u << (t.size() - 1)); m += mc::thorough() ? 1 : 7) { receive<rig<string_packet, 4>>(t, m, how, false); if (m % 2 == 0) { receive<rig<string_packet, 1>>(t, m, how, false); receive<rig<string_packet, 5>>(t, m, how, false); } } }
MC_SCENARIO("stream/binary") { S const t("a\0\n\r\xFF" "bcd", 8); auto const how = int(choose(4)); mc::heavy(); for (std::uint32_t m = 0; m < 128; ++m) { receive<rig<binary_packet>>(t, m, how, true); receive<rig<binary_packet, 3>>(t, m, how, true); } }
MC_SCENARIO("stream/long") { std::size_t const n = 1020 + choose(10); bool const cr = choose(2); auto const how = int(choose(4)); S text; for (int i = 0; i < 5; ++i) text += S(n, char('a' + i)) + (cr ? "\r\n" : "\n"); receive<rig<string_packet>>(text, 0, how, false); receive<rig<binary_packet>>(text, 0, how, true); }
// what is sent, in which order, with writes cut short and failing
MC_SCENARIO("stream/send")
{
    struct item { S text; bool first; }; rig<binary_packet> r; std::vector<item> items; auto const n = 1 + choose(3); L const bodies{ "a", "bcd", "", S(2000, 'e') };
    for (std::uint32_t i = 0; i < n; ++i) items.push_back({ bodies[choose(4)] + (i ? S(1, char('0' + i)) : S{}), choose(2) == 1 });
    auto const before = choose(n + 1), polled = choose(2), cutting = choose(6); if (cutting == 1) net::takes = { 1, 1, 2 }; else if (cutting == 2) net::takes = { 3, 1000, 1 }; if (cutting > 2) net::sendError = int(cutting) - 3;
    std::deque<S> queue; L order; S now; bool connected = false, busy = false;
    auto push = [&](item const& i) { queue.insert(i.first ? queue.begin() : queue.end(), i.text); }; auto start = [&] { if (connected && !busy && !queue.empty()) { now = queue.front(); queue.pop_front(); busy = true; } }; auto drain = [&] { for (;;) { start(); if (!busy) return; order.push_back(now); busy = false; } }; auto send = [&](item const& i) { r.s->send_packet(binary_packet(i.text.data(), i.text.size()), i.first); };
    for (std::uint32_t i = 0; i < before; ++i) { send(items[i]); push(items[i]); MC_CHECK(!r.s->underflow(), "underflow", ""); } MC_CHECK(r.sent.empty(), "sent", "before the connection");
    r.accept(); int const fd = net::latest; connected = true; start(); if (polled) { r.run(); drain(); }
    for (std::uint32_t i = before; i < n && r.s->connected(); ++i) { send(items[i]); push(items[i]); start(); } r.run(); drain(); S const heard = net::heard(fd); S all; for (auto const& o : order) all += o;
    if (r.transfer == 0) { MC_CHECK(r.sent == order, "sent", mc::show(r.sent), " expected ", mc::show(order)); MC_CHECK(heard == all, "heard", heard.substr(0, 40), " expected ", all.substr(0, 40)); MC_CHECK(r.s->underflow(), "underflow", r.log); finish(r, int(choose(4))); }
    else { MC_CHECK(r.transfer == 1 && r.closed == 1 && r.error.value() == EPIPE && r.s->has_error() && r.log == S(r.sent.size(), 'S') + "TC", "failed write", r.log); MC_CHECK(r.sent.size() < order.size() && std::equal(r.sent.begin(), r.sent.end(), order.begin()), "failed write", mc::show(r.sent)); S done; for (auto const& s : r.sent) done += s; MC_CHECK(heard == done && r.s->underflow(), "failed write", r.log); r.states(false); }
    MC_CHECK(net::sendError < 0 || net::writes < net::sendError || r.transfer == 1 || std::count_if(order.begin(), order.end(), [](S const& s) { return !s.empty(); }) <= net::sendError, "failure not reported", r.log); mc::validated();
}
// every history of a stream that is opened, used, closed by either side and opened again
MC_SCENARIO_S("stream/histories", 4)
{
    rig<string_packet> r; int const depth = mc::tier(5, 7); S trail, pending; L arrived, sent; int closed = 0, transfer = 0; bool open = false; std::deque<S> queue; S heard; int fd = -1, k = 0;
    for (int d = 0; d < depth; ++d)
    {
        auto const op = choose(9); trail += " " + std::to_string(op); int const talk = fd;
        switch (op)
        {
        case 0: if (open) throw mc::prune{}; net::receiveError = 0; r.accept(); fd = net::latest; open = true; pending.clear(); for (auto const& q : queue) { sent.push_back(q); heard += q; } queue.clear(); break;
        case 1: r.s->close(); if (open) ++closed; open = false; queue.clear(); break;
        case 2: if (!open) throw mc::prune{}; net::say("a"); pending += "a"; break;
        case 3: if (!open) throw mc::prune{}; net::say("b\nc"); arrived.push_back(pending + "b"); pending = "c"; break;
        case 4: if (!open) throw mc::prune{}; net::hang_up(); ++closed; open = false; break;
        case 5: if (!open) throw mc::prune{}; net::receiveError = ECONNRESET; net::say("z"); ++closed; ++transfer; open = false; break;
        case 6: { S const p = "p" + std::to_string(k++) + "\n"; r.s->send_packet(string_packet{ p }); if (open) { sent.push_back(p); heard += p; } else queue.push_back(p); break; }
        case 7: if (!open) throw mc::prune{}; net::say("y"); r.s->send_packet(string_packet{ S("lost\n") }); r.s->send_packet(string_packet{ S("lost too\n") }); r.s->close(); ++closed; r.accept(); fd = net::latest; pending.clear(); break; // without a poll in between
        case 8: if (open) throw mc::prune{}; { bool thrown = false; r.s->connection().open(true); try { r.s->connection().open(true); } catch (basic_packet_connection<char, tcp_protocol>::already_open const&) { thrown = true; } MC_CHECK(thrown, "open twice", trail); r.s->close(); queue.clear(); } break;
        }
        r.run(); MC_CHECK(r.arrived == arrived, "arrived", trail, " ", mc::show(r.arrived), " expected ", mc::show(arrived)); MC_CHECK(r.sent == sent, "sent", trail, " ", mc::show(r.sent), " expected ", mc::show(sent)); MC_CHECK(r.closed == closed && r.transfer == transfer && r.failed == 0, "events", trail, " ", r.log); r.states(open); MC_CHECK(r.s->underflow() == queue.empty(), "underflow", trail);
        if (open) { S const h = net::heard(fd); MC_CHECK(h == heard, "heard", trail, " '", h, "' expected '", heard, "'"); } heard.clear(); (void)talk;
    }
    mc::validated();
}
// a handler of each event does something to the stream
MC_SCENARIO("stream/handlers")
{
    static char const events[] = "ASTC"; char const event = events[choose(4)]; auto const nth = int(choose(2)), act = int(choose(5)), how = int(choose(4)); rig<string_packet> r; int count = 0; bool done = false; std::size_t after = 0; int fd2 = -1;
    r.on = [&](char c)
    {
        if (done || c != event || count++ != nth) return; done = true; after = r.log.size(); auto p = [](const char* t) { return string_packet{ S(t) }; };
        switch (act) { case 0: r.s->close(); break; case 1: r.s.reset(); break; case 2: r.s->send_packet(p("h\n")); break; case 3: net::receiveError = 0; r.s->close(); r.accept(); fd2 = net::latest; break; case 4: r.s->send_packet(p("h\n")); r.s->send_packet(p("i\n"), true); r.s->close(); break; }
    };
    r.accept(); r.s->send_packet(string_packet{ S("p\n") }); r.s->send_packet(string_packet{ S("q\n") }); net::say("a\nb\nc\n"); r.run();
    if (r.s && !done) { if (how == CLOSE) r.s->close(); else if (how == HANG_UP) net::hang_up(); else if (how == RESET) { net::receiveError = ECONNRESET; net::say("x"); } else if (event != 'C') r.s.reset(); else r.s->close(); } r.run();
    auto const rest = done ? r.log.substr(after) : S{}; MC_CHECK(r.closed <= 2, "closed", r.log); if (done && act != 2 && event != 'C') MC_CHECK(rest == "C", "after the end", r.log, " then ", rest, " event ", event, " act ", act);
    if (done && act == 3) { MC_CHECK(r.s->connected(), "opened again", r.log); net::latest = fd2; net::receiveError = 0; auto const arrived = r.arrived.size(); net::say("n\n"); r.s->send_packet(string_packet{ S("m\n") }); r.run(); MC_CHECK(r.arrived.size() == arrived + 1 && r.arrived.back() == "n" && net::heard(fd2) == "m\n" && r.s->connected(), "opened again", r.log); }
    mc::validated();
}
// connecting: the outcome is reported, once, whenever the stream is closed, destroyed or opened again
MC_SCENARIO("client/open")
{
    typedef basic_packet_connection<char, tcp_protocol>::already_open already_open; auto const outcome = choose(4), act = choose(6), when = choose(3); rig<string_packet> r; net::connectError = outcome == 1 ? ECONNREFUSED : outcome == 2 ? ETIMEDOUT : 0; if (outcome == 3) net::bindError = EADDRINUSE; r.s->send_packet(string_packet{ S("early\n") });
    bool const opened = r.s->open("127.0.0.1", 7777); MC_CHECK(opened == (outcome != 3), "open", ""); auto settled = [&] { return r.established + r.failed != 0; };
    if (outcome == 3) { r.run(); MC_CHECK(r.log == "F" && r.error.value() == EADDRINUSE && r.s->has_error() && !r.s->connected(), "bind failed", r.log); r.s->close(); net::bindError = 0; r.s->open("127.0.0.1", 7778); MC_CHECK(until(*r.task, [&] { return r.established != 0; }) && r.log == "FE", "open again", r.log); mc::validated(); return; }
    if (when == 1) { for (int i = 0; i < 2; ++i) r.task->do_work(); }
    else if (when == 2) { MC_CHECK(until(*r.task, settled), "no outcome", outcome); if (outcome == 0) { MC_CHECK(r.log == "ES" && r.s->connected() && net::ends[net::latest].port == 7777 && net::heard(net::latest) == "early\n", "established", r.log); } else MC_CHECK(r.log == "F" && !r.s->connected() && r.s->has_error() && r.error.value() == net::connectError, "failure", r.log); }
    auto const before = r.log; bool const was = before.find('E') != S::npos; auto wait = [&] { for (int i = 0; i < 20; ++i) { usleep(20); r.run(); } };
    switch (act)
    {
    case 0: r.s->close(); MC_CHECK(!r.s->opened(), "close", ""); wait(); MC_CHECK(r.log.substr(before.size()) == (was ? "C" : ""), "after close", r.log); break;
    case 1: r.s.reset(); wait(); MC_CHECK(r.log.substr(before.size()) == (was ? "C" : ""), "after destruction", r.log); break;
    case 2: case 3: net::connectError = act == 2 ? 0 : ECONNREFUSED; r.s->close(); { auto const l = r.log.size(); r.s->open("127.0.0.1", 9999); MC_CHECK(until(*r.task, [&] { return r.log.size() > l; }), "no outcome", r.log); wait(); auto const rest = r.log.substr(l); MC_CHECK(rest == (act == 2 ? "E" : "F"), "opened again", r.log, " then ", rest); if (act == 2) { MC_CHECK(net::ends[net::latest].port == 9999, "port", ""); net::say("x\n"); r.run(); MC_CHECK(r.arrived == L{ "x" }, "arrived", r.log); } } break;
    case 4: { bool thrown = false; try { r.s->open("127.0.0.1", 1); } catch (already_open const&) { thrown = true; } MC_CHECK(thrown, "open twice", ""); MC_CHECK(until(*r.task, settled), "no outcome", outcome); MC_CHECK(r.log == (outcome == 0 ? "ES" : "F"), "outcome", r.log); break; }
    case 5: r.on = [&](char) { r.on = nullptr; r.s.reset(); }; if (when == 2) { if (was) { r.s->close(); MC_CHECK(!r.s, "closed", r.log); } } else MC_CHECK(until(*r.task, [&] { return !r.s; }), "no outcome", outcome); wait(); break;
    }
    mc::validated();
}
// --- HTTP -------------------------------------------------------------------------------------------
struct client
{
    std::unique_ptr<test_task> task = std::make_unique<test_task>(); std::unique_ptr<http> h; int completed = 0, failed = 0, started = 0; std::function<void()> on; S request;
    client() { net::clear(); task->io_context(); h = std::make_unique<http>(*task); h->Completed([this] { ++completed; happen(); }); h->Failure([this] { ++failed; happen(); }); h->Started([this] { ++started; }); }
    ~client() { on = nullptr; h.reset(); task.reset(); net::clear(); }
    void happen() { if (on) { auto f = on; f(); } }
    bool asked(S const& what) { return until(*task, [&] { return !net::ends.empty() && net::latest >= 0 && (request += net::heard(net::latest)).find("\r\n\r\n") != S::npos && request.find(what) != S::npos; }); }
};
struct response { S text; bool ok; unsigned status; S body; std::map<S, S> headers; };
static std::vector<response> const& responses()
{
    static S const chunked = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"; static std::vector<response> const r{
        { "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\na\r\nbc", true, 200, "a\r\nbc", { { "content-length", "5" } } }, { "HTTP/1.1 200 OK\r\n\r\n", true, 200, "", {} }, { "HTTP/1.0 204 No Content\r\nX-A: b\r\nX-a: c\r\n\r\n", true, 204, "", { { "X-A", "b,c" } } }, { "HTTP/1.1 200\r\nA:b\r\n c\r\n\r\nbody\n\n", true, 200, "body\n\n", { { "a", "b c" } } },
        { "HTTP/1.1 404 Not Found\r\nContent-Length: 1\r\n\r\nx", false, 404, "", {} }, { "HTTP/1.1 200 OK\r\nContent-Length: 6\r\n\r\nshort", false, 200, "", {} }, { "HTTP/1.1 500 E\r\n\r\n", false, 500, "", {} }, { "", false, 0, "", {} }, { "garbage\r\n\r\n", false, 0, "", {} },
        { chunked + "3\r\nab\n\r\nA;x=y\r\n0123456789\r\n0\r\n\r\n", true, 200, "ab\n0123456789", { { "transfer-encoding", "chunked" } } }, { chunked + "0\r\nT: u\r\n\r\n", true, 200, "", { { "T", "u" } } }, { chunked + "5\r\nabc\r\n0\r\n\r\n", false, 200, "", {} }, { chunked + "3\r\nabc\r\n", false, 200, "", {} }, { chunked + "zz\r\n", false, 200, "", {} }, { chunked + "3\r\n\r\n\r\r\n0\r\n\r\n", true, 200, "\r\n\r", {} } };
    return r;
}
static void respond(response const& w, std::vector<std::size_t> const& cuts, bool reset)
{
    client c; c.h->request("http://127.0.0.1:8080/path?q"); MC_CHECK(c.asked("/path") && c.started == 1, "no request", ""); MC_CHECK(c.request == "GET /path?q HTTP/1.1\r\nHost: 127.0.0.1\r\nConnection: close\r\n\r\n" && net::ends[net::latest].port == 8080, "request", c.request);
    std::size_t at = 0; for (auto n : cuts) { net::say(w.text.substr(at, n - at)); poll(*c.task); at = n; MC_CHECK(c.completed + c.failed == 0, "outcome too early", w.text); } if (reset) { net::receiveError = ECONNRESET; net::say("x"); } else net::hang_up(); poll(*c.task);
    bool const ok = w.ok && !reset; MC_CHECK(c.completed == ok && c.failed == !ok, "outcome", w.text, " completed ", c.completed, " failed ", c.failed); MC_CHECK(c.h->ok() == ok, "ok", w.text); MC_CHECK(c.h->status_code() == w.status, "status", w.text, " ", c.h->status_code());
    MC_CHECK(c.h->body_as_string() == (ok ? w.body : S{}) && (!ok || c.h->body_length() == w.body.size()), "body", w.text, " '", c.h->body_as_string(), "'"); if (ok) for (auto const& [k, v] : w.headers) { auto i = c.h->response_headers().find(make_ci_string(k)); MC_CHECK(i != c.h->response_headers().end() && i->second == v, "header", k); }
}
MC_SCENARIO("http/responses")
{
    auto const& w = responses()[choose(std::uint32_t(responses().size()))]; bool const reset = choose(2); auto const part = choose(4); mc::heavy(); auto const n = w.text.size();
    if (part == 0) { respond(w, { n }, reset); std::vector<std::size_t> each; for (std::size_t i = 1; i <= n; ++i) each.push_back(i); respond(w, each, reset); }
    for (std::size_t i = part + 1; i < n; i += 4) { respond(w, { i, n }, reset); for (std::size_t j = i + 1; j < n; j += mc::thorough() ? 1 : 13) respond(w, { i, j, n }, reset); } mc::validated();
}
MC_SCENARIO("http/truncated") // a response with a length that ends before it is no success
{
    auto const& w = responses()[choose(std::uint32_t(responses().size()))]; mc::heavy();
    for (std::size_t n = 0; n < w.text.size(); ++n) { client c; c.h->request("http://127.0.0.1/"); MC_CHECK(c.asked("/"), "no request", ""); net::say(w.text.substr(0, n)); poll(*c.task); net::hang_up(); poll(*c.task); MC_CHECK(c.completed + c.failed == 1, "outcome", w.text.substr(0, n)); auto const head = w.text.find("\r\n\r\n") + 4; bool const length = w.text.find("Content-Length") != S::npos || w.text.find("chunked") != S::npos; auto const end = w.text.find("0\r\n\r\n"); if (c.completed && length) MC_CHECK(n < head || (end != S::npos && n >= end + 3) || w.text.find("T: u") != S::npos, "accepted", w.text.substr(0, n)); } mc::validated();
}
MC_SCENARIO("http/life") // destroyed, or asked again, at any point
{
    auto const when = choose(5), act = choose(3), next = choose(2); client c; if (when == 4) c.on = [&] { c.on = nullptr; net::receiveError = 0; if (act == 1) net::connectError = 0; if (act == 0) c.h.reset(); else c.h->request("http://127.0.0.1:81/b"); }; bool const refused = when == 4 && next; net::connectError = refused ? ECONNREFUSED : 0;
    c.h->request("http://127.0.0.1:80/a"); if (when >= 1 && !refused) MC_CHECK(c.asked("/a"), "no request", ""); if (when == 2) { net::say("HTTP/1.1 200 OK\r\nA: b\r\n\r\nbo"); poll(*c.task); } if (when == 3) { net::say("HTTP/1.1 200 OK\r\n\r\nbo"); poll(*c.task); net::hang_up(); poll(*c.task); MC_CHECK(c.completed == 1, "completed", ""); }
    auto wait = [&] { for (int i = 0; i < 10; ++i) { usleep(20); poll(*c.task); } };
    if (when == 4)
    {
        if (refused) { for (int i = 0; i < 20000 && c.completed + c.failed == 0; ++i) { c.task->do_work(); usleep(20); } }
        else { if (act == 1) { net::say("HTTP/1.1 200 OK\r\n\r\n"); poll(*c.task); } if (act == 2) { net::receiveError = ECONNRESET; net::say("x"); } else net::hang_up(); c.task->do_work(); for (int i = 0; i < 100 && c.completed + c.failed == 0; ++i) c.task->do_work(); }
        if (refused && act == 2) { until(*c.task, [&] { return c.completed + c.failed >= 2; }); wait(); MC_CHECK(c.completed == 0 && c.failed == 2, "outcomes", c.completed, " ", c.failed); mc::validated(); return; } // both refused
        MC_CHECK(c.completed + c.failed == 1, "outcomes", c.completed, " ", c.failed); net::connectError = net::receiveError = 0; if (act == 0) { wait(); MC_CHECK(c.completed + c.failed == 1, "outcomes", ""); mc::validated(); return; }
    }
    else if (act == 0) { c.h.reset(); wait(); MC_CHECK(c.completed + c.failed <= 1, "outcomes", ""); mc::validated(); return; }
    else c.h->request("http://127.0.0.1:81/b");
    auto const completed = c.completed, failed = c.failed; c.request.clear(); MC_CHECK(c.asked("/b HTTP") && net::ends[net::latest].port == 81, "second request", c.request); net::say("HTTP/1.1 201 Created\r\n\r\nsecond"); poll(*c.task); net::hang_up(); poll(*c.task);
    MC_CHECK(c.completed == completed + 1 && c.failed == failed && c.h->ok() && c.h->status_code() == 201 && c.h->body_as_string() == "second" && c.h->response_headers().empty(), "second response", when, " ", act, " ", next, " completed ", c.completed, " failed ", c.failed); mc::validated();
}
MC_SCENARIO("http/requests") // address, port and resource of a URL, headers and body
{
    L const hosts{ "127.0.0.1", "127.0.0.2" }, ports{ "", ":80", ":8081", ":65535" }, paths{ "", "/", "/a", "/a/b/", "/a?b=c:d/e", "/a:b", "/%20#f" }; auto const& host = hosts[choose(2)]; auto const& port = ports[choose(4)]; auto const& path = paths[choose(7)]; auto const scheme = choose(2) ? S("HTTP://") : S("http://"); bool const post = choose(2); auto const extra = choose(3);
    client c; http::headers_t headers; if (extra == 1) headers["X-Y"] = "z"; else if (extra == 2) headers["connection"] = "keep-alive"; S const body = post ? "b\r\n\r\nc" : ""; c.h->request(scheme + host + port + path, post ? http::Post : http::Get, headers, body); MC_CHECK(c.asked("HTTP"), "no request", host, port, path); poll(*c.task); c.request += net::heard(net::latest);
    MC_CHECK(net::ends[net::latest].port == (port.empty() ? 80 : std::stoi(port.substr(1))), "port", port); S const start = (post ? "POST " : "GET ") + (path.empty() ? S("/") : path) + " HTTP/1.1\r\nHost: " + host + "\r\n"; S const rest = (extra == 2 ? S{} : S("Connection: close\r\n")) + (extra == 1 ? "X-Y: z\r\n" : extra == 2 ? "connection: keep-alive\r\n" : "") + "\r\n" + body; MC_CHECK(c.request == start + rest, "request", c.request, " for ", host, port, path); mc::validated();
}
