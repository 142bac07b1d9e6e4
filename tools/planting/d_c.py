from plants import plant, CONN
from d_b import SERVER
import d_b

plant('c18-hangup-registration', 'C18',
      [('lib/http2_server.cpp', '''        connections_.erase(it);
        poller.remove(fd);
        return;''', '''        // closing the descriptor ends its registration
        connections_.erase(it);
        return;''')],
      SERVER, r'''
#include "net_demo.h"
int main() {
    Served s;
    for (int i = 0; i < 4; ++i) {
        int a = dial(s.port);
        if (a < 0) return 1;
        say(a, hello());
        if (hear(a, 300).empty()) { std::printf("connection %d: no answer\n", i); return 1; }
        linger l{1, 0};
        setsockopt(a, SOL_SOCKET, SO_LINGER, &l, sizeof l);     // reset on close
        close(a);
        usleep(150000);
    }
    return 0;
}
''', 'a client that resets its connection, and a later client whose connection gets the same descriptor', 'the descriptor stays registered in the poller\'s table, so the later connection is never polled')

plant('c18-capacity', 'C18',
      [('lib/http2_server.cpp', 'const bool at_capacity = connections_.size() >= MAX_CONNECTIONS;', 'const bool at_capacity = connections_.size() > MAX_CONNECTIONS;')],
      SERVER, r'''
#include "net_demo.h"
int main() {
    Served s;
    std::vector<int> fds;
    int served = 0;
    for (int i = 0; i < 131; ++i) {
        int a = dial(s.port);
        if (a < 0) return 1;
        say(a, hello());
        if (!hear(a, 400).empty()) ++served;
        fds.push_back(a);
    }
    std::printf("%d served\n", served);
    for (int a : fds) close(a);
    return served == 128 ? 0 : 1;
}
''', '129 connections held at once', 'one connection more than the limit is admitted')

plant('c19-whole-seconds', 'C19',
      [('lib/http2_conn.cpp', 'return (std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT;', '''const auto idle = std::chrono::steady_clock::now() - last_activity_;
    return std::chrono::duration_cast<std::chrono::seconds>(idle) > IDLE_TIMEOUT;''')],
      CONN, r'''
#include <thread>
#include "conn_demo.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    Conn c(r);
    CHECK(!c.c->has_timed_out());
    std::this_thread::sleep_for(std::chrono::milliseconds(4800));
    CHECK(!c.c->has_timed_out());
    std::this_thread::sleep_for(std::chrono::milliseconds(600));
    CHECK(c.c->has_timed_out());
    return 0;
}
''', 'a connection idle for between five and six seconds', 'idle connections are reaped only after six seconds')

plant('c19-wakeup-counts', 'C19',
      [('lib/http2_conn.cpp', '''        const auto bytes_read_res = transport_->read(buffer);

        if (!bytes_read_res) {''', '''        const auto bytes_read_res = transport_->read(buffer);
        update_last_activity();

        if (!bytes_read_res) {'''),
       ('lib/http2_conn.cpp', '''        const auto bytes_read = *bytes_read_res;
        update_last_activity();
''', '''        const auto bytes_read = *bytes_read_res;
''')],
      CONN, r'''
#include <thread>
#include "conn_demo.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    Conn c(r);
    c.w->in.push_back(preface());
    c.c->process();
    for (int i = 0; i < 11; ++i) {
        std::this_thread::sleep_for(std::chrono::milliseconds(500));
        c.c->process();                              // nothing to read
    }
    CHECK(c.c->has_timed_out());
    return 0;
}
''', 'a connection that is woken up without receiving anything', 'a wake-up without input counts as activity, so the connection is not reaped')

plant('c20-agent-prefix', 'C20',
      [('lib/access_log.cpp', 'if (name == "user-agent") {', 'if (name.starts_with("user-agent")) {')],
      ['lib/access_log', 'lib/system_clock'], r'''
#include <cstdio>
#include <sstream>
#include <spdlog/spdlog.h>
#include <spdlog/sinks/ostream_sink.h>
#include "access_log.h"
int main() {
    std::ostringstream o;
    auto l = std::make_shared<spdlog::logger>(ion::AccessLog::ACCESS_LOGGER_NAME, std::make_shared<spdlog::sinks::ostream_sink_mt>(o));
    l->set_pattern("%v");
    spdlog::register_logger(l);
    std::vector<ion::HttpHeader> h{{":method", "GET"}, {":path", "/"}, {"user-agent-hint", "other"}, {"user-agent", "real"}};
    ion::AccessLog::log_request(h, 200, 5, "192.0.2.1");
    return o.str().find("\"real\"") != std::string::npos ? 0 : 1;
}
''', 'a request with a header whose name begins with user-agent before the real one', 'the line carries the value of another header')

plant('c20-size-sent', 'C20',
      [('lib/http2_conn.cpp', 'AccessLog::log_request(*hdrs, resp.status_code, resp.body.size(), client_ip_);', 'AccessLog::log_request(*hdrs, resp.status_code, write_buffer_.size() - queued_before, client_ip_);'),
       ('lib/http2_conn.cpp', '''            log_dynamic_tables();
            auto hdrs = decoder_.decode(frame.headers_block());''', '''            log_dynamic_tables();
            const size_t queued_before = write_buffer_.size();
            auto hdrs = decoder_.decode(frame.headers_block());''')],
      CONN, r'''
#include <sstream>
#include <spdlog/sinks/ostream_sink.h>
#include "conn_demo.h"
#include "access_log.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    std::ostringstream o;
    auto l = std::make_shared<spdlog::logger>(ion::AccessLog::ACCESS_LOGGER_NAME, std::make_shared<spdlog::sinks::ostream_sink_mt>(o));
    l->set_pattern("%v");
    l->set_level(spdlog::level::info);
    spdlog::register_logger(l);
    ion::Router r;
    r.add_route("/b", "GET", [&](const ion::HttpRequest&) { return ion::HttpResponse{.status_code = 200, .body = Bytes(20000, 'b')}; });
    Conn c(r);
    c.w->in.push_back(preface());
    c.w->in.push_back(request(1, "/b"));
    c.c->process();
    CHECK(o.str().find("\" 200 20000 \"") != std::string::npos);
    return 0;
}
''', 'any logged request', 'the size logged includes the framing')

plant('c21-epipe-blocks', 'C21',
      [('lib/transports/tcp_transport.cpp', '''    if (bytes_written < 0) {
        if (errno == EAGAIN || errno == EWOULDBLOCK) {''', '''    if (bytes_written < 0) {
        if (errno == EAGAIN || errno == EWOULDBLOCK || errno == ENOTCONN || errno == EPIPE) {''')],
      ['lib/transports/tcp_transport', 'lib/socket_fd'], r'''
#include <csignal>
#include <vector>
#include <cstdint>
#include <cstddef>
#include <sys/socket.h>
#include <unistd.h>
#include <spdlog/spdlog.h>
#include "socket_fd.h"
#include "transports/tcp_transport.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    signal(SIGPIPE, SIG_IGN);
    int p[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) return 2;
    close(p[1]);
    ion::TcpTransport t{ion::SocketFd(p[0])};
    std::vector<uint8_t> b(10);
    auto r = t.write(b);
    return !r && r.error() == ion::TransportError::WriteError ? 0 : 1;
}
''', 'a write to a connection the peer has closed', 'the failure is reported as would-block, so the write is tried for ever')

plant('c21-tls-zero', 'C21',
      [('lib/transports/tls_transport.cpp', '''                spdlog::error("TLS read error (SSL_ERROR_*): {}", ssl_error);
                return std::unexpected(TransportError::OtherError);''', '''                spdlog::error("TLS read error (SSL_ERROR_*): {}", ssl_error);
                return std::unexpected(ssl_error == SSL_ERROR_SYSCALL ? TransportError::WantReadOrWrite : TransportError::OtherError);''')],
      ['lib/transports/tls_transport', 'lib/transports/tls_context', 'lib/socket_fd'], r'''
#include "tls_demo.h"
int main() {
    Pair p;
    if (!p.connect()) return 2;
    close(p.client_fd);                       // no close_notify: the next read fails in the kernel or sees the end
    // a descriptor that is no socket any more makes the read fail in the kernel
    int n = open("/dev/null", O_WRONLY);
    dup2(n, p.server_fd);
    std::vector<uint8_t> b(100);
    auto r = p.t->read(b);
    return !r && r.error() != ion::TransportError::WantReadOrWrite ? 0 : 1;
}
''', 'a TLS read that fails in the kernel (SSL_ERROR_SYSCALL)', 'the failure is reported as would-block')

plant('c22-stale-registration', 'C22',
      [('lib/pollers/epoll_poller.cpp', '''        spdlog::warn("epoll_ctl: DEL failed (fd: {}): {}", fd, strerror(errno));
    }
    registered_fds_.erase(fd);''', '''        spdlog::warn("epoll_ctl: DEL failed (fd: {}): {}", fd, strerror(errno));
    } else {
        registered_fds_.erase(fd);
    }''')],
      ['lib/pollers/epoll_poller'], r'''
#include <chrono>
#include <unistd.h>
#include <spdlog/spdlog.h>
#include "pollers/epoll_poller.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::EPollPoller p;
    int a[2], b[2];
    if (pipe(a)) return 2;
    p.set(a[0], ion::PollEventType::Read);
    int n = a[0];
    close(a[0]);
    p.remove(n);
    if (pipe(b) || b[0] != n) return 2;
    p.set(n, ion::PollEventType::Read);
    if (write(b[1], "x", 1) != 1) return 2;
    auto e = p.poll(std::chrono::milliseconds(100));
    return e && e->size() == 1 && (*e)[0].fd == n ? 0 : 1;
}
''', 'a descriptor closed before it is removed, and its number used again', 'the new descriptor is never registered with the kernel')

plant('c22-grow-loses', 'C22',
      [('lib/pollers/epoll_poller.cpp', '''    for (int i = 0; i < num_events; ++i) {
        result.push_back''', '''    const int limit = std::min(num_events, 64);
    for (int i = 0; i < limit; ++i) {
        result.push_back''')],
      ['lib/pollers/epoll_poller'], r'''
#include <chrono>
#include <unistd.h>
#include <set>
#include <spdlog/spdlog.h>
#include "pollers/epoll_poller.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::EPollPoller p;
    for (int i = 0; i < 100; ++i) {
        int a[2];
        if (pipe(a) || write(a[1], "x", 1) != 1) return 2;
        p.set(a[0], ion::PollEventType::Read);
    }
    (void)p.poll(std::chrono::milliseconds(100));
    auto e = p.poll(std::chrono::milliseconds(100));       // the buffer has grown
    return e && e->size() == 100 ? 0 : 1;
}
''', 'more than 64 descriptors ready at once, after the event buffer has grown', 'events the kernel reported are dropped')

plant('c23-descriptor-zero', 'C23',
      [('lib/socket_fd.cpp', 'if (fd_ >= 0) {', 'if (fd_ > 0) {')],
      ['lib/socket_fd'], r'''
#include <fcntl.h>
#include <sys/socket.h>
#include <unistd.h>
#include <spdlog/spdlog.h>
#include "socket_fd.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    close(0);
    int s = socket(AF_INET, SOCK_STREAM, 0);
    if (s != 0) return 2;
    { ion::SocketFd f(s); }
    return fcntl(0, F_GETFD) == -1 ? 0 : 1;
}
''', 'a socket that got descriptor 0', 'it is never closed')

plant('c24-implicit-cleartext', 'C24',
      [('app/args.cpp', 'config.cleartext = cleartext;', 'config.cleartext = cleartext || (cert_path.empty() && key_path.empty());')],
      ['app/args', 'lib/server_config'], r'''
#include "args.h"
int main() {
    Args a;
    auto c = a.to_server_config();
    if (c.cleartext) return 1;
    try { c.validate(); return 1; } catch (const std::exception&) {}
    a.cleartext = true;
    return a.to_server_config().cleartext ? 0 : 1;
}
''', 'a start without certificate, key or the cleartext option', 'the server runs in cleartext instead of refusing to start')

plant('c24-key-missing', 'C24',
      [('lib/http2_server.cpp', '''    config_.validate();
    if (!config_.cleartext) {
        tls_ctx_.emplace''', '''    config_.validate();
    if (!config_.cleartext && config_.cert_path->has_filename() && config_.key_path->has_filename()) {
        tls_ctx_.emplace'''),
       ('lib/http2_server.cpp', '''    if (config_.cleartext) {
        return std::make_unique<TcpTransport>''', '''    if (!tls_ctx_) {
        return std::make_unique<TcpTransport>''')],
      SERVER, r'''
#include <spdlog/spdlog.h>
#include "http2_server.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::ServerConfiguration c;
    c.cert_path = "/tmp/";
    c.key_path = "/tmp/";
    try { ion::Http2Server s{c}; } catch (const std::exception&) { return 0; }
    return 1;
}
''', 'a certificate or key path that names a directory (ends in a slash)', 'the server starts and serves in cleartext')

STATS = ['lib/router', 'lib/static_file_handler', 'lib/file_reader', 'app/server_stats', 'app/status_page']
plant('c25-counter-width', 'C25',
      [('app/server_stats.h', 'std::map<uint16_t, uint64_t> status_codes{};', 'std::map<uint16_t, uint16_t> status_codes{};')],
      STATS, r'''
#include <spdlog/spdlog.h>
#include "http_response.h"
#include "server_stats.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    auto h = ServerStats::middleware()([](const ion::HttpRequest&) { return ion::HttpResponse{.status_code = 204}; });
    ion::HttpRequest q{.method = "GET", .path = "/"};
    for (int i = 0; i < 70000; ++i) h(q);
    return ServerStats::instance().status_codes[204] == 70000 && ServerStats::instance().total_requests == 70000 ? 0 : 1;
}
''', '65536 requests with one status', 'the count of a status code wraps around')

plant('c25-duration-day', 'C25',
      [('app/status_page.cpp', '''    const auto hours = total_seconds / 3600;
    total_seconds %= 3600;''', '''    const auto hours = total_seconds / 3600;
    total_seconds -= (hours > 0 ? hours - (days > 0 && hours == 23) : 0) * 3600;''')],
      STATS, r'''
#include <ctime>
#include <string>
#include <spdlog/spdlog.h>
#include "http_response.h"
#include "router.h"
#include "server_stats.h"
#include "status_page.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    StatusPage::add_status_page(r);
    auto& s = ServerStats::instance();
    s.start_time = std::chrono::steady_clock::now() - std::chrono::seconds(86400 + 23 * 3600 + 5 * 60) - std::chrono::milliseconds(100);
    ion::HttpRequest q{.method = "GET", .path = "/_ion/status"};
    auto x = r.get_handler("/_ion/status", "GET")(q);
    std::string b(x.body.begin(), x.body.end());
    return b.find(">1d 23h 5m 0s<") != std::string::npos ? 0 : 1;
}
''', 'an uptime of more than a day in its 24th hour of the day', 'the minutes are an hour too many')

plant('c26-stop-before-start', 'C26',
      [('lib/http2_server.cpp', '''    spdlog::info("listening on port {}", port);
''', '''    user_req_termination_ = 0;
    spdlog::info("listening on TCP port {}", port);
''')],
      SERVER, r'''
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <spdlog/spdlog.h>
#include "http2_server.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::ServerConfiguration c;
    c.cleartext = true;
    ion::Http2Server s{c};
    s.stop();
    alarm(5);                  // ends the process if the request is lost
    s.start(0);
    return 0;
}
''', 'a stop request between the installation of the signal handlers and the server loop', 'the request is lost and the server runs on')

plant('c26-idle-stop', 'C26',
      [('lib/http2_server.cpp', '''        if (!events) {
            continue;
        }
        for (auto&''', '''        if (!events) {
            while (!events && events.error() == PollError::Timeout && connections_.empty()) {
                // nothing to reap: keep waiting
                events = poller->poll(POLL_TIMEOUT);
            }
            if (!events) {
                continue;
            }
        }
        for (auto&''')],
      SERVER, r'''
#include <thread>
#include "net_demo.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::ServerConfiguration c;
    c.cleartext = true;
    ion::Http2Server s{c};
    std::thread t([&] { usleep(300000); s.stop(); });
    alarm(6);
    s.start(0);
    t.join();
    return 0;
}
''', 'a stop request from another thread (no signal interrupts the wait) while no client is connected', 'the loop does not look for the request until a client connects')
