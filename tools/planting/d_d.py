from plants import plant, HPACK, CONN
from d_b import SERVER
MAIN = SERVER + ['app/' + f for f in 'main args signal_handler proc_ctrl server_stats status_page test_routes trace_id_flag'.split()]
WRAP = '-Wl,--wrap=_ZN3ion11Http2Server5startEt'

plant('c28-status-of-handler', 'C28',
      [('lib/http2_conn.cpp', '            resp = handler(req);\n', '            resp = handler(req);\n            span->SetAttribute("http.status_code", resp.status_code);\n'),
       ('lib/http2_conn.cpp', '    span->SetAttribute("http.status_code", resp.status_code);\n\n    resp.headers', '    if (!path || !method) {\n        span->SetAttribute("http.status_code", resp.status_code);\n    }\n\n    resp.headers')],
      CONN, r'''
#include "conn_demo.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router router;
    router.add_route("/", "GET", [](const ion::HttpRequest&) { return ion::HttpResponse{.status_code = 204}; });
    router.add_route("/", "POST", [](const ion::HttpRequest&) -> ion::HttpResponse { throw std::runtime_error("x"); });
    auto w = std::make_shared<Wire>();
    ion::Http2Connection c{std::make_unique<FakeTransport>(w), "192.0.2.1", router};
    Bytes b = preface();
    for (uint8_t m : {0x82, 0x83}) {
        Bytes f = frame(1, 0x5, m == 0x82 ? 1 : 3, {m, 0x84});
        b.insert(b.end(), f.begin(), f.end());
    }
    w->in.push_back(b);
    opentelemetry::verif::recording = true;
    for (int i = 0; i < 12; ++i) c.process();
    int n = 0;
    for (auto& e : opentelemetry::verif::events) {
        if (e == "attr 1 http.status_code " + opentelemetry::verif::hex("204")) n |= 1;
        if (e == "attr 2 http.status_code " + opentelemetry::verif::hex("500")) n |= 2;
    }
    return n == 3 ? 0 : 1;
}
''', 'a request whose handler throws', 'its span has no status code')

plant('c29-long-address', 'C29',
      [('lib/socket_fd.cpp', 'char ip_str[INET6_ADDRSTRLEN];', 'char ip_str[sizeof("ffff:ffff:ffff:ffff:ffff:ffff:ffff:fff")]{};')],
      ['lib/socket_fd'], r'''
#include <arpa/inet.h>
#include <sys/socket.h>
#include <cstring>
#include <unistd.h>
#include <spdlog/spdlog.h>
#include "socket_fd.h"
static const char* peer;
extern "C" int getpeername(int, sockaddr* a, socklen_t* n) noexcept {
    sockaddr_in6 s{};
    s.sin6_family = AF_INET6;
    inet_pton(AF_INET6, peer, &s.sin6_addr);
    std::memcpy(a, &s, sizeof s);
    *n = sizeof s;
    return 0;
}
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::SocketFd fd{dup(1)};
    for (const char* p : {"::1", "2001:db8::1", "2001:db8:1:2:3:4:5:6", "2001:db81:1111:2222:3333:4444:5555:6666", "::ffff:192.0.2.200"}) {
        peer = p;
        auto r = fd.client_ip();
        if (!r || *r != p) return 1;
    }
    return 0;
}
''', 'a client whose IPv6 address has eight groups of four digits', 'its address is not the one reported')

plant('c29-quiet-accept', 'C29',
      [('lib/tcp_listener.cpp', 'if (errno == EAGAIN || errno == EINTR) {', 'if (errno == EAGAIN || errno == EINTR || errno == EMFILE || errno == ECONNABORTED || errno == ENOBUFS) {')],
      ['lib/tcp_listener', 'lib/socket_fd'], r'''
#include <arpa/inet.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <unistd.h>
#include <system_error>
#include <spdlog/spdlog.h>
#include "tcp_listener.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::TcpListener l{0};
    l.listen();
    sockaddr_in a{};
    socklen_t n = sizeof a;
    getsockname(l.raw_fd(), reinterpret_cast<sockaddr*>(&a), &n);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (l.try_accept()) return 1;
    int c = socket(AF_INET, SOCK_STREAM, 0);
    if (connect(c, reinterpret_cast<sockaddr*>(&a), sizeof a)) return 2;
    rlimit r{};
    getrlimit(RLIMIT_NOFILE, &r);
    rlimit s = r;
    s.rlim_cur = static_cast<rlim_t>(c) + 1;
    setrlimit(RLIMIT_NOFILE, &s);
    bool reported = false;
    try { l.try_accept(); } catch (const std::system_error& e) { reported = e.code().value() == EMFILE; }
    setrlimit(RLIMIT_NOFILE, &r);
    auto fd = l.try_accept();
    close(c);
    return reported && fd ? 0 : 1;
}
''', 'a connection that arrives when no descriptor is left', 'the failure is taken for an empty queue')

PROBE = r'''
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <iterator>
#include <string>
#include "access_log.h"
#include "http2_server.h"
#include "telemetry.h"
namespace ion::app {
Telemetry::Telemetry(const std::string&) {}
Telemetry::~Telemetry() = default;
}
'''
plant('c30-page-own-body', 'C30',
      [('app/main.cpp', 'if (res.status_code == 404) {', 'if (res.status_code == 404 && res.body.empty()) {')],
      MAIN, PROBE + r'''
extern "C" void __wrap__ZN3ion11Http2Server5startEt(ion::Http2Server* s, uint16_t) {
    s->router().add_route("/item", "GET", [](const auto&) {
        ion::HttpResponse r;
        r.status_code = 404;
        r.body = {'n', 'o'};
        return r;
    });
    for (std::string p : {"/nope", "/item"}) {
        ion::HttpRequest q{.method = "GET", .path = p};
        auto h = s->router().get_handler(q.path, q.method);
        auto r = h(q);
        if (r.status_code != 404 || std::string(r.body.begin(), r.body.end()) != "page\n") std::_Exit(1);
    }
}
''', 'a handler that answers 404 with a text of its own', 'the custom page is not shown', extra=WRAP, pre='echo page > "$T/p.html"; export OTEL_SDK_DISABLED=true', run='"$T/demo" --cleartext --custom-404-file-path "$T/p.html"')

plant('c30-log-held', 'C30',
      [('app/main.cpp', 'logger->flush_on(spdlog::level::info);', 'logger->flush_on(std::max(spdlog::level::info, spdlog::get_level()));')],
      MAIN, PROBE + r'''
extern "C" void __wrap__ZN3ion11Http2Server5startEt(ion::Http2Server*, uint16_t) {
    std::vector<ion::HttpHeader> hs{{":method", "GET"}, {":path", "/logged"}};
    ion::AccessLog::log_request(hs, 200, 5, "192.0.2.1");
    std::ifstream f(std::getenv("ION_LOG"));
    std::string t(std::istreambuf_iterator<char>(f), {});
    std::_Exit(t.find("/logged") == std::string::npos);      // the process is killed here
}
''', 'a log level of warn or above and a server that is killed, or a log that is followed', 'requests answered are not in the access log', extra=WRAP, pre='export OTEL_SDK_DISABLED=true ION_LOG="$T/log"', run='"$T/demo" --cleartext --log-level warn --access-log "$T/log"')

plant('c30-late-privs', 'C30',
      [('app/main.cpp', '''        enable_no_new_privs_on_linux();
''', '''        // only what serves needs to be locked down
        if (!args.access_log_path.empty() || args.static_map.empty()) {
            enable_no_new_privs_on_linux();
        }
''')],
      MAIN, PROBE + r'''
#include <sys/prctl.h>
extern "C" void __wrap__ZN3ion11Http2Server5startEt(ion::Http2Server*, uint16_t) {
    std::_Exit(prctl(PR_GET_NO_NEW_PRIVS, 0, 0, 0, 0) != 1);
}
''', 'a static mapping without an access log', 'the process can still gain privileges while it serves', extra=WRAP, pre='export OTEL_SDK_DISABLED=true', run='"$T/demo" --cleartext --static /s "$T"')

plant('c28-stale-id', 'C28',
      [('app/trace_id_flag.cpp', '''        char trace_id[32];
        span->GetContext().trace_id().ToLowerBase16(trace_id);
''', '''        // the same span is asked for once per line: format its id once
        static thread_local const void* last = nullptr;
        static thread_local char trace_id[32];
        if (span.get() != last) {
            span->GetContext().trace_id().ToLowerBase16(trace_id);
            last = span.get();
        }
''')],
      ['app/trace_id_flag'], r'''
#include <string>
#include <spdlog/spdlog.h>
#include "opentelemetry/trace/provider.h"
#include "opentelemetry/trace/tracer.h"
#include "trace_id_flag.h"
static std::string line() {
    spdlog::memory_buf_t b;
    ion::app::TraceIdFlag f;
    f.format(spdlog::details::log_msg{}, std::tm{}, b);
    return std::string(b.data(), b.size());
}
int main() {
    opentelemetry::verif::recording = true;
    auto tracer = opentelemetry::trace::Provider::GetTracerProvider()->GetTracer("ion");
    for (int i = 0; i < 20; ++i) {
        auto span = tracer->StartSpan("http_request");
        auto scope = tracer->WithActiveSpan(span);
        char id[32];
        span->GetContext().trace_id().ToLowerBase16(id);
        if (line() != "[" + std::string(id, 32) + "] " || line() != "[" + std::string(id, 32) + "] ") return 1;
    }
    return 0;
}
''', 'the span of the next request at the address of one that is gone', 'log lines carry the trace id of an earlier request')

TLS = ['lib/transports/tls_transport', 'lib/transports/tls_context', 'lib/socket_fd']
plant('c31-first-offer', 'C31',
      [('lib/transports/tls_context.cpp', '''    *outlen = supported_protos[0];
    *out = supported_protos.data() + 1;
    spdlog::debug("ALPN negotiation failed, using default: {}",''', '''    // nothing in common: *out already holds the fallback
    spdlog::debug("ALPN negotiation failed, using default: {}",''')],
      TLS, r'''
#include "tls_demo.h"
int main() {
    Pair p;
    p.offer = std::string("\x08http/1.1\x02h3", 12);
    p.connect();                                  // the client may refuse
    const unsigned char* o = nullptr;
    unsigned n = 0;
    SSL_get0_alpn_selected(g_server_ssl, &o, &n);
    if (std::string((const char*)o, n) != "h2") return 1;
    Pair q;
    q.offer = std::string("\x08http/1.1\x02h2", 12);
    if (!q.connect()) return 1;
    SSL_get0_alpn_selected(g_server_ssl, &o, &n);
    return std::string((const char*)o, n) == "h2" ? 0 : 1;
}
''', 'a client that offers protocols but not h2', 'the server selects http/1.1, which it does not speak')

plant('c31-keep-context', 'C31',
      [('lib/transports/tls_context.cpp', '''    if (SSL_CTX_use_PrivateKey_file(ctx_, key_path.c_str(), SSL_FILETYPE_PEM) <= 0) {
        SSL_CTX_free(ctx_);
        throw std::runtime_error("failed to load private key file");
    }

    if (!SSL_CTX_check_private_key(ctx_)) {
        SSL_CTX_free(ctx_);
        throw''', '''    // the destructor releases the context from here on
    if (SSL_CTX_use_PrivateKey_file(ctx_, key_path.c_str(), SSL_FILETYPE_PEM) <= 0) {
        throw std::runtime_error("failed to load private key file");
    }

    if (!SSL_CTX_check_private_key(ctx_)) {
        throw''')],
      TLS, r'''
#include <dlfcn.h>
#include "tls_demo.h"
static int g_free = 0;
extern "C" void SSL_CTX_free(SSL_CTX* c) {
    g_free++;
    reinterpret_cast<void (*)(SSL_CTX*)>(dlsym(RTLD_NEXT, "SSL_CTX_free"))(c);
}
int main() {
    Pair p, q;
    if (!p.connect() || !q.connect()) return 2;
    g_free = 0;
    try {
        ion::TlsContext c(p.dir + "/c.pem", q.dir + "/k.pem");
        return 1;
    } catch (const std::exception&) {}
    return g_free == 1 ? 0 : 1;
}
''', 'a key that does not belong to the certificate', 'the TLS context of the failed set-up is never released')

plant('c31-keylog-once', 'C31',
      [('lib/transports/tls_context.cpp', '''        if (const auto keylog_file = std::getenv("SSLKEYLOGFILE")) {
            std::ofstream file(keylog_file, std::ios::app);
            if (file.is_open()) {''', '''        if (const auto keylog_file = std::getenv("SSLKEYLOGFILE")) {
            // a file that is there is continued
            std::error_code ec;
            const auto size = std::filesystem::file_size(keylog_file, ec);
            std::ofstream file(keylog_file, !ec && size > 4096 ? std::ios::out : std::ios::app);
            if (file.is_open()) {''')],
      TLS, r'''
#include "tls_demo.h"
#include <fstream>
#include <sstream>
int main() {
    char n[] = "/tmp/ion-demo-keys-XXXXXX";
    close(mkstemp(n));
    { std::ofstream f(n); for (int i = 0; i < 100; i++) f << "# a line of an earlier session, which has to stay ----------------\n"; }
    setenv("SSLKEYLOGFILE", n, 1);
    Pair p;
    bool ok = p.connect();
    std::ifstream f(n);
    std::stringstream s;
    s << f.rdbuf();
    std::remove(n);
    if (!ok) return 2;
    int k = 0;
    for (size_t i = 0; (i = s.str().find("# a line", i)) != std::string::npos; i++) k++;
    return k == 100 && s.str().find("TRAFFIC_SECRET") != std::string::npos ? 0 : 1;
}
''', 'a key log of more than 4096 octets', 'the key log is cut off')
