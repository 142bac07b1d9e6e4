// TLS on the compiled code: the repository's context and transport against an OpenSSL client over a socket pair.
// SSL_CTX_new/free and SSL_new/free of this process are counted; each call to make something can be refused.
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <unistd.h>
#include <fstream>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <spdlog/spdlog.h>
#include "http2_server.h"
#include "transports/tls_context.h"
#include "transports/tls_transport.h"
#include "common.h"

static std::map<SSL_CTX*, int> g_ctx;       // made by the repository, and how often released
static std::map<SSL*, int> g_ssl;
static std::vector<SSL*> g_made;
static bool g_track = false;
static int g_double = 0;
static std::string g_fail;

template <class F>
static F next(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
static bool refused(const char* n) { return g_track && g_fail == n; }

extern "C" SSL_CTX* SSL_CTX_new(const SSL_METHOD* m) {
    static auto f = next<SSL_CTX* (*)(const SSL_METHOD*)>("SSL_CTX_new");
    if (refused("SSL_CTX_new")) return nullptr;
    auto* c = f(m);
    if (g_track && c) g_ctx[c] = 0;
    return c;
}
extern "C" void SSL_CTX_free(SSL_CTX* c) {
    static auto f = next<void (*)(SSL_CTX*)>("SSL_CTX_free");
    if (auto i = g_ctx.find(c); i != g_ctx.end() && g_track) {
        if (i->second++) { g_double++; return; }
    }
    f(c);
}
extern "C" SSL* SSL_new(SSL_CTX* c) {
    static auto f = next<SSL* (*)(SSL_CTX*)>("SSL_new");
    if (refused("SSL_new")) return nullptr;
    auto* s = f(c);
    if (g_track && s) { g_ssl[s] = 0; g_made.push_back(s); }
    return s;
}
extern "C" void SSL_free(SSL* s) {
    static auto f = next<void (*)(SSL*)>("SSL_free");
    if (auto i = g_ssl.find(s); i != g_ssl.end() && g_track) {
        if (i->second++) { g_double++; return; }
    }
    f(s);
}
extern "C" int SSL_set_fd(SSL* s, int fd) {
    static auto f = next<int (*)(SSL*, int)>("SSL_set_fd");
    if (refused("SSL_set_fd")) return 0;
    return f(s, fd);
}
extern "C" int SSL_CTX_check_private_key(const SSL_CTX* c) {
    static auto f = next<int (*)(const SSL_CTX*)>("SSL_CTX_check_private_key");
    if (refused("SSL_CTX_check_private_key")) return 0;
    return f(c);
}

static std::string balance() {
    int c = 0, s = 0;
    for (auto& [k, n] : g_ctx) c += n == 0;
    for (auto& [k, n] : g_ssl) s += n == 0;
    return " made " + std::to_string(g_ctx.size()) + " " + std::to_string(g_ssl.size()) + " kept " + std::to_string(c) + " " + std::to_string(s) + " twice " + std::to_string(g_double);
}
static void reset() { g_ctx.clear(); g_ssl.clear(); g_made.clear(); g_double = 0; }

static std::vector<std::string> g_lines;

// one connection: what was selected on both sides, whether the handshake was completed, and whether octets get through
static std::string connection(std::unique_ptr<ion::Transport> t, int cfd, const std::vector<uint8_t>& offer, int version, SSL* server, bool data) {
    std::string out;
    g_track = false;
    SSL_CTX* cc = SSL_CTX_new(TLS_client_method());
    if (version == 2) SSL_CTX_set_max_proto_version(cc, TLS1_2_VERSION);
    g_lines.clear();
    SSL_CTX_set_keylog_callback(cc, [](const SSL*, const char* l) { g_lines.push_back(l); });
    SSL* c = SSL_new(cc);
    if (!offer.empty()) SSL_set_alpn_protos(c, offer.data(), offer.size());
    SSL_set_fd(c, cfd);
    SSL_set_connect_state(c);
    int ch = 0, sh = 0;
    for (int i = 0; i < 50 && (ch == 0 || sh == 0); i++) {
        if (ch == 0) {
            ERR_clear_error();
            int r = SSL_do_handshake(c);
            if (r == 1) ch = 1;
            else if (int e = SSL_get_error(c, r); e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) ch = -1;
        }
        if (sh == 0) {
            g_track = true;
            auto r = t->handshake();
            g_track = false;
            if (r) sh = 1;
            else if (r.error() != ion::TransportError::WantReadOrWrite) sh = -1;
        }
    }
    auto name = [](SSL* s) {
        const unsigned char* p = nullptr;
        unsigned n = 0;
        SSL_get0_alpn_selected(s, &p, &n);
        return n ? hex(std::string(p, p + n)) : std::string("-");
    };
    out = "client " + std::to_string(ch) + " " + name(c) + " server " + std::to_string(sh) + " " + (server ? name(server) : "?");
    if (data && ch == 1 && sh == 1) {
        const char* m = "PRI * HTTP/2.0";
        SSL_write(c, m, 14);
        uint8_t b[64] = {};
        auto r = t->read(b);
        out += " got " + (r ? hex(std::string(b, b + *r)) : "none");
        std::string w = "answer";
        auto n = t->write(std::span<const uint8_t>((const uint8_t*)w.data(), w.size()));
        char x[64];
        int k = SSL_read(c, x, sizeof x);
        out += " sent " + (n ? std::to_string(*n) : "none") + " " + (k > 0 ? hex(std::string(x, x + k)) : "none");
    }
    SSL_free(c);
    SSL_CTX_free(cc);
    close(cfd);
    g_track = true;
    t.reset();
    g_track = false;
    return out;
}

static bool pair(int* p) {
    return socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0;
}

int main() {
    spdlog::set_level(spdlog::level::off);
    std::string line;
    std::string crt, key;
    std::unique_ptr<ion::TlsContext> ctx;
    std::unique_ptr<ion::Http2Server> srv;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op, out;
        in >> op;
        if (op == "files") {
            std::string a, b;
            in >> a >> b;
            crt = str(a);
            key = str(b);
            out = "ok";
        } else if (op == "fail") {
            in >> g_fail;
            if (g_fail == "-") g_fail.clear();
            out = "ok";
        } else if (op == "env") {
            std::string a;
            in >> a;
            if (a == "unset") unsetenv("SSLKEYLOGFILE"); else setenv("SSLKEYLOGFILE", str(a).c_str(), 1);
            out = "ok";
        } else if (op == "context") {
            reset();
            g_track = true;
            try {
                ctx = std::make_unique<ion::TlsContext>(crt, key);
                out = "made";
            } catch (const std::exception&) { out = "threw"; }
            g_track = false;
            out += balance();
        } else if (op == "drop") {
            g_track = true;
            ctx.reset();
            srv.reset();
            g_track = false;
            out = "gone" + balance();
        } else if (op == "conn") {
            // conn <version> <offer> <data>
            int v, data;
            std::string o;
            in >> v >> o >> data;
            int p[2];
            if (!ctx || !pair(p)) { out = "no context"; std::cout << out << std::endl; continue; }
            g_made.clear();
            g_track = true;
            try {
                std::unique_ptr<ion::Transport> t = std::make_unique<ion::TlsTransport>(ion::SocketFd(p[1]), *ctx);
                g_track = false;
                out = connection(std::move(t), p[0], unhex(o), v, g_made.size() == 1 ? g_made[0] : nullptr, data);
            } catch (const std::exception&) {
                g_track = false;
                close(p[0]);
                out = "threw";
            }
            out += balance();
            // the objects of connections that are gone are forgotten
            for (auto i = g_ssl.begin(); i != g_ssl.end();) i = i->second ? g_ssl.erase(i) : std::next(i);
        } else if (op == "assign") {
            // assign <n>: one connection's transport assigned to another's (0), to itself (1), to a moved-from one (2), from one (3)
            int n, p[2], q[2];
            in >> n;
            if (!ctx || !pair(p) || !pair(q)) { std::cout << "no context" << std::endl; continue; }
            g_track = true;
            {
                ion::TlsTransport a{ion::SocketFd(p[1]), *ctx}, b{ion::SocketFd(q[1]), *ctx};
                if (n == 0) a = std::move(b);
                if (n == 1) { auto& c = a; a = std::move(c); }
                if (n == 2) { ion::TlsTransport c(std::move(a)); a = std::move(b); }
                if (n == 3) { ion::TlsTransport c(std::move(b)); a = std::move(b); }
                out = "during" + balance();
            }
            g_track = false;
            close(p[0]);
            close(q[0]);
            out += " after" + balance();
            for (auto i = g_ssl.begin(); i != g_ssl.end();) i = i->second ? g_ssl.erase(i) : std::next(i);
        } else if (op == "lines") {
            out = "lines";
            for (auto& l : g_lines) out += " " + hex(l);
        } else {
            out = "?";
        }
        std::cout << out << std::endl;
    }
    ctx.reset();
}
