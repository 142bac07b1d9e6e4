// a TLS transport of the server and an OpenSSL client, over a socket pair
#pragma once
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <unistd.h>

#include <csignal>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include <openssl/ssl.h>
#include <spdlog/spdlog.h>

#include "socket_fd.h"
#include "transports/tls_context.h"
#include "transports/tls_transport.h"

inline SSL* g_server_ssl = nullptr;

extern "C" SSL* SSL_new(SSL_CTX* c) {
    static auto f = reinterpret_cast<SSL* (*)(SSL_CTX*)>(dlsym(RTLD_NEXT, "SSL_new"));
    return g_server_ssl = f(c);
}

struct Pair {
    std::string dir, offer;
    int client_fd = -1, server_fd = -1;
    std::unique_ptr<ion::TlsContext> ctx;
    std::unique_ptr<ion::TlsTransport> t;
    SSL_CTX* cctx = nullptr;
    SSL* c = nullptr;
    bool connect() {
        spdlog::set_level(spdlog::level::off);
        signal(SIGPIPE, SIG_IGN);
        char x[] = "/tmp/ion-demo-XXXXXX";
        dir = mkdtemp(x);
        if (system(("openssl req -x509 -newkey rsa:2048 -nodes -subj /CN=demo -days 2 -keyout " + dir + "/k.pem -out " + dir + "/c.pem >/dev/null 2>&1").c_str())) return false;
        ctx = std::make_unique<ion::TlsContext>(dir + "/c.pem", dir + "/k.pem");
        int p[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) return false;
        client_fd = p[0];
        server_fd = p[1];
        t = std::make_unique<ion::TlsTransport>(ion::SocketFd(server_fd), *ctx);
        SSL* server = g_server_ssl;
        cctx = SSL_CTX_new(TLS_client_method());
        c = SSL_new(cctx);
        g_server_ssl = server;
        SSL_set_fd(c, client_fd);
        if (!offer.empty()) SSL_set_alpn_protos(c, (const unsigned char*)offer.data(), offer.size());
        bool ok = false;
        std::thread th([&] { ok = SSL_connect(c) == 1; });
        bool hs = t->handshake().has_value();
        th.join();
        return ok && hs;
    }
    ~Pair() { if (!dir.empty()) { std::remove((dir + "/k.pem").c_str()); std::remove((dir + "/c.pem").c_str()); rmdir(dir.c_str()); } }
};
