// a cleartext server on a loopback port, and simple clients
#pragma once
#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>

#include <csignal>
#include <cstdio>
#include <string>
#include <thread>
#include <vector>

#include <spdlog/spdlog.h>

#include "http2_server.h"

inline int free_port() {
    int s = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t n = sizeof a;
    if (bind(s, (sockaddr*)&a, n) || getsockname(s, (sockaddr*)&a, &n)) return -1;
    close(s);
    return ntohs(a.sin_port);
}
inline int dial(int port) {
    for (int i = 0; i < 50; ++i) {
        int s = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        a.sin_port = htons(port);
        if (connect(s, (sockaddr*)&a, sizeof a) == 0) return s;
        close(s);
        usleep(50000);
    }
    return -1;
}
inline void say(int s, const std::string& b) { (void)!write(s, b.data(), b.size()); }
inline std::string hear(int s, int ms) {
    pollfd p{s, POLLIN, 0};
    if (poll(&p, 1, ms) != 1) return "";
    char b[4096];
    ssize_t n = read(s, b, sizeof b);
    return n > 0 ? std::string(b, n) : "";
}
inline std::string hello() { return "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"; }
struct Served {
    int port = free_port();
    ion::Http2Server server;
    std::thread t;
    static ion::ServerConfiguration conf() { ion::ServerConfiguration c; c.cleartext = true; return c; }
    Served() : server(conf()) {
        spdlog::set_level(spdlog::level::off);
        signal(SIGPIPE, SIG_IGN);
        t = std::thread([this] { server.start(port); });
    }
    ~Served() { server.stop(); t.join(); }
};
