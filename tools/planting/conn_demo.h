// a connection fed with octets, its output collected
#pragma once
#include <chrono>
#include <cstdio>
#include <cstring>
#include <deque>
#include <memory>
#include <span>
#include <string>
#include <vector>

#include <spdlog/spdlog.h>

#include "http2_conn.h"
#include "http2_frames.h"
#include "router.h"
#include "transports/transport.h"

using Bytes = std::vector<uint8_t>;
struct Wire {
    std::deque<Bytes> in;
    std::deque<long> accept;   // per write: octets accepted, -1 would block
    Bytes out;
    bool eof = false;
};
struct FakeTransport : ion::Transport {
    std::shared_ptr<Wire> w;
    explicit FakeTransport(std::shared_ptr<Wire> x) : w(std::move(x)) {}
    std::expected<ssize_t, ion::TransportError> read(std::span<uint8_t> b) const override {
        if (w->in.empty())
            return std::unexpected(w->eof ? ion::TransportError::ConnectionClosed : ion::TransportError::WantReadOrWrite);
        auto& d = w->in.front();
        size_t n = std::min(b.size(), d.size());
        std::copy(d.begin(), d.begin() + n, b.begin());
        d.erase(d.begin(), d.begin() + n);
        if (d.empty()) w->in.pop_front();
        return static_cast<ssize_t>(n);
    }
    std::expected<ssize_t, ion::TransportError> write(std::span<const uint8_t> b) const override {
        size_t n = b.size();
        if (!w->accept.empty()) {
            long a = w->accept.front();
            w->accept.pop_front();
            if (a < 0) return std::unexpected(ion::TransportError::WantReadOrWrite);
            n = std::min<size_t>(n, a);
        }
        w->out.insert(w->out.end(), b.begin(), b.begin() + n);
        return static_cast<ssize_t>(n);
    }
    void graceful_shutdown() const override {}
    std::expected<void, ion::TransportError> handshake() const override { return {}; }
};
inline void put(Bytes& b, const std::string& s) { b.insert(b.end(), s.begin(), s.end()); }
inline Bytes preface() { Bytes b; put(b, "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"); return b; }
inline Bytes frame(uint8_t type, uint8_t flags, uint32_t sid, const Bytes& p) {
    Bytes b{uint8_t(p.size() >> 16), uint8_t(p.size() >> 8), uint8_t(p.size()), type, flags,
            uint8_t(sid >> 24), uint8_t(sid >> 16), uint8_t(sid >> 8), uint8_t(sid)};
    b.insert(b.end(), p.begin(), p.end());
    return b;
}
// a literal field without indexing, plain strings shorter than 127 octets
inline void field(Bytes& b, const std::string& n, const std::string& v) {
    b.push_back(0); b.push_back(n.size()); put(b, n); b.push_back(v.size()); put(b, v);
}
inline Bytes request(uint32_t sid, const std::string& path, const std::string& method = "GET") {
    Bytes h;
    field(h, ":method", method);
    field(h, ":path", path);
    return frame(1, 5, sid, h);
}
struct F { uint32_t len; uint8_t type, flags; uint32_t sid; Bytes p; };
inline std::vector<F> frames(const Bytes& b, bool* whole = nullptr) {
    std::vector<F> r;
    size_t i = 0;
    while (i + 9 <= b.size()) {
        F f{uint32_t(b[i] << 16 | b[i + 1] << 8 | b[i + 2]), b[i + 3], b[i + 4],
            uint32_t(b[i + 5] << 24 | b[i + 6] << 16 | b[i + 7] << 8 | b[i + 8]), {}};
        if (i + 9 + f.len > b.size()) break;
        f.p.assign(b.begin() + i + 9, b.begin() + i + 9 + f.len);
        r.push_back(f);
        i += 9 + f.len;
    }
    if (whole) *whole = i == b.size();
    return r;
}
struct Conn {
    std::shared_ptr<Wire> w = std::make_shared<Wire>();
    std::unique_ptr<ion::Http2Connection> c;
    explicit Conn(const ion::Router& r, const std::string& ip = "192.0.2.1") {
        c = std::make_unique<ion::Http2Connection>(std::make_unique<FakeTransport>(w), ip, r);
    }
};
#define CHECK(x) do { if (!(x)) { std::printf("FAILED: %s (line %d)\n", #x, __LINE__); return 1; } } while (0)
