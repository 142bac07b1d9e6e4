// frames, Http2FrameReader, Http2Connection with a scripted transport and clock
#include "common.h"
#include "throws.h"

#include <chrono>
#include <deque>
#include <map>
#include <span>

#include <spdlog/sinks/base_sink.h>
#include <spdlog/spdlog.h>

#include <opentelemetry/trace/provider.h>

#include "http2_conn.h"
#include "http2_frame_reader.h"
#include "http2_frames.h"
#include "router.h"
#include "transports/transport.h"

using namespace ion;

// a clock the script sets
static int64_t clock_ns = 1'000'000'000'000;
namespace std::chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(clock_ns)); }
} }

struct Script {
    std::deque<std::pair<int, std::vector<uint8_t>>> rx;   // -1: octets, otherwise a TransportError
    std::deque<long> tx;                                   // >=0: octets accepted at most, -1-e: error e
    std::deque<int> hs;                                    // -1: done, otherwise a TransportError
    std::vector<uint8_t> sent;
    int reads = 0, writes = 0, shutdowns = 0, hscalls = 0;
    size_t offered = 0, maxread = 0;
};
class ScriptTransport : public Transport {
   public:
    explicit ScriptTransport(std::shared_ptr<Script> s) : s_(std::move(s)) {}
    std::expected<ssize_t, TransportError> read(std::span<uint8_t> b) const override {
        s_->reads++;
        if (b.size() > s_->maxread) s_->maxread = b.size();
        if (s_->rx.empty()) return std::unexpected(TransportError::WantReadOrWrite);
        auto& [e, d] = s_->rx.front();
        if (e >= 100) throws(thrown(e - 100));
        if (e >= 0) {
            auto r = std::unexpected(static_cast<TransportError>(e));
            s_->rx.pop_front();
            return r;
        }
        size_t n = std::min(b.size(), d.size());
        std::copy(d.begin(), d.begin() + n, b.begin());
        if (n == d.size()) s_->rx.pop_front();
        else d.erase(d.begin(), d.begin() + n);
        return static_cast<ssize_t>(n);
    }
    std::expected<ssize_t, TransportError> write(std::span<const uint8_t> b) const override {
        s_->writes++;
        s_->offered += b.size();
        long k = static_cast<long>(b.size());
        if (!s_->tx.empty()) {
            long t = s_->tx.front();
            s_->tx.pop_front();
            if (t <= -101) throws(thrown(-101 - t));
            if (t < 0) return std::unexpected(static_cast<TransportError>(-1 - t));
            k = std::min(k, t);
        }
        s_->sent.insert(s_->sent.end(), b.begin(), b.begin() + k);
        return k;
    }
    void graceful_shutdown() const override { s_->shutdowns++; }
    std::expected<void, TransportError> handshake() const override {
        s_->hscalls++;
        if (s_->hs.empty()) return {};
        int h = s_->hs.front();
        s_->hs.pop_front();
        if (h < 0) return {};
        return std::unexpected(static_cast<TransportError>(h));
    }

   private:
    std::shared_ptr<Script> s_;
};

struct C {
    std::shared_ptr<Script> s = std::make_shared<Script>();
    std::unique_ptr<Http2Connection> c;
};
static std::unique_ptr<Router> router = std::make_unique<Router>();
static std::map<int, C> conns;
static std::string calls;

// the line with the repository's trace id flag in front (only where that is linked in)
std::string flagged(const spdlog::details::log_msg&) __attribute__((weak));
static std::string current() { return std::to_string(opentelemetry::trace::Tracer::GetCurrentSpan()->id()); }
struct MemSink : spdlog::sinks::base_sink<std::mutex> {
    std::vector<std::string> lines;
    void sink_it_(const spdlog::details::log_msg& m) override {
        lines.emplace_back(m.payload.data(), m.payload.size());
        if (opentelemetry::verif::recording && flagged) opentelemetry::verif::event("line " + current() + " " + hex(flagged(m)));
    }
    void flush_() override {}
};
static std::shared_ptr<MemSink> access_sink = std::make_shared<MemSink>();

static std::vector<uint8_t> body_of(const std::string& s) {
    if (s[0] != '#') return unhex(s);
    size_t n = std::stoul(s.substr(1));
    std::vector<uint8_t> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = static_cast<uint8_t>(i * 7 + i / 251);
    return v;
}

int main() {
    spdlog::set_level(spdlog::level::off);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op;
        in >> op;
        if (op == "parse") {
            std::string cls, h;
            in >> cls >> h;
            Exact e(unhex(h));
            if (cls == "Http2FrameHeader") {
                auto r = Http2FrameHeader::parse(std::span<const uint8_t, 9>(e.p.get(), 9));
                std::cout << r.length << " " << +r.type << " " << +r.flags << " " << r.stream_id << "\n";
            } else if (cls == "Http2Setting") {
                auto r = Http2Setting::parse(std::span<const uint8_t, 6>(e.p.get(), 6));
                std::cout << r.identifier << " " << r.value << "\n";
            } else if (cls == "Http2GoAwayPayload") {
                auto r = Http2GoAwayPayload::parse(std::span<const uint8_t, 8>(e.p.get(), 8));
                std::cout << r.last_stream_id << " " << r.error_code << "\n";
            } else {
                auto r = Http2WindowUpdate::parse(std::span<const uint8_t, 4>(e.p.get(), 4));
                std::cout << r.window_size_increment << "\n";
            }
        } else if (op == "ser") {
            std::string cls;
            uint64_t a = 0, b = 0, c = 0, d = 0;
            in >> cls >> a >> b >> c >> d;
            if (cls == "Http2FrameHeader") {
                std::array<uint8_t, 9> o;
                o.fill(0xa5);
                Http2FrameHeader{.length = (uint32_t)a, .type = (uint8_t)b, .flags = (uint8_t)c, .stream_id = (uint32_t)d}.serialize(o);
                std::cout << hex(o) << "\n";
            } else if (cls == "Http2Setting") {
                std::array<uint8_t, 6> o;
                o.fill(0xa5);
                Http2Setting{.identifier = (uint16_t)a, .value = (uint32_t)b}.serialize(o);
                std::cout << hex(o) << "\n";
            } else if (cls == "Http2GoAwayPayload") {
                std::array<uint8_t, 8> o;
                o.fill(0xa5);
                Http2GoAwayPayload{.last_stream_id = (uint32_t)a, .error_code = (uint32_t)b}.serialize(o);
                std::cout << hex(o) << "\n";
            } else {
                std::array<uint8_t, 4> o;
                o.fill(0xa5);
                Http2WindowUpdate{.window_size_increment = (uint32_t)a}.serialize(o);
                std::cout << hex(o) << "\n";
            }
        } else if (op == "flags") {
            unsigned f = 0;
            in >> f;
            std::array<uint8_t, 8> payload{};
            Http2FrameReader r{Http2FrameHeader{.length = 8, .type = 1, .flags = (uint8_t)f, .stream_id = 77}, payload};
            std::cout << [](const auto& q) {
                std::string o;
                if constexpr (requires { q.is_end_stream(); }) o += q.is_end_stream() ? "S" : "-"; else o += "?";
                if constexpr (requires { q.is_end_headers(); }) o += q.is_end_headers() ? "H" : "-"; else o += "?";
                if constexpr (requires { q.padded(); }) o += q.padded() ? "P" : "-"; else o += "?";
                if constexpr (requires { q.priority(); }) o += q.priority() ? "R" : "-"; else o += "?";
                return o;
            }(r) << "\n";
        } else if (op == "settings") {
            std::string h;
            in >> h;
            Exact e(unhex(h));
            Http2FrameReader r{Http2FrameHeader{.length = (uint32_t)e.n, .type = 4, .flags = 0, .stream_id = 0}, std::span<const uint8_t>(e.p.get(), e.n)};
            auto s = r.read_settings();
            if (!s) std::cout << "err\n";
            else {
                std::cout << "ok";
                for (auto& x : *s) std::cout << " " << x.identifier << "=" << x.value;
                std::cout << "\n";
            }
        } else if (op == "clock") {
            in >> clock_ns;
            std::cout << "ok\n";
        } else if (op == "reset") {
            conns.clear();
            router = std::make_unique<Router>();
            calls.clear();
            std::cout << "ok\n";
        } else if (op == "accesslog") {
            int on;
            in >> on;
            spdlog::drop("access");
            if (on) {
                auto l = std::make_shared<spdlog::logger>("access", access_sink);
                l->set_level(spdlog::level::info);
                spdlog::register_logger(l);
            }
            std::cout << "ok\n";
        } else if (op == "trace") {
            in >> opentelemetry::verif::recording;
            opentelemetry::verif::events.clear();
            opentelemetry::verif::next_span = 0;
            std::cout << "ok\n";
        } else if (op == "outside") {       // a line logged while no request is handled
            if (auto l = spdlog::get("access")) l->info("outside");
            std::cout << "ok\n";
        } else if (op == "events") {
            std::cout << "ok " << opentelemetry::verif::current.size();
            for (auto& e : opentelemetry::verif::events) std::cout << "|" << e;
            opentelemetry::verif::events.clear();
            std::cout << "\n";
        } else if (op == "lines") {
            std::cout << "ok";
            for (auto& l : access_sink->lines) std::cout << " " << hex(l);
            access_sink->lines.clear();
            std::cout << "\n";
        } else if (op == "route") {      // route METHOD PATH STATUS BODY [name value]...
            std::string m, p, b, n, v;
            int st;
            in >> m >> p >> st >> b;
            std::vector<HttpHeader> hs;
            while (in >> n >> v) hs.push_back({str(n), str(v)});
            auto path = str(p), meth = str(m);
            router->add_route(path, meth, [=](const HttpRequest& req) -> HttpResponse {
                calls += " call:" + hex(meth) + ":" + hex(path) + ":" + hex(req.method) + ":" + hex(req.path);
                for (auto& h : req.headers) calls += "," + hex(h.name) + "=" + hex(h.value);
                opentelemetry::verif::event("handler " + current());
                if (opentelemetry::verif::recording)
                    if (auto l = spdlog::get("access")) l->info("handling");
                throws(b);
                return HttpResponse{.status_code = (uint16_t)st, .body = body_of(b), .headers = hs};
            });
            std::cout << "ok\n";
        } else if (op == "new") {
            int id;
            std::string ip;
            in >> id >> ip;
            auto& c = conns[id];
            c = C{};
            c.c = std::make_unique<Http2Connection>(std::make_unique<ScriptTransport>(c.s), ip == "-" ? "" : ip, *router);
            std::cout << "ok\n";
        } else if (op == "rx") {
            int id;
            std::string h;
            in >> id;
            while (in >> h) {
                if (h[0] == '!') conns[id].s->rx.emplace_back(std::stoi(h.substr(1)), std::vector<uint8_t>{});
                else conns[id].s->rx.emplace_back(-1, unhex(h));
            }
            std::cout << "ok\n";
        } else if (op == "tx") {
            int id;
            long k;
            in >> id;
            while (in >> k) conns[id].s->tx.push_back(k);
            std::cout << "ok\n";
        } else if (op == "hs") {
            int id, k;
            in >> id;
            while (in >> k) conns[id].s->hs.push_back(k);
            std::cout << "ok\n";
        } else if (op == "close") {
            int id;
            in >> id;
            conns[id].c->close();
            std::cout << "ok\n";
        } else if (op == "timed") {
            int id;
            in >> id;
            std::cout << conns[id].c->has_timed_out() << "\n";
        } else if (op == "proc") {
            int id;
            in >> id;
            auto& c = conns[id];
            std::string r;
            try {
                switch (c.c->process()) {
                    case Http2ProcessResult::WantRead: r = "R"; break;
                    case Http2ProcessResult::WantWrite: r = "W"; break;
                    case Http2ProcessResult::DiscardConnection: r = "D"; break;
                }
            } catch (...) {
                r = "X";
            }
            size_t left = 0;
            for (auto& x : c.s->rx) left += x.second.size();
            std::cout << r << " " << hex(c.s->sent) << " reads=" << c.s->reads << " writes=" << c.s->writes << " shutdowns=" << c.s->shutdowns << " hs=" << c.s->hscalls
                      << " left=" << left << calls << "\n";
            c.s->sent.clear();
            c.s->reads = c.s->writes = c.s->shutdowns = c.s->hscalls = 0;
            calls.clear();
        } else {
            std::cout << "?\n";
        }
        std::cout.flush();
    }
}
