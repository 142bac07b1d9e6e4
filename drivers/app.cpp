#include <sys/resource.h>
// Routing, static files, path resolution, access log, status page and statistics, all on the compiled code.
#include <sys/stat.h>
#include <unistd.h>
#include <chrono>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <spdlog/spdlog.h>
#include <spdlog/sinks/basic_file_sink.h>
#define private public
#include "access_log.h"
#include "file_reader.h"
#include "router.h"
#include "server_stats.h"
#include "static_file_handler.h"
#include "status_page.h"
#undef private
#include "common.h"
#include "throws.h"

// the steady clock, for histories in which requests take known times
static bool frozen = false;
static long clock_offset = 0;
extern "C" std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
extern "C" std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
    static const auto t0 = __real__ZNSt6chrono3_V212steady_clock3nowEv();
    return (frozen ? t0 : __real__ZNSt6chrono3_V212steady_clock3nowEv()) + std::chrono::nanoseconds(clock_offset);
}

static std::string S(const std::string& h) { return str(h); }

static std::string response(const ion::HttpResponse& r) {
    std::string o = std::to_string(r.status_code) + " " + hex(r.body);
    for (auto& h : r.headers) o += " " + hex(h.name) + ":" + hex(h.value);
    return o;
}

static std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> v;
    std::istringstream in(s);
    std::string x;
    while (std::getline(in, x, c)) v.push_back(x);
    return v;
}

// one router: R:path:method  S:prefix:dir  M  Q:path:method  in this order
static std::string route(std::istringstream& in) {
    ion::Router router;
    std::string tok, out;
    auto trace = std::make_shared<std::string>();
    int routes = 0, mws = 0;
    while (in >> tok) {
        auto a = split(tok, ':');
        if (a[0] == "R") {
            int n = routes++;
            auto path = std::make_unique<std::string>(S(a[1])), method = std::make_unique<std::string>(S(a[2]));
            router.add_route(*path, *method, [trace, n](const ion::HttpRequest& r) {
                *trace += " r" + std::to_string(n) + "(" + hex(r.path) + "," + hex(r.method) + "," + std::to_string(r.headers.size()) + ")";
                return ion::HttpResponse{.status_code = static_cast<uint16_t>(200 + n)};
            });
        } else if (a[0] == "S") {
            router.add_static_handler(std::make_unique<ion::StaticFileHandler>(S(a[1]), S(a[2])));
        } else if (a[0] == "M") {
            int n = mws++;
            router.add_middleware([trace, n](ion::RouteHandler next) {
                return [trace, n, next](const ion::HttpRequest& r) {
                    *trace += " m" + std::to_string(n);
                    auto res = next(r);
                    *trace += " /m" + std::to_string(n);
                    return res;
                };
            });
        } else if (a[0] == "Q") {
            *trace = "";
            auto path = std::make_unique<std::string>(S(a[1])), method = std::make_unique<std::string>(S(a[2]));
            auto handler = router.get_handler(*path, *method);
            ion::HttpRequest req{.method = *method, .path = *path, .headers = {{"a", "b"}}};
            path->assign(path->size(), '#');
            method->assign(method->size(), '#');
            path.reset();
            method.reset();
            auto res = handler(req);
            out += "|" + *trace + " -> " + response(res);
        }
    }
    return out.empty() ? "|" : out;
}

int main() {
    spdlog::set_level(spdlog::level::off);
    std::string line, logpath;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op, out, a, b, c;
        in >> op;
        if (op == "route") {
            out = route(in);
        } else if (op == "chdir") {
            in >> a;
            out = chdir(S(a).c_str()) ? "failed" : "ok";
        } else if (op == "setuid") {
            int n;
            in >> n;
            out = setgid(n) || setuid(n) ? "failed" : "ok";
        } else if (op == "static-nofd") {       // the same while no descriptor is left
            int head;
            in >> a >> b >> head >> c;
            ion::StaticFileHandler h(S(a), S(b));
            rlimit old{}, none{};
            getrlimit(RLIMIT_NOFILE, &old);
            none = old;
            none.rlim_cur = 0;
            const bool limited = setrlimit(RLIMIT_NOFILE, &none) == 0;
            auto r = h.handle(S(c), head);
            setrlimit(RLIMIT_NOFILE, &old);
            out = limited ? response(r) : "failed";
        } else if (op == "sanitize") {
            in >> a >> b;
            auto r = ion::FileReader::sanitize_path(S(a), S(b));
            out = r ? "path " + hex(*r) : "refused";
        } else if (op == "static") {
            // static prefix root head path
            int head;
            in >> a >> b >> head >> c;
            ion::StaticFileHandler h(S(a), S(b));
            out = h.matches(S(c)) ? response(h.handle(S(c), head)) : "no match";
        } else if (op == "mime") {
            in >> a;
            out = hex(ion::FileReader::get_mime_type(S(a)));
        } else if (op == "file") {
            in >> a;
            bool ok = ion::FileReader::is_readable(S(a));
            auto r = ok ? ion::FileReader::read_file(S(a)) : std::nullopt;      // read_file is for readable files only
            auto n = ion::FileReader::get_file_size(S(a));
            out = std::string(ok ? "readable" : "unreadable") + " size " + (n ? std::to_string(*n) : "none") + " content " + (r ? hex(*r) : "none");
        } else if (op == "logto") {
            in >> a;
            spdlog::drop(ion::AccessLog::ACCESS_LOGGER_NAME);
            logpath = S(a);
            if (!logpath.empty()) {
                auto l = spdlog::basic_logger_mt(ion::AccessLog::ACCESS_LOGGER_NAME, logpath);
                l->set_pattern("%v");
                l->set_level(spdlog::level::info);
                l->flush_on(spdlog::level::info);
            }
            out = "ok";
        } else if (op == "log") {
            // log status size ip name:value...
            int st;
            size_t n;
            in >> st >> n >> a;
            std::vector<ion::HttpHeader> hs;
            while (in >> b) {
                auto v = split(b, ':');
                hs.push_back({S(v[0]), S(v[1])});
            }
            auto hs0 = hs;
            ion::AccessLog::log_request(hs, static_cast<uint16_t>(st), n, S(a));
            out = "ok";
            for (size_t i = 0; i < hs.size(); i++)
                if (hs[i].name != hs0[i].name || hs[i].value != hs0[i].value) out = "headers changed";
        } else if (op == "duration") {
            uint64_t n;
            in >> n;
            out = hex(StatusPage::format_duration(n));
        } else if (op == "stats") {
            // stats code|throw|throwint ... : a history through the middleware; then the counters and the page
            auto& s = ServerStats::instance();
            s.total_requests = 0;
            s.status_codes.clear();
            s.total_duration_us = 0;
            auto mw = ServerStats::middleware();
            std::string passed = "same";
            frozen = true;
            while (in >> a) {
                auto took = split(a, '@');
                a = took[0];
                const long ns = took.size() > 1 ? std::stol(took[1]) : 0;
                ion::HttpRequest req{.method = "M" + a, .path = "/" + a, .headers = {{"x", a}}};
                auto h = mw([&](const ion::HttpRequest& r) {
                    if (r.method != req.method || r.path != req.path || r.headers.size() != 1 || r.headers[0].value != a) passed = "request changed";
                    clock_offset += ns;
                    throws(a);
                    return ion::HttpResponse{.status_code = static_cast<uint16_t>(std::stoi(a)), .body = {1, 2, 3}, .headers = {{"n", a}}};
                });
                try {
                    auto r = h(req);
                    if (std::to_string(r.status_code) != a || r.body != std::vector<uint8_t>{1, 2, 3} || r.headers.size() != 1 || r.headers[0].name != "n" || r.headers[0].value != a)
                        passed = "response changed";
                } catch (...) {
                    if (!same_thrown(a)) passed = "threw";
                }
            }
            frozen = false;
            out = passed + " total " + std::to_string(s.total_requests) + " us:" + std::to_string(s.total_duration_us);
            for (auto& [k, v] : s.status_codes) out += " " + std::to_string(k) + "=" + std::to_string(v);
        } else if (op == "page") {
            // page uptime-milliseconds total code=count...: the page with these counters
            uint64_t up, total;
            int64_t us;
            in >> up >> total >> us;
            auto& s = ServerStats::instance();
            s.status_codes.clear();
            while (in >> a) {
                auto v = split(a, '=');
                s.status_codes[static_cast<uint16_t>(std::stoul(v[0]))] = std::stoull(v[1]);
            }
            static auto* router = [] {
                auto* r = new ion::Router;
                StatusPage::add_status_page(*r);
                return r;
            }();
            // the counters after this request's own middleware are what the page shows: set them inside it
            s.total_requests = total - 1;
            s.total_duration_us = us;
            s.start_time = std::chrono::steady_clock::now() - std::chrono::milliseconds(up);
            auto r = router->get_handler("/_ion/status", "GET")(ion::HttpRequest{.method = "GET", .path = "/_ion/status"});
            out = response(r);
        } else {
            out = "?";
        }
        std::cout << out << std::endl;
    }
}
