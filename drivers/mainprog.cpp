// The whole program (app/main.cpp) with Http2Server::start replaced by a probe: it shows how the server was set up, puts the
// requests of the environment through its router and returns. No socket can be opened and no privilege is given up.
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cerrno>
#include <fstream>
#include <sys/prctl.h>

#include "access_log.h"
#include "common.h"
#include "throws.h"
#include "http2_server.h"
#include "telemetry.h"
#include <spdlog/spdlog.h>

static int privs = 0;
static int started = 0;

namespace ion::app {
Telemetry::Telemetry(const std::string&) { std::cout << "@@ telemetry" << std::endl; }
Telemetry::~Telemetry() = default;
}

extern "C" {
int __wrap_socket(int, int, int) { errno = EPERM; return -1; }
int __wrap_prctl(int op, ...) {
    va_list ap;
    va_start(ap, op);
    unsigned long a = va_arg(ap, unsigned long);
    va_end(ap);
    if (op == PR_GET_NO_NEW_PRIVS) return privs;
    if (op != PR_SET_NO_NEW_PRIVS) { errno = EINVAL; return -1; }
    if (std::getenv("ION_PRCTL_FAILS")) { errno = EINVAL; return -1; }
    if (a == 1) privs = 1;
    return 0;
}
void __wrap__ZN3ion11Http2Server5startEt(ion::Http2Server* s, uint16_t port) {
    std::cout << "@@ start " << port << " privs " << privs << " level " << spdlog::get_level() << " again " << started++ << std::endl;
    for (int code : {200, 204, 206, 301, 304, 400, 403, 405, 410, 429, 500, 503, 504, 404}) {      // handlers of a user of the library
        s->router().add_route("/probe/" + std::to_string(code), "GET", [code](const auto&) {
            ion::HttpResponse r;
            r.status_code = code;
            r.body = {'o', 'w', 'n'};
            r.headers.push_back({"x-own", "1"});
            return r;
        });
    }
    std::istringstream in(std::getenv("ION_REQUESTS") ? std::getenv("ION_REQUESTS") : "");
    std::string m, p;
    while (in >> m >> p) {
        ion::HttpRequest q;
        q.method = str(m);
        q.path = str(p);
        try {
            auto h = s->router().get_handler(q.path, q.method);
            auto r = h(q);
            std::cout << "@@ answer " << m << " " << p << " " << r.status_code << " " << hex(r.body);
            for (auto& x : r.headers) std::cout << " " << hex(x.name) << "=" << hex(x.value);
            std::cout << std::endl;
        } catch (const std::exception& e) {
            std::cout << "@@ answer " << m << " " << p << " threw " << hex(std::string(e.what())) << std::endl;
        }
    }
    std::vector<ion::HttpHeader> hs{{":method", "GET"}, {":path", "/logged"}};
    ion::AccessLog::log_request(hs, 200, 5, "192.0.2.1");
    if (auto* n = std::getenv("ION_LOG")) {      // what is in the file while the server runs
        std::ifstream f(n);
        std::cout << "@@ logged " << hex(std::string(std::istreambuf_iterator<char>(f), {})) << std::endl;
    }
    if (auto* n = std::getenv("ION_SIGNAL")) raise(std::atoi(n));
    std::cout << "@@ end" << std::endl;
    if (auto* n = std::getenv("ION_THROWS")) throws(n);
}
}
