from plants import plant, HPACK, CONN
from d_b import SERVER

plant('c19-blocked-client', 'C19',
      [('lib/http2_conn.cpp', 'return (std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT;', '''// a connection with something left to send is not idle
    return write_buffer_.empty() &&
           (std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT;''')],
      CONN, r'''
#include <thread>
#include "conn_demo.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    Conn c(r);
    c.w->in.push_back(preface());
    c.w->in.push_back(request(1, "/"));
    c.w->accept = {10, 0};
    for (int i = 0; i < 60; ++i) c.w->accept.push_back(-1);
    c.c->process();
    for (int i = 0; i < 11; ++i) {
        std::this_thread::sleep_for(std::chrono::milliseconds(500));
        c.c->process();                              // the client reads nothing
    }
    CHECK(c.c->has_timed_out());
    return 0;
}
''', 'a client that stops reading while an answer is queued', 'the connection of a client that reads nothing is never reaped')

plant('c26-stop-drain', 'C26',
      [('lib/http2_server.cpp', '    while (!user_req_termination_) {', '    // clients still connected are served to the end\n    while (!user_req_termination_ || !connections_.empty()) {')],
      SERVER, r'''
#include <thread>
#include "net_demo.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    signal(SIGPIPE, SIG_IGN);
    int port = free_port();
    ion::ServerConfiguration c;
    c.cleartext = true;
    ion::Http2Server s{c};
    std::thread t([&] {
        int a = dial(port);
        say(a, hello());
        usleep(300000);
        s.stop();
        for (int i = 0; i < 30; ++i) {       // the client stays, and stays busy
            usleep(200000);
            say(a, std::string("\0\0\4\10\0\0\0\0\0\0\0\0\1", 13));
        }
        close(a);
    });
    alarm(4);                                // ends the program when the loop does not
    s.start(port);
    _exit(0);
}
''', 'a stop request while a client is connected that keeps sending', 'the server goes on for as long as one client stays')

plant('c11-queue-cap', 'C11',
      [('lib/http2_conn.cpp', '    write_buffer_.insert(write_buffer_.end(), data.begin(), data.end());', '''    const size_t room = MAX_WRITE_BUFFER_SIZE - std::min(write_buffer_.size(), MAX_WRITE_BUFFER_SIZE);
    data = data.first(std::min(room, data.size()));
    write_buffer_.insert(write_buffer_.end(), data.begin(), data.end());'''),
       ('lib/http2_conn.cpp', 'static constexpr size_t INITIAL_WRITE_BUFFER_SIZE = 16 * 1024;', 'static constexpr size_t INITIAL_WRITE_BUFFER_SIZE = 16 * 1024, MAX_WRITE_BUFFER_SIZE = 2 * 1024 * 1024;')],
      CONN, r'''
#include "conn_demo.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    r.add_route("/big", "GET", [&](const ion::HttpRequest&) { return ion::HttpResponse{.status_code = 200, .body = Bytes(3 << 20, 'x')}; });
    Conn c(r);
    c.w->in.push_back(preface());
    c.w->in.push_back(request(1, "/big"));
    c.c->process();
    size_t n = 0;
    bool whole = false, end = false;
    for (auto& f : frames(c.w->out, &whole))
        if (f.type == 0) {
            n += f.len;
            end = f.flags & 1;
        }
    CHECK(whole);
    CHECK(n == (3u << 20));
    CHECK(end);
    return 0;
}
''', 'a response body of more than two megabytes', 'what does not fit into the queue is dropped: the response is cut short, in the middle of a frame')
