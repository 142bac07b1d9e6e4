// Sockets, transports, pollers, listener and the whole server on a scripted kernel and a scripted OpenSSL.
// Every system and OpenSSL call of the repository's objects is redirected here (ld --wrap); descriptors from 100000 on are
// the script's, nothing real is opened, closed or listened on.
#include <arpa/inet.h>
#include <csignal>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <poll.h>
#include <stdarg.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <deque>
#include <functional>
#include <map>
#include <optional>
#include <set>

#include "common.h"
#include "http2_server.h"
#include "pollers/epoll_poller.h"
#include "pollers/poll_poller.h"
#include "socket_fd.h"
#include "tcp_listener.h"
#include "transports/tcp_transport.h"
#include "transports/tls_context.h"
#include "transports/tls_transport.h"
#include <spdlog/spdlog.h>

static int64_t clock_ns = 1'000'000'000'000;
namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(clock_ns)); }
}
}

using std::string;
void attach_signals(ion::Http2Server&) __attribute__((weak));
bool attach_again(ion::Http2Server&) __attribute__((weak));
void detach_signals() __attribute__((weak));
static const int BASE = 100000;
struct Sock {
    bool open = true;
    std::deque<std::vector<uint8_t>> rx;
    bool eof = false;
    int rderr = 0, wrerr = 0;
    long wcap = -1;   // octets the peer still takes; -1: any number
    string tx;
    uint32_t force = 0;  // events reported whatever the state
    bool shut = false, nonblock = false;
    std::map<std::pair<int, int>, int> opts;
    string bound;
    int backlog = -1;
    std::vector<uint8_t> peer;   // 4 octets: IPv4, 16: IPv6, 1: another family, 0: the default address
};
static std::map<int, Sock> socks;
static std::deque<int> accepts;      // descriptor or -errno
static std::map<string, std::deque<std::pair<int, int>>> fails;   // call -> (calls to let pass, errno)
static std::vector<string> calls, bad;
static std::vector<int> closed;
static int next_fd = BASE;
static std::set<int> epfds;
static std::map<int, epoll_event> kreg;      // one epoll instance is enough
static bool log_calls = true;

static string stop_in;               // the call during which the server is told to stop
static int stop_after, stop_how;
static bool told;
static void tell();
static void rec(const string& s) {
    if (log_calls) calls.push_back(s);
    if (!stop_in.empty() && s.starts_with(stop_in) && stop_after-- == 0) tell();
}
static bool failing(const string& n) {
    auto it = fails.find(n);
    if (it == fails.end() || it->second.empty()) return false;
    auto& f = it->second.front();
    if (f.first-- > 0) return false;
    errno = f.second;
    it->second.pop_front();
    return true;
}
static Sock* sk(int fd, const char* what) {
    auto it = socks.find(fd);
    if (it == socks.end() || !it->second.open) {
        bad.push_back(string(what) + "(" + std::to_string(fd) + ")");
        errno = EBADF;
        return nullptr;
    }
    return &it->second;
}
static int mk() {
    int fd = next_fd++;
    socks[fd] = Sock{};
    return fd;
}
// a scripted result for the next call of a name: value, errno, octets
struct Res { long v; int e; std::vector<uint8_t> data; };
static std::map<string, std::deque<Res>> script;
static std::optional<Res> scripted(const string& n) {
    auto it = script.find(n);
    if (it == script.end() || it->second.empty()) return {};
    Res r = it->second.front();
    it->second.pop_front();
    if (r.v < 0) errno = r.e;
    return r;
}
static std::function<int(epoll_event*, int)> round_hook;
static std::vector<std::pair<int, uint32_t>> pending;   // events for the poller commands
static std::vector<pollfd> polled;
static int wait_timeout;
static bool low = false;   // small descriptor numbers belong to the scripted kernel as well

extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
int __real_close(int);

static ssize_t do_read(const char* nm, int fd, void* buf, size_t n) {
    rec(string(nm) + "(" + std::to_string(fd) + "," + std::to_string(n) + ")");
    Sock* s = sk(fd, nm);
    if (!s) return -1;
    if (auto r = scripted("read")) {
        if (r->v > 0) memcpy(buf, r->data.data(), std::min({n, r->data.size(), static_cast<size_t>(r->v)}));
        return r->v;
    }
    if (!s->rx.empty()) {
        auto& c = s->rx.front();
        size_t k = std::min(n, c.size());
        memcpy(buf, c.data(), k);
        c.erase(c.begin(), c.begin() + k);
        if (c.empty()) s->rx.pop_front();
        return k;
    }
    if (s->rderr) { errno = s->rderr; return -1; }
    if (s->eof) return 0;
    errno = EAGAIN;
    return -1;
}
static ssize_t do_write(const char* nm, int fd, const void* buf, size_t n) {
    rec(string(nm) + "(" + std::to_string(fd) + "," + std::to_string(n) + ")");
    Sock* s = sk(fd, nm);
    if (!s) return -1;
    if (auto r = scripted("write")) {
        if (r->v > 0) s->tx.append(static_cast<const char*>(buf), std::min<size_t>(n, r->v));
        return r->v;
    }
    if (s->wrerr) { errno = s->wrerr; return -1; }
    size_t k = s->wcap < 0 ? n : std::min<size_t>(n, s->wcap);
    if (k == 0 && n > 0) { errno = EAGAIN; return -1; }
    s->tx.append(static_cast<const char*>(buf), k);
    if (s->wcap >= 0) s->wcap -= k;
    return k;
}
ssize_t __wrap_read(int fd, void* b, size_t n) { return fd < BASE && fd >= 0 ? __real_read(fd, b, n) : do_read("read", fd, b, n); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int) { return do_read("recv", fd, b, n); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { return fd < BASE && fd >= 0 ? __real_write(fd, b, n) : do_write("write", fd, b, n); }
ssize_t __wrap_send(int fd, const void* b, size_t n, int) { return do_write("send", fd, b, n); }
int __wrap_close(int fd) {
    if (fd < BASE && fd >= 0 && !low) return __real_close(fd);
    rec("close(" + std::to_string(fd) + ")");
    closed.push_back(fd);
    if (epfds.erase(fd)) { kreg.clear(); return 0; }
    Sock* s = sk(fd, "close");
    if (!s) return -1;
    s->open = false;
    kreg.erase(fd);
    return failing("close") ? -1 : 0;
}
int __wrap_shutdown(int fd, int how) {
    rec("shutdown(" + std::to_string(fd) + "," + std::to_string(how) + ")");
    Sock* s = sk(fd, "shutdown");
    if (!s) return -1;
    if (failing("shutdown")) return -1;
    s->shut = true;
    return 0;
}
int __wrap_socket(int, int type, int) {
    rec("socket");
    if (failing("socket")) return -1;
    int fd = mk();
    socks[fd].nonblock = type & SOCK_NONBLOCK;
    return fd;
}
static int do_accept(int fd, sockaddr* a, socklen_t* l, int flags) {
    rec("accept(" + std::to_string(fd) + ")");
    if (!sk(fd, "accept")) return -1;
    if (accepts.empty()) { errno = EAGAIN; return -1; }
    int r = accepts.front();
    accepts.pop_front();
    if (r < 0) { errno = -r; return -1; }
    socks[r] = Sock{};
    socks[r].nonblock = flags & SOCK_NONBLOCK;
    if (a && l) { sockaddr_in in{}; in.sin_family = AF_INET; memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; }
    return r;
}
int __wrap_accept(int fd, sockaddr* a, socklen_t* l) { return do_accept(fd, a, l, 0); }
int __wrap_accept4(int fd, sockaddr* a, socklen_t* l, int f) { return do_accept(fd, a, l, f); }
int __wrap_bind(int fd, const sockaddr* a, socklen_t l) {
    rec("bind(" + std::to_string(fd) + "," + (l >= sizeof(sockaddr_in) ? std::to_string(ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port)) : "?") + ")");
    Sock* s = sk(fd, "bind");
    if (!s) return -1;
    if (failing("bind")) return -1;
    const auto* in = reinterpret_cast<const sockaddr_in*>(a);
    s->bound = l < sizeof(sockaddr_in) ? "short" : std::to_string(in->sin_family) + "/" + std::to_string(ntohl(in->sin_addr.s_addr)) + "/" + std::to_string(ntohs(in->sin_port)) + "/" + std::to_string(s->opts.contains({SOL_SOCKET, SO_REUSEADDR}) && s->opts[{SOL_SOCKET, SO_REUSEADDR}]);
    return 0;
}
int __wrap_listen(int fd, int backlog) {
    rec("listen(" + std::to_string(fd) + ")");
    Sock* s = sk(fd, "listen");
    if (!s) return -1;
    if (failing("listen")) return -1;
    s->backlog = backlog;
    return 0;
}
int __wrap_setsockopt(int fd, int lvl, int opt, const void* v, socklen_t n) {
    rec("setsockopt(" + std::to_string(fd) + "," + std::to_string(opt) + ")");
    Sock* s = sk(fd, "setsockopt");
    if (!s) return -1;
    if (failing("setsockopt")) return -1;
    if (n >= sizeof(int)) s->opts[{lvl, opt}] = *static_cast<const int*>(v);
    return 0;
}
int __wrap_getsockopt(int fd, int, int, void* v, socklen_t* l) {
    if (!sk(fd, "getsockopt")) return -1;
    if (v && l) memset(v, 0, *l);
    return 0;
}
static int do_fcntl(int fd, int cmd, int arg) {
    if (fd >= 0 && fd < BASE) { errno = ENOSYS; return -1; }
    rec("fcntl(" + std::to_string(fd) + "," + std::to_string(cmd) + ")");
    Sock* s = sk(fd, "fcntl");
    if (!s) return -1;
    if (failing("fcntl")) return -1;
    if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { s->nonblock = arg & O_NONBLOCK; return 0; }
    return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); int a = va_arg(ap, int); va_end(ap); return do_fcntl(fd, cmd, a); }
int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); int a = va_arg(ap, int); va_end(ap); return do_fcntl(fd, cmd, a); }
int __wrap_ioctl(int fd, unsigned long, ...) { return sk(fd, "ioctl") ? 0 : -1; }
int __wrap_getpeername(int fd, sockaddr* a, socklen_t* l) {
    rec("getpeername(" + std::to_string(fd) + ")");
    if (!sk(fd, "getpeername")) return -1;
    if (failing("getpeername")) return -1;
    auto& peer = socks[fd].peer;
    if (peer.size() == 16) {
        sockaddr_in6 in6{};
        in6.sin6_family = AF_INET6;
        memcpy(&in6.sin6_addr, peer.data(), 16);
        memcpy(a, &in6, std::min<size_t>(*l, sizeof in6));
        *l = sizeof in6;
        return 0;
    }
    if (peer.size() == 1) {
        sockaddr un{};
        un.sa_family = peer[0];
        memcpy(a, &un, std::min<size_t>(*l, sizeof un));
        *l = sizeof un;
        return 0;
    }
    sockaddr_in in{};
    in.sin_family = AF_INET;
    in.sin_addr.s_addr = htonl(0x0a000000u + (fd - BASE));
    if (peer.size() == 4) memcpy(&in.sin_addr, peer.data(), 4);
    memcpy(a, &in, std::min<size_t>(*l, sizeof in));
    *l = sizeof in;
    return 0;
}
int __wrap_epoll_create1(int) {
    if (failing("epoll_create1")) return -1;
    int fd = next_fd++;
    epfds.insert(fd);
    kreg.clear();
    return fd;
}
int __wrap_epoll_create(int) { return __wrap_epoll_create1(0); }
int __wrap_epoll_ctl(int ep, int op, int fd, epoll_event* ev) {
    rec("epoll_ctl(" + std::to_string(op) + "," + std::to_string(fd) + (ev ? "," + std::to_string(ev->events) + "," + std::to_string(ev->data.fd) : "") + ")");
    if (!epfds.count(ep)) { bad.push_back("epoll_ctl on " + std::to_string(ep)); errno = EBADF; return -1; }
    if (failing("epoll_ctl")) return -1;
    auto s = socks.find(fd);
    if (s == socks.end() || !s->second.open) { errno = EBADF; return -1; }
    if (op == EPOLL_CTL_ADD && kreg.count(fd)) { errno = EEXIST; return -1; }
    if (op != EPOLL_CTL_ADD && !kreg.count(fd)) { errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_DEL) kreg.erase(fd);
    else kreg[fd] = *ev;
    return 0;
}
int __wrap_epoll_wait(int ep, epoll_event* evs, int n, int timeout) {
    wait_timeout = timeout;
    if (!epfds.count(ep)) { errno = EBADF; return -1; }
    if (n <= 0) { errno = EINVAL; return -1; }
    if (round_hook) return round_hook(evs, n);
    if (auto r = scripted("wait"); r && r->v <= 0) return r->v;
    int k = 0;
    while (!pending.empty() && k < n) {
        auto [fd, m] = pending.front();
        pending.erase(pending.begin());
        if (!kreg.count(fd)) continue;
        evs[k].events = m;
        evs[k].data = kreg[fd].data;
        k++;
    }
    return k;
}
int __wrap_epoll_pwait(int ep, epoll_event* evs, int n, int timeout, const sigset_t*) { return __wrap_epoll_wait(ep, evs, n, timeout); }
int __real_poll(pollfd*, nfds_t, int);
static bool in_sigpipe = false;
int __wrap_poll(pollfd* p, nfds_t n, int timeout) {
    if (in_sigpipe) return __real_poll(p, n, timeout);
    wait_timeout = timeout;
    polled.assign(p, p + n);
    if (round_hook) {
        // the server on poll(2): the registrations are the array
        kreg.clear();
        for (nfds_t i = 0; i < n; i++) { epoll_event e{}; e.events = static_cast<uint32_t>(p[i].events); e.data.fd = p[i].fd; kreg[p[i].fd] = e; }
        std::vector<epoll_event> evs(n + 1);
        int k = round_hook(evs.data(), static_cast<int>(n) + 1);
        for (nfds_t i = 0; i < n; i++) p[i].revents = 0;
        for (int j = 0; j < k; j++) for (nfds_t i = 0; i < n; i++) if (p[i].fd == evs[j].data.fd) p[i].revents = static_cast<short>(evs[j].events);
        return k;
    }
    if (auto r = scripted("wait"); r && r->v <= 0) return r->v;
    int k = 0;
    for (nfds_t i = 0; i < n; i++) {
        p[i].revents = 0;
        for (auto& [fd, m] : pending) if (fd == p[i].fd) { p[i].revents = static_cast<short>(m); k += m != 0; }
    }
    return k;
}

// ---- OpenSSL -------------------------------------------------------------------------------------
struct FSsl { int fd; bool freed; };
struct FCtx { bool freed; };
static std::deque<FSsl> ssls;
static std::deque<FCtx> ctxs;
static std::deque<unsigned long> errq;
static int ssl_err_code;       // what the last failed call ended with
static unsigned long ssl_err_push;
static int ssl_live = 0;
static FSsl* fs(const SSL* s, const char* what) {
    auto* f = reinterpret_cast<FSsl*>(const_cast<SSL*>(s));
    for (auto& x : ssls) if (&x == f) {
        if (x.freed) bad.push_back(string(what) + " on freed SSL");
        return f;
    }
    bad.push_back(string(what) + " on unknown SSL");
    return nullptr;
}
SSL_CTX* __wrap_SSL_CTX_new(const SSL_METHOD*) {
    rec("SSL_CTX_new");
    if (failing("SSL_CTX_new")) return nullptr;
    ctxs.push_back({false});
    return reinterpret_cast<SSL_CTX*>(&ctxs.back());
}
void __wrap_SSL_CTX_free(SSL_CTX* c) {
    rec("SSL_CTX_free");
    if (!c) return;
    for (auto& x : ctxs) if (reinterpret_cast<SSL_CTX*>(&x) == c) {
        if (x.freed) bad.push_back("SSL_CTX freed twice");
        x.freed = true;
        return;
    }
    bad.push_back("SSL_CTX_free on unknown");
}
int __wrap_SSL_CTX_use_certificate_file(SSL_CTX*, const char* p, int) { rec(string("cert:") + p); return failing("cert") ? 0 : 1; }
int __wrap_SSL_CTX_use_certificate_chain_file(SSL_CTX*, const char* p) { rec(string("cert:") + p); return failing("cert") ? 0 : 1; }
int __wrap_SSL_CTX_use_PrivateKey_file(SSL_CTX*, const char* p, int) { rec(string("key:") + p); return failing("key") ? 0 : 1; }
int __wrap_SSL_CTX_check_private_key(const SSL_CTX*) { rec("check"); return failing("check") ? 0 : 1; }
void __wrap_SSL_CTX_set_alpn_select_cb(SSL_CTX*, SSL_CTX_alpn_select_cb_func, void*) { rec("alpn"); }
void __wrap_SSL_CTX_set_keylog_callback(SSL_CTX*, SSL_CTX_keylog_cb_func) {}
SSL* __wrap_SSL_new(SSL_CTX*) {
    rec("SSL_new");
    if (failing("SSL_new")) return nullptr;
    ssls.push_back({-1, false});
    ssl_live++;
    return reinterpret_cast<SSL*>(&ssls.back());
}
void __wrap_SSL_free(SSL* s) {
    rec("SSL_free");
    if (!s) return;
    if (auto* f = fs(s, "SSL_free"); f && !f->freed) { f->freed = true; ssl_live--; }
}
int __wrap_SSL_set_fd(SSL* s, int fd) {
    rec("SSL_set_fd(" + std::to_string(fd) + ")");
    if (failing("SSL_set_fd")) return 0;
    if (auto* f = fs(s, "SSL_set_fd")) f->fd = fd;
    return 1;
}
static int sslop(const char* nm, SSL* s, void* rbuf, const void* wbuf, int n) {
    rec(string(nm) + "(" + std::to_string(n) + ")");
    auto* f = fs(s, nm);
    if (f && f->fd >= BASE) sk(f->fd, nm);
    auto r = scripted(rbuf ? "read" : wbuf ? "write" : "accept");
    if (!r) { ssl_err_code = SSL_ERROR_WANT_READ; return -1; }
    if (r->v > 0 && rbuf) memcpy(rbuf, r->data.data(), std::min<size_t>({static_cast<size_t>(n), r->data.size(), static_cast<size_t>(r->v)}));
    if (r->v > 0 && wbuf && f) socks[f->fd].tx.append(static_cast<const char*>(wbuf), std::min<long>(n, r->v));
    if (r->v <= 0) {
        ssl_err_code = r->e;
        if (ssl_err_push) errq.push_back(ssl_err_push);
    }
    return static_cast<int>(r->v);
}
int __wrap_SSL_read(SSL* s, void* b, int n) { return sslop("SSL_read", s, b ? b : reinterpret_cast<void*>(1), nullptr, n); }
int __wrap_SSL_write(SSL* s, const void* b, int n) { return sslop("SSL_write", s, nullptr, b ? b : reinterpret_cast<void*>(1), n); }
int __wrap_SSL_read_ex(SSL* s, void* b, size_t n, size_t* k) { int r = sslop("SSL_read", s, b, nullptr, static_cast<int>(n)); if (r > 0) *k = r; return r > 0; }
int __wrap_SSL_write_ex(SSL* s, const void* b, size_t n, size_t* k) { int r = sslop("SSL_write", s, nullptr, b, static_cast<int>(n)); if (r > 0) *k = r; return r > 0; }
int __wrap_SSL_accept(SSL* s) { return sslop("SSL_accept", s, nullptr, nullptr, 0); }
int __wrap_SSL_do_handshake(SSL* s) { return sslop("SSL_accept", s, nullptr, nullptr, 0); }
void __wrap_SSL_set_accept_state(SSL*) {}
int __wrap_SSL_get_error(const SSL* s, int ret) {
    fs(s, "SSL_get_error");
    if (ret > 0) return SSL_ERROR_NONE;
    if (!errq.empty()) return ERR_GET_LIB(errq.front()) == ERR_LIB_SYS ? SSL_ERROR_SYSCALL : SSL_ERROR_SSL;
    return ssl_err_code;
}
int __wrap_SSL_shutdown(SSL* s) {
    rec("SSL_shutdown");
    fs(s, "SSL_shutdown");
    if (auto r = scripted("shutdown")) return static_cast<int>(r->v);
    return 1;
}
BIO* __wrap_SSL_get_wbio(const SSL* s) { fs(s, "SSL_get_wbio"); return reinterpret_cast<BIO*>(&ssls); }
long __wrap_BIO_ctrl(BIO*, int, long, void*) { return 1; }
void __wrap_ERR_clear_error(void) { errq.clear(); }
unsigned long __wrap_ERR_get_error(void) { if (errq.empty()) return 0; auto e = errq.front(); errq.pop_front(); return e; }
unsigned long __wrap_ERR_peek_error(void) { return errq.empty() ? 0 : errq.front(); }
unsigned long __wrap_ERR_peek_last_error(void) { return errq.empty() ? 0 : errq.back(); }
void __wrap_ERR_print_errors_fp(FILE*) { errq.clear(); }
}

static uint16_t serve_port = 8443;
static string show(int fd) {
    auto it = socks.find(fd);
    if (it == socks.end() || !it->second.open) return "gone";
    return "nb=" + std::to_string(it->second.nonblock) + ",bound=" + it->second.bound + ",backlog=" + (it->second.backlog > 0 ? "yes" : it->second.backlog < 0 ? "no" : "0");
}
// ---- commands --------------------------------------------------------------------------------------
static string te(ion::TransportError e) {
    switch (e) {
        case ion::TransportError::WantReadOrWrite: return "want";
        case ion::TransportError::ConnectionClosed: return "closed";
        case ion::TransportError::ProtocolError: return "protocol";
        case ion::TransportError::WriteError: return "write";
        case ion::TransportError::OtherError: return "other";
        default: return "e" + std::to_string(static_cast<int>(e));
    }
}
static string tail() {
    string o = " |";
    for (auto& c : calls) o += " " + c;
    o += " | bad";
    for (auto& c : bad) o += " " + c;
    calls.clear();
    bad.clear();
    return o;
}
static void reset() {
    socks.clear(); accepts.clear(); fails.clear(); calls.clear(); bad.clear(); closed.clear(); script.clear(); errq.clear();
    next_fd = BASE; low = false; serve_port = 8443; epfds.clear(); kreg.clear(); pending.clear(); polled.clear(); ssl_err_push = 0; round_hook = nullptr;
    log_calls = true;
}
static string mask(const std::vector<ion::PollEvent>& v) {
    string o;
    for (auto& e : v) o += " " + std::to_string(e.fd) + ":" + std::to_string(static_cast<int>(e.events));
    return o;
}

static ion::Http2Server* running;
static void tell() {
    stop_in.clear();
    told = true;
    int e = errno;
    if (stop_how == 0) running->stop();
    else raise(stop_how);
    errno = e;
}

// SIGPIPE with standard output or error replaced for that moment: 'p' a pipe that is read, 'b' one nobody reads any more,
// 'f' a file, 's' a socket, '-' as it is
static void sigpipe(const std::string& kinds) {
    int saved[2], others[2] = {-1, -1};
    for (int i = 0; i < 2; i++) {
        saved[i] = dup(i + 1);
        int p[2] = {-1, -1};
        const char k = kinds[i];
        if (k == '-') continue;
        if (k == 'f') p[1] = open("/dev/null", O_WRONLY);
        else if ((k == 's' ? socketpair(AF_UNIX, SOCK_STREAM, 0, p) : pipe(p)) != 0) abort();
        dup2(p[1], i + 1);
        __real_close(p[1]);
        if (k == 'b') __real_close(p[0]);
        else others[i] = p[0];
    }
    in_sigpipe = true;
    raise(SIGPIPE);
    in_sigpipe = false;
    for (int i = 0; i < 2; i++) {
        dup2(saved[i], i + 1);
        __real_close(saved[i]);
        if (others[i] >= 0) __real_close(others[i]);
    }
    told = told || kinds.find('b') != std::string::npos;
}

static void serve(std::istringstream& args) {
    // the whole server on the scripted kernel; each wait of its loop prints the state and takes commands up to "go"
    log_calls = false;
    ion::ServerConfiguration cfg{};
    cfg.cleartext = true;
    std::optional<ion::Http2Server> server;
    server.emplace(cfg);
    running = &*server;
    told = false;
    string mode, again;
    args >> mode;
    if (mode == "signals") {
        attach_signals(*server);
        if (attach_again(*server)) again = " second handler accepted";
    }
    if (args >> stop_how) tell();      // told to stop before it starts
    server->router().add_route("/", "GET", [](const auto&) { return ion::HttpResponse{.status_code = 200, .body = {'h', 'i'}}; });
    server->router().add_route("/big", "GET", [](const auto&) { return ion::HttpResponse{.status_code = 200, .body = std::vector<uint8_t>(40000, 'x')}; });
    server->router().add_route("/throw", "GET", [](const auto&) -> ion::HttpResponse { throw std::runtime_error("x"); });
    std::map<int, size_t> sent;
    std::set<int> clients;
    int eint = 0;
    auto dump = [&](const char* w) {
        string o = w + again;
        o += " open";
        for (auto& [fd, s] : socks) if (s.open) o += " " + std::to_string(fd);
        o += " reg";
        for (auto& [fd, e] : kreg) o += " " + std::to_string(fd) + ":" + std::to_string(e.events & 0xffff) + (e.data.fd == fd ? "" : "!");
        o += " closed";
        for (int f : closed) o += " " + std::to_string(f);
        closed.clear();
        o += " bad";
        for (auto& b : bad) o += " " + b;
        bad.clear();
        o += " tx";
        for (auto& [fd, s] : socks) {
            size_t& k = sent[fd];
            if (s.tx.size() > k) o += " " + std::to_string(fd) + ":" + hex(s.tx.substr(k));
            k = s.tx.size();
        }
        o += " timeout " + std::to_string(wait_timeout) + " told " + std::to_string(told) + " lsn";
        for (auto& [fd, s] : socks) if (s.open && !clients.contains(fd)) o += " " + show(fd);
        std::cout << o << std::endl;
    };
    round_hook = [&](epoll_event* evs, int n) -> int {
        dump("wait");
        string line;
        for (;;) {
            if (!std::getline(std::cin, line)) _exit(0);
            std::istringstream in(line);
            string op;
            int fd;
            in >> op;
            if (op == "go") break;
            if (op == "accept") { int v; in >> v; accepts.push_back(v); if (v >= next_fd) next_fd = v + 1; sent[v] = 0; clients.insert(v); }
            else if (op == "rx") { string h; in >> fd >> h; socks[fd].rx.push_back(unhex(h)); }
            else if (op == "eof") { in >> fd; socks[fd].eof = true; }
            else if (op == "rderr") { in >> fd >> socks[fd].rderr; }
            else if (op == "wrerr") { in >> fd >> socks[fd].wrerr; }
            else if (op == "wcap") { in >> fd; in >> socks[fd].wcap; }
            else if (op == "force") { in >> fd; in >> socks[fd].force; }
            else if (op == "clock") { in >> clock_ns; }
            else if (op == "fail") { string nm; int k, e; in >> nm >> k >> e; fails[nm].push_back({k, e}); }
            else if (op == "waiterr") { in >> eint; }
            else if (op == "stopin") { in >> stop_how >> stop_in >> stop_after; }
            else if (op == "tell") { string w; in >> stop_how >> w; tell(); if (w == "intr") { errno = EINTR; return -1; } if (w == "timeout") return 0; break; }
            else if (op == "pipe") { string k; in >> k; std::cout.flush(); int e = errno; sigpipe(k); errno = e; return 0; }
            else if (op == "timeout") return 0;
            else if (op == "stop") { server->stop(ion::StopReason::Other); errno = EINTR; return -1; }
        }
        if (eint) { errno = eint; eint = 0; return -1; }
        int k = 0;
        for (auto& [fd, e] : kreg) {
            if (k >= n) break;
            auto& s = socks[fd];
            uint32_t m = s.force;
            bool listener = !clients.count(fd);
            if ((listener ? !accepts.empty() : (!s.rx.empty() || s.eof || s.rderr)) && (e.events & EPOLLIN)) m |= EPOLLIN;
            if (!listener && s.wcap != 0 && (e.events & EPOLLOUT)) m |= EPOLLOUT;
            s.force = 0;
            if (m) { evs[k].events = m; evs[k].data = e.data; k++; }
        }
        return k;
    };
    string end;
    try {
        server->start(serve_port);
        end = "returned";
    } catch (const std::exception& e) {
        end = string("threw ") + e.what();
    } catch (...) {
        end = "threw";
    }
    round_hook = nullptr;
    stop_in.clear();
    if (mode == "signals") detach_signals();
    server.reset();
    running = nullptr;
    std::replace(end.begin(), end.end(), '\n', ' ');
    dump(end.c_str());
}

template <class T> string copies(T& a, T& b) {
    string o;
    if constexpr (std::is_copy_constructible_v<T>) { T c(a); o += " copied"; }
    if constexpr (std::is_copy_assignable_v<T>) { b = a; o += " assigned"; }
    return o;
}

int main() {
    spdlog::set_level(spdlog::level::off);
    std::ios::sync_with_stdio(false);
    string line;
    std::map<int, std::optional<ion::SocketFd>> sf;
    std::map<int, std::optional<ion::TcpTransport>> tt;
    std::map<int, std::optional<ion::TlsTransport>> ts;
    std::optional<ion::TlsContext> ctx;
    std::unique_ptr<ion::Poller> poller;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        string op;
        in >> op;
        string out = "ok";
        if (op == "reset") {
            poller.reset(); sf.clear(); tt.clear(); ts.clear(); ctx.reset();
            reset();
        } else if (op == "script") {
            string nm, h; Res r; in >> nm >> r.v >> r.e >> h; r.data = unhex(h.empty() ? "-" : h);
            script[nm].push_back(r);
        } else if (op == "errpush") {
            in >> ssl_err_push;
        } else if (op == "stale") {
            unsigned long e; in >> e; errq.push_back(e);
        } else if (op == "fail") {
            string nm; int k, e; in >> nm >> k >> e; fails[nm].push_back({k, e});
        } else if (op == "low") {
            low = true;
            in >> next_fd;
        } else if (op == "mk") {
            out = std::to_string(mk());
        } else if (op == "mkat") {
            int fd; in >> fd; socks[fd] = Sock{};
        } else if (op == "shut") {
            int fd; in >> fd; socks[fd].open = false; kreg.erase(fd);
        } else if (op == "tcp" || op == "tls") {
            // tcp|tls read|write|accept|shutdown size
            string what; size_t n = 0; in >> what >> n;
            int fd = mk();
            std::unique_ptr<ion::Transport> t;
            if (op == "tcp") t = std::make_unique<ion::TcpTransport>(ion::SocketFd(fd));
            else {
                if (!ctx) ctx.emplace("/proc/self/exe", "/proc/self/exe");
                t = std::make_unique<ion::TlsTransport>(ion::SocketFd(fd), *ctx);
            }
            calls.clear();
            if (what == "read") {
                std::vector<uint8_t> v(n, 0xa5);
                Exact b(v);
                auto r = t->read({b.p.get(), b.n});
                out = r ? "ok " + std::to_string(*r) : te(r.error());
                out += " " + hex(std::vector<uint8_t>(b.p.get(), b.p.get() + n));
            } else if (what == "write") {
                std::vector<uint8_t> v(n);
                for (size_t i = 0; i < n; i++) v[i] = static_cast<uint8_t>(i * 7 + 1);
                Exact b(v);
                auto r = t->write({b.p.get(), b.n});
                out = r ? "ok " + std::to_string(*r) : te(r.error());
                out += " " + hex(socks[fd].tx);
            } else if (what == "accept") {
                auto r = t->handshake();
                out = r ? "ok" : te(r.error());
            } else {
                t->graceful_shutdown();
                out = "done";
            }
            out += tail();
            t.reset();
        } else if (op == "poller") {
            string k; in >> k;
            if (k == "epoll") poller = std::make_unique<ion::EPollPoller>();
            else if (k == "poll") poller = std::make_unique<ion::PollPoller>();
            else poller = ion::Poller::create();
        } else if (op == "pset") {
            int fd, e; in >> fd >> e;
            poller->set(fd, static_cast<ion::PollEventType>(e));
        } else if (op == "prem") {
            int fd; in >> fd;
            poller->remove(fd);
        } else if (op == "pend") {
            int fd; uint32_t e; in >> fd >> e;
            pending.push_back({fd, e});
        } else if (op == "ppoll") {
            long ms; in >> ms;
            polled.clear();
            auto r = poller->poll(std::chrono::milliseconds(ms));
            out = r ? "ok" + mask(*r) : r.error() == ion::PollError::Timeout ? "timeout" : r.error() == ion::PollError::InterruptedBySignal ? "intr" : "error";
            out += " | " + std::to_string(wait_timeout) + " |";
            std::sort(polled.begin(), polled.end(), [](auto& a, auto& b) { return a.fd < b.fd; });
            for (auto& p : polled) out += " " + std::to_string(p.fd) + ":" + std::to_string(p.events);
            for (auto& [fd, e] : kreg) out += " " + std::to_string(fd) + ":" + std::to_string(e.events) + (e.data.fd == fd ? "" : "!");
        } else if (op == "pdel") {
            poller.reset();
        } else if (op == "s" || op == "t" || op == "u") {
            // descriptors / TCP transports / TLS transports in slots
            string what; int i, j; in >> what >> i >> j;
            try {
                if (what == "open") out = std::to_string(mk());
                else if (op == "s") {
                    if (what == "new") sf[i].emplace(j);
                    else if (what == "mv") sf[i].emplace(std::move(*sf[j]));
                    else if (what == "as") *sf[i] = std::move(*sf[j]);
                    else if (what == "cl") sf[i]->close();
                    else if (what == "del") sf[i].reset();
                    else if (what == "get") out = std::to_string(static_cast<int>(*sf[i]));
                    else if (what == "ip") { auto r = sf[i]->client_ip(); out = r ? *r : "err"; }
                } else if (op == "t") {
                    if (what == "new") tt[i].emplace(std::move(*sf[j]));
                    else if (what == "mv") tt[i].emplace(std::move(*tt[j]));
                    else if (what == "as") *tt[i] = std::move(*tt[j]);
                    else if (what == "del") tt[i].reset();
                } else {
                    if (!ctx) ctx.emplace("/proc/self/exe", "/proc/self/exe");
                    if (what == "new") ts[i].emplace(std::move(*sf[j]), *ctx);
                    else if (what == "mv") ts[i].emplace(std::move(*ts[j]));
                    else if (what == "as") *ts[i] = std::move(*ts[j]);
                    else if (what == "del") ts[i].reset();
                }
            } catch (const std::exception& e) {
                out = "threw";
            }
            out += " closed";
            for (int f : closed) out += " " + std::to_string(f);
            closed.clear();
            out += " ssl " + std::to_string(ssl_live) + " bad";
            for (auto& b : bad) out += " " + b;
            bad.clear();
        } else if (op == "copy") {
            // what copying does where the class allows it: closes so far after copy, assignment and destruction
            int fd = mk(), fd2 = mk();
            {
                ion::SocketFd a(fd), b(fd2);
                ion::TcpTransport t{ion::SocketFd(mk())};
                out = copies(a, b) + copies(t, t);
            }
            out += " closed";
            for (int f : closed) out += " " + std::to_string(f);
            closed.clear();
            out += " open";
            for (auto& [f, s] : socks) if (s.open) out += " " + std::to_string(f);
            out += tail();
        } else if (op == "listener") {
            // listener port accepts: construct, listen, accept up to n, destroy
            int port, n; in >> port >> n;
            string o;
            {
                std::optional<ion::TcpListener> l;
                try {
                    l.emplace(static_cast<uint16_t>(port));
                    o = "made ";
                    l->listen();
                    o = "listening ";
                } catch (const std::exception&) { o += "threw "; }
                if (l) for (int i = 0; i < n; i++) {
                    try {
                        auto a = l->try_accept();
                        o += a ? "got:" + std::to_string(static_cast<int>(*a)) + ":" + std::to_string(socks[*a].nonblock) + " " : "none ";
                    } catch (const std::exception&) { o += "threw "; }
                }
                if (l) o += "nb:" + std::to_string(l->raw_fd() >= 0 && socks[l->raw_fd()].nonblock) + " ";
            }
            out = o + "closed";
            for (int f : closed) out += " " + std::to_string(f);
            closed.clear();
            out += " open";
            for (auto& [fd, s] : socks) if (s.open) out += " " + std::to_string(fd);
            out += tail();
        } else if (op == "lsn") {
            // lsn port n: construct a listener, listen, accept n times; the state of its socket after each step
            int port, n; in >> port >> n;
            {
                std::optional<ion::TcpListener> l;
                try {
                    l.emplace(static_cast<uint16_t>(port));
                    out = "made " + show(l->raw_fd());
                    l->listen();
                    out += " listening " + show(l->raw_fd());
                } catch (const std::exception&) { out += " threw"; }
                for (int i = 0; l && i < n; i++) {
                    try {
                        auto a = l->try_accept();
                        int fd = a ? static_cast<int>(*a) : -1;
                        out += a ? " got:" + std::to_string(fd) + ":" + std::to_string(socks[fd].nonblock) + ":" + std::to_string(socks[fd].opts[{IPPROTO_TCP, TCP_NODELAY}]) : " none";
                    } catch (const std::exception&) { out += " threw"; }
                }
                if (l && n) out += " end " + show(l->raw_fd());
            }
            string op_;
            for (auto& [fd, s] : socks) if (s.open) op_ += " " + std::to_string(fd);
            out += " open" + op_;
            closed.clear();
            out += tail();
        } else if (op == "port") {
            in >> serve_port;
        } else if (op == "peer") {
            int fd; string h; in >> fd >> h;
            socks[fd].peer = unhex(h);
        } else if (op == "accept") {
            int v; in >> v; accepts.push_back(v); if (v >= next_fd) next_fd = v + 1;
        } else if (op == "context") {
            // context cert key: construct and destroy
            string a, b; in >> a >> b;
            int before = 0, after = 0;
            try {
                ion::TlsContext c(str(a), str(b));
                out = "made";
            } catch (const std::exception& e) { out = "threw"; }
            for (auto& c : ctxs) if (!c.freed) after++;
            if (ctx) before = 1;
            out += " leaked " + std::to_string(after - before) + tail();
        } else if (op == "serve") {
            serve(in);
            continue;
        } else {
            out = "?";
        }
        std::cout << out << std::endl;
    }
}
