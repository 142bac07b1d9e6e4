from refac import R
P = 'lib/pollers/epoll_poller.cpp'
R('epoll-ternary', 'C22', (P, '''    uint32_t result = 0;
    if (has_event(events, PollEventType::Read)) {
        result |= EPOLLIN;
    }
    if (has_event(events, PollEventType::Write)) {
        result |= EPOLLOUT;
    }
    return result;''', '''    const uint32_t in = has_event(events, PollEventType::Read) ? EPOLLIN : 0U;
    const uint32_t out = has_event(events, PollEventType::Write) ? EPOLLOUT : 0U;
    return in | out;'''), (P, '''    for (int i = 0; i < num_events; ++i) {
        result.push_back({events_buffer_[i].data.fd, from_epoll_events(events_buffer_[i].events)});
    }''', '''    for (const auto& event : std::span(events_buffer_).first(num_events)) {
        result.push_back({event.data.fd, from_epoll_events(event.events)});
    }'''), (P, '#include <unistd.h>\n', '#include <unistd.h>\n\n#include <span>\n'))
R('epoll-set-find', 'C22', (P, '''    const int op = registered_fds_.contains(fd) ? EPOLL_CTL_MOD : EPOLL_CTL_ADD;
''', '''    int op = EPOLL_CTL_ADD;
    if (registered_fds_.find(fd) != registered_fds_.end()) {
        op = EPOLL_CTL_MOD;
    }
'''), (P, '''    registered_fds_[fd] = event_types;''', '''    registered_fds_.insert_or_assign(fd, event_types);'''))
R('epoll-poll-order', 'C22', (P, '''    if (num_events == 0) {
        return std::unexpected{PollError::Timeout};
    }
    if (num_events < 0) {
        if (errno == EINTR) {
            return std::unexpected{PollError::InterruptedBySignal};
        }
        return std::unexpected{PollError::Error};
    }
''', '''    if (num_events < 0) {
        return std::unexpected{errno == EINTR ? PollError::InterruptedBySignal : PollError::Error};
    }
    if (num_events == 0) {
        return std::unexpected{PollError::Timeout};
    }
'''), (P, '''    for (int i = 0; i < num_events; ++i) {
        result.push_back({events_buffer_[i].data.fd, from_epoll_events(events_buffer_[i].events)});
    }''', '''    int i = 0;
    while (i < num_events) {
        const epoll_event& ev = events_buffer_[static_cast<size_t>(i)];
        result.push_back(PollEvent{ev.data.fd, from_epoll_events(ev.events)});
        i++;
    }'''))
PP = 'lib/pollers/poll_poller.cpp'
R('poll-loops', 'C22', (PP, '''    for (const auto& [fd, event_types] : fd_events_) {
        poll_fds.push_back({fd, event_from_poll_event(event_types), 0});
    }
''', '''    for (const auto& entry : fd_events_) {
        pollfd pfd{};
        pfd.fd = entry.first;
        pfd.events = event_from_poll_event(entry.second);
        poll_fds.push_back(pfd);
    }
'''), (PP, '''    for (const auto& pfd : poll_fds) {
        result.push_back({pfd.fd, event_to_poll_event(pfd.revents)});
    }''', '''    for (size_t i = 0; i < poll_fds.size(); ++i) {
        result.push_back({poll_fds[i].fd, event_to_poll_event(poll_fds[i].revents)});
    }'''))
R('poll-skip-none', 'C22', (PP, '''    for (const auto& pfd : poll_fds) {
        result.push_back({pfd.fd, event_to_poll_event(pfd.revents)});
    }''', '''    for (const auto& pfd : poll_fds) {
        const auto types = event_to_poll_event(pfd.revents);
        result.emplace_back(pfd.fd, types);
    }'''))
T = 'lib/transports/tcp_transport.cpp'
R('tcp-read-order', 'C21', (T, '''    if (bytes_read < 0) {
        if (errno == EAGAIN || errno == EWOULDBLOCK) {
            spdlog::trace("TCP want read");
            return std::unexpected(TransportError::WantReadOrWrite);
        }
        spdlog::error("TCP read error: {}", strerror(errno));
        return std::unexpected(TransportError::OtherError);
    }
    if (bytes_read == 0) {
        spdlog::debug("TCP connection closed");
        return std::unexpected(TransportError::ConnectionClosed);
    }
    spdlog::trace("successfully read {} bytes from TCP socket", bytes_read);
    return bytes_read;''', '''    const int error = errno;
    if (bytes_read > 0) {
        return bytes_read;
    }
    if (bytes_read == 0) {
        return std::unexpected(TransportError::ConnectionClosed);
    }
    const bool again = error == EAGAIN || error == EWOULDBLOCK;
    return std::unexpected(again ? TransportError::WantReadOrWrite : TransportError::OtherError);'''))
R('tcp-write-helper', 'C21', (T, '''std::expected<ssize_t, TransportError> TcpTransport::write(std::span<const uint8_t> buffer) const {''', '''static bool would_block(int error) {
    return error == EAGAIN || error == EWOULDBLOCK;
}

std::expected<ssize_t, TransportError> TcpTransport::write(std::span<const uint8_t> buffer) const {'''), (T, '''    if (bytes_written < 0) {
        if (errno == EAGAIN || errno == EWOULDBLOCK) {
            spdlog::trace("TCP want write");
            return std::unexpected(TransportError::WantReadOrWrite);
        }
        spdlog::error''', '''    if (bytes_written == -1) {
        if (would_block(errno)) {
            return std::unexpected(TransportError::WantReadOrWrite);
        }
        spdlog::error'''))
S = 'lib/transports/tls_transport.cpp'
R('tls-map-error', 'C21', (S, '''        switch (const int ssl_error = SSL_get_error(ssl_, bytes_written)) {
            case SSL_ERROR_WANT_READ:
                spdlog::trace("SSL want read");
                return std::unexpected(TransportError::WantReadOrWrite);
            case SSL_ERROR_WANT_WRITE:
                spdlog::trace("SSL want write");
                return std::unexpected(TransportError::WantReadOrWrite);
            case SSL_ERROR_ZERO_RETURN:
                spdlog::debug("TLS connection closed");
                return std::unexpected(TransportError::ConnectionClosed);
            case SSL_ERROR_SSL:
                spdlog::error("TLS protocol error (SSL_ERROR_SSL)");
                return std::unexpected(TransportError::ProtocolError);
            default:
                spdlog::error("TLS protocol error (SSL_ERROR={})", ssl_error);
                return std::unexpected(TransportError::ProtocolError);
        }''', '''        return std::unexpected(map_error(SSL_get_error(ssl_, bytes_written), TransportError::ProtocolError));'''),
  (S, '''        switch (const int ssl_error = SSL_get_error(ssl_, bytes_read)) {
            case SSL_ERROR_WANT_READ:
                spdlog::trace("SSL want read");
                return std::unexpected(TransportError::WantReadOrWrite);
            case SSL_ERROR_WANT_WRITE:
                spdlog::trace("SSL want write");
                return std::unexpected(TransportError::WantReadOrWrite);
            case SSL_ERROR_ZERO_RETURN:
                spdlog::debug("TLS connection closed");
                return std::unexpected(TransportError::ConnectionClosed);
            case SSL_ERROR_SSL:
                spdlog::error("TLS protocol error (SSL_ERROR_SSL)");
                return std::unexpected(TransportError::ProtocolError);
            default:
                spdlog::error("TLS read error (SSL_ERROR_*): {}", ssl_error);
                return std::unexpected(TransportError::OtherError);
        }''', '''        return std::unexpected(map_error(SSL_get_error(ssl_, bytes_read), TransportError::OtherError));'''),
  (S, '''std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buffer) const {''', '''static TransportError map_error(int ssl_error, TransportError other) {
    switch (ssl_error) {
        case SSL_ERROR_WANT_READ:
        case SSL_ERROR_WANT_WRITE:
            return TransportError::WantReadOrWrite;
        case SSL_ERROR_ZERO_RETURN:
            return TransportError::ConnectionClosed;
        case SSL_ERROR_SSL:
            return TransportError::ProtocolError;
        default:
            return other;
    }
}

std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buffer) const {'''))
R('tls-handshake-if', 'C21', (S, '''    switch (const int ssl_error = SSL_get_error(ssl_, result)) {
        case SSL_ERROR_ZERO_RETURN:
            spdlog::debug("TLS connection closed by peer before handshake (likely health check)");
            return std::unexpected(TransportError::ConnectionClosed);
        case SSL_ERROR_WANT_READ:
        case SSL_ERROR_WANT_WRITE: {
            spdlog::trace("TLS handshake want read/write");
            return std::unexpected(TransportError::WantReadOrWrite);
        }
        case SSL_ERROR_SSL: {
            const unsigned long err = ERR_get_error();
            if (ERR_GET_REASON(err) == SSL_R_UNEXPECTED_EOF_WHILE_READING) {
                spdlog::info("client disconnected during handshake (EOF)");
                return std::unexpected(TransportError::ConnectionClosed);
            }
            [[fallthrough]];
        }
        default: {
            char err_buf[256];
            ERR_error_string_n(ERR_get_error(), err_buf, sizeof(err_buf));
            spdlog::error("TLS handshake failed: ({}) {}", ssl_error, err_buf);
            return std::unexpected(TransportError::ProtocolError);
        }
    }''', '''    const int ssl_error = SSL_get_error(ssl_, result);
    if (ssl_error == SSL_ERROR_WANT_READ || ssl_error == SSL_ERROR_WANT_WRITE) {
        return std::unexpected(TransportError::WantReadOrWrite);
    }
    if (ssl_error == SSL_ERROR_ZERO_RETURN) {
        return std::unexpected(TransportError::ConnectionClosed);
    }
    if (ssl_error == SSL_ERROR_SSL &&
        ERR_GET_REASON(ERR_peek_error()) == SSL_R_UNEXPECTED_EOF_WHILE_READING) {
        return std::unexpected(TransportError::ConnectionClosed);
    }
    char err_buf[256];
    ERR_error_string_n(ERR_get_error(), err_buf, sizeof(err_buf));
    spdlog::error("TLS handshake failed: ({}) {}", ssl_error, err_buf);
    return std::unexpected(TransportError::ProtocolError);'''))
K = 'lib/socket_fd.cpp'
R('fd-exchange', 'C23', (K, '''SocketFd::SocketFd(SocketFd&& other) noexcept : fd_(other.fd_) {
    other.fd_ = -1;
}''', '''SocketFd::SocketFd(SocketFd&& other) noexcept : fd_(std::exchange(other.fd_, -1)) {}'''), (K, '''    if (this != &other) {
        close();
        fd_ = other.fd_;
        other.fd_ = -1;
    }
    return *this;''', '''    if (this == &other) {
        return *this;
    }
    close();
    fd_ = std::exchange(other.fd_, -1);
    return *this;'''), (K, '''    if (fd_ >= 0) {
        spdlog::trace("closing socket fd {}", fd_);
        ::close(fd_);
        fd_ = -1;
    }''', '''    if (fd_ < 0) {
        return;
    }
    const int fd = std::exchange(fd_, -1);
    ::close(fd);'''))
R('fd-swap', 'C23', (K, '''    if (this != &other) {
        close();
        fd_ = other.fd_;
        other.fd_ = -1;
    }
    return *this;''', '''    if (this != &other) {
        const int incoming = other.fd_;
        other.fd_ = -1;
        close();
        fd_ = incoming;
    }
    return *this;'''))
L = 'lib/tcp_listener.cpp'
R('listener-accept', 'C23 C18', (L, '''    if (fd >= 0) {
        auto client_fd = SocketFd(fd);
        set_nonblocking_socket(client_fd);  // required for Linux. macOS inherits from server_fd!
        set_tcp_no_delay(client_fd);
        return client_fd;
    }

    if (errno == EAGAIN || errno == EINTR) {
        return std::nullopt;
    }

    throw std::system_error(errno, std::system_category(), "accept");''', '''    if (fd < 0) {
        const int error = errno;
        if (error != EAGAIN && error != EINTR) {
            throw std::system_error(error, std::system_category(), "accept");
        }
        return {};
    }

    SocketFd client_fd{fd};
    set_nonblocking_socket(client_fd);
    set_tcp_no_delay(client_fd);
    return std::move(client_fd);'''))
R('listener-helper', 'C23', (L, '''    if (setsockopt(server_fd_, SOL_SOCKET, SO_REUSEADDR, &ENABLE_OPT, sizeof(ENABLE_OPT))) {
        throw std::system_error(errno, std::system_category(), "setsockopt SO_REUSEADDR");
    }''', '''    const int rc = setsockopt(server_fd_, SOL_SOCKET, SO_REUSEADDR, &ENABLE_OPT, sizeof(ENABLE_OPT));
    if (rc != 0) {
        throw_errno("setsockopt SO_REUSEADDR");
    }'''), (L, '''static constexpr int ENABLE_OPT = 1;
''', '''static constexpr int ENABLE_OPT = 1;

[[noreturn]] static void throw_errno(const char* what) {
    throw std::system_error(errno, std::system_category(), what);
}
'''), (L, '''    if (server_fd < 0) {
        throw std::system_error(errno, std::system_category(), "socket");
    }
    server_fd_ = SocketFd(server_fd);''', '''    if (server_fd == -1) {
        throw_errno("socket");
    }
    server_fd_ = SocketFd{server_fd};'''))
V = 'lib/http2_server.cpp'
VH = 'lib/http2_server.h'
R('server-reap-post', 'C18 C19 C26', (V, '''    for (auto it = connections_.begin(); it != connections_.end();) {
        const auto& conn = it->second;
        if (conn->has_timed_out()) {
            spdlog::warn("closing connection due to inactivity (fd: {})", it->first);
            poller.remove(it->first);
            it = connections_.erase(it);
        } else {
            ++it;
        }
    }''', '''    auto it = connections_.begin();
    while (it != connections_.end()) {
        if (!it->second->has_timed_out()) {
            ++it;
            continue;
        }
        poller.remove(it->first);
        connections_.erase(it++);
    }'''))
R('server-reap-erase-if', 'C18 C19', (V, '''    for (auto it = connections_.begin(); it != connections_.end();) {
        const auto& conn = it->second;
        if (conn->has_timed_out()) {
            spdlog::warn("closing connection due to inactivity (fd: {})", it->first);
            poller.remove(it->first);
            it = connections_.erase(it);
        } else {
            ++it;
        }
    }''', '''    std::erase_if(connections_, [&poller](const auto& entry) {
        const auto& [fd, conn] = entry;
        if (!conn->has_timed_out()) {
            return false;
        }
        poller.remove(fd);
        return true;
    });'''))
R('server-reap-collect', 'C18 C19', (V, '''    for (auto it = connections_.begin(); it != connections_.end();) {
        const auto& conn = it->second;
        if (conn->has_timed_out()) {
            spdlog::warn("closing connection due to inactivity (fd: {})", it->first);
            poller.remove(it->first);
            it = connections_.erase(it);
        } else {
            ++it;
        }
    }''', '''    std::vector<int> idle;
    for (const auto& [fd, conn] : connections_) {
        if (conn->has_timed_out()) {
            idle.push_back(fd);
        }
    }
    for (const int fd : idle) {
        poller.remove(fd);
        connections_.erase(fd);
    }'''))
R('server-drop-helper', 'C18 C19 C26', (V, '''        spdlog::debug("poll indicated connection closed");
        connections_.erase(it);
        poller.remove(fd);
        return;''', '''        drop_connection(poller, fd);
        return;'''), (V, '''            spdlog::info("closing connection");
            poller.remove(fd);
            connections_.erase(it);
            break;''', '''            drop_connection(poller, fd);
            break;'''), (V, '''void Http2Server::handle_connection_events(''', '''void Http2Server::drop_connection(Poller& poller, int fd) {
    spdlog::info("closing connection");
    poller.remove(fd);
    connections_.erase(fd);
}

void Http2Server::handle_connection_events('''), (VH, '''    void reap_idle_connections(''', '''    void drop_connection(Poller& poller, int fd);
    void reap_idle_connections('''))
R('server-events-contains', 'C18', (V, '''    auto it = connections_.find(fd);
    if (it == connections_.end()) {
        return;
    }
''', '''    const auto it = connections_.find(fd);
    const bool known = it != connections_.end();
    if (!known) {
        return;
    }
'''), (V, '''    const auto& conn = it->second;
    switch (conn->process()) {
        case Http2ProcessResult::WantWrite:
            spdlog::trace("will poll write events for fd {}", fd);
            poller.set(fd, PollEventType::Read | PollEventType::Write);
            break;
        case Http2ProcessResult::WantRead:
            // interest is already Read (or was reset above), just keep waiting
            break;
        case Http2ProcessResult::DiscardConnection:
            spdlog::info("closing connection");
            poller.remove(fd);
            connections_.erase(it);
            break;
    }''', '''    const auto outcome = it->second->process();
    if (outcome == Http2ProcessResult::WantWrite) {
        poller.set(fd, PollEventType::Read | PollEventType::Write);
    } else if (outcome == Http2ProcessResult::DiscardConnection) {
        connections_.erase(it);
        poller.remove(fd);
    }'''))
R('server-establish-emplace', 'C18 C24', (V, '''    auto conn = std::make_unique<Http2Connection>(std::move(transport), client_ip_res.value_or(""),
                                                  router_);
    connections_[raw_fd] = std::move(conn);
''', '''    connections_.insert_or_assign(
        raw_fd, std::make_unique<Http2Connection>(std::move(transport), client_ip_res.value_or(""), router_));
'''), (V, '''    if (config_.cleartext) {
        return std::make_unique<TcpTransport>(std::move(fd));
    }
    return std::make_unique<TlsTransport>(std::move(fd), *tls_ctx_);''', '''    if (!config_.cleartext) {
        return std::make_unique<TlsTransport>(std::move(fd), tls_ctx_.value());
    }
    return std::make_unique<TcpTransport>(std::move(fd));'''))
R('server-incoming-invert', 'C18', (V, '''    const bool at_capacity = connections_.size() >= MAX_CONNECTIONS;
    if (!at_capacity) {
        establish_conn(listener, poller);
    } else {
        if (const auto overflow = listener.try_accept()) {
            spdlog::warn("server at capacity. rejecting new connection from {}",
                         overflow->client_ip().value_or("unknown IP"));
        }
    }''', '''    if (connections_.size() < MAX_CONNECTIONS) {
        establish_conn(listener, poller);
        return;
    }
    const auto overflow = listener.try_accept();
    if (overflow.has_value()) {
        spdlog::warn("server at capacity. rejecting new connection");
    }'''))
R('server-start-helper', 'C18 C19 C26', (V, '''        auto events = poller->poll(POLL_TIMEOUT);
        if (!events) {
            continue;
        }
        for (auto& [fd, poll_events] : *events) {
            if (fd == listener_fd) {
                try {
                    handle_incoming_connection(listener, *poller);
                } catch (const std::exception& e) {
                    spdlog::error("failed to accept connection: {}", e.what());
                }
            } else {
                handle_connection_events(*poller, fd, poll_events);
            }
        }
''', '''        run_once(listener, *poller);
'''), (V, '''void Http2Server::start(uint16_t port) {''', '''void Http2Server::run_once(TcpListener& listener, Poller& poller) {
    const auto events = poller.poll(POLL_TIMEOUT);
    if (!events) {
        return;
    }
    const int listener_fd = listener.raw_fd();
    for (const auto& event : *events) {
        if (event.fd != listener_fd) {
            handle_connection_events(poller, event.fd, event.events);
            continue;
        }
        try {
            handle_incoming_connection(listener, poller);
        } catch (const std::exception& e) {
            spdlog::error("failed to accept connection: {}", e.what());
        }
    }
}

void Http2Server::start(uint16_t port) {'''), (VH, '''    void reap_idle_connections(''', '''    void run_once(TcpListener& listener, Poller& poller);
    void reap_idle_connections('''))
R('server-start-index', 'C18 C26', (V, '''        auto events = poller->poll(POLL_TIMEOUT);
        if (!events) {
            continue;
        }
        for (auto& [fd, poll_events] : *events) {''', '''        const auto polled = poller->poll(POLL_TIMEOUT);
        if (!polled.has_value()) {
            continue;
        }
        const auto& events = polled.value();
        for (size_t i = 0; i < events.size(); ++i) {
            const int fd = events[i].fd;
            const auto poll_events = events[i].events;'''))
R('server-start-nested', 'C18 C19 C26', (V, '''        if (!events) {
            continue;
        }
        for (auto& [fd, poll_events] : *events) {
            if (fd == listener_fd) {
                try {
                    handle_incoming_connection(listener, *poller);
                } catch (const std::exception& e) {
                    spdlog::error("failed to accept connection: {}", e.what());
                }
            } else {
                handle_connection_events(*poller, fd, poll_events);
            }
        }
''', '''        if (events) {
            for (const auto& [fd, poll_events] : events.value()) {
                if (fd != listener_fd) {
                    handle_connection_events(*poller, fd, poll_events);
                } else {
                    try {
                        handle_incoming_connection(listener, *poller);
                    } catch (const std::exception& e) {
                        spdlog::error("failed to accept connection: {}", e.what());
                    }
                }
            }
        }
'''))
R('server-start-forever', 'C18 C26', (V, '''    while (!user_req_termination_) {
        reap_idle_connections(*poller);
''', '''    for (;;) {
        if (user_req_termination_) {
            break;
        }
        reap_idle_connections(*poller);
'''))
R('config-validate', 'C24', ('lib/server_config.cpp', '''    if (!cleartext) {
        if (!cert_path) {
            throw std::runtime_error("TLS certificate path not set.");
        }
        if (!key_path) {
            throw std::runtime_error("TLS private key path not set.");
        }
    }''', '''    if (cleartext) {
        return;
    }
    if (!cert_path.has_value()) {
        throw std::runtime_error("TLS certificate path not set.");
    }
    if (!key_path.has_value()) {
        throw std::runtime_error("TLS private key path not set.");
    }'''), ('app/args.cpp', '''    auto config = ion::ServerConfiguration{};
    config.cleartext = cleartext;
    if (!cert_path.empty()) {
        config.cert_path = cert_path;
    }
    if (!key_path.empty()) {
        config.key_path = key_path;
    }
    return config;''', '''    ion::ServerConfiguration config;
    if (!key_path.empty()) {
        config.key_path.emplace(key_path);
    }
    if (!cert_path.empty()) {
        config.cert_path.emplace(cert_path);
    }
    config.cleartext = cleartext;
    return config;'''))
X = 'lib/transports/tls_context.cpp'
R('tlsctx-helper', 'C24,C31', (X, '''    if (SSL_CTX_use_certificate_file(ctx_, cert_path.c_str(), SSL_FILETYPE_PEM) <= 0) {
        SSL_CTX_free(ctx_);
        throw std::runtime_error("failed to load certificate file");
    }

    if (SSL_CTX_use_PrivateKey_file(ctx_, key_path.c_str(), SSL_FILETYPE_PEM) <= 0) {
        SSL_CTX_free(ctx_);
        throw std::runtime_error("failed to load private key file");
    }

    if (!SSL_CTX_check_private_key(ctx_)) {
        SSL_CTX_free(ctx_);
        throw std::runtime_error("private key does not match certificate");
    }
''', '''    const auto require = [this](bool ok, const char* message) {
        if (!ok) {
            SSL_CTX_free(ctx_);
            throw std::runtime_error(message);
        }
    };
    require(SSL_CTX_use_certificate_file(ctx_, cert_path.c_str(), SSL_FILETYPE_PEM) == 1,
            "failed to load certificate file");
    require(SSL_CTX_use_PrivateKey_file(ctx_, key_path.c_str(), SSL_FILETYPE_PEM) == 1,
            "failed to load private key file");
    require(SSL_CTX_check_private_key(ctx_) != 0, "private key does not match certificate");
'''))
