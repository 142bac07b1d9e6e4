from bugs import B
H = 'lib/http2_conn.cpp'
S = 'lib/http2_server.cpp'
R = 'lib/router.cpp'
E = 'lib/pollers/epoll_poller.cpp'
P = 'lib/pollers/poll_poller.cpp'
T = 'lib/transports/tcp_transport.cpp'
L = 'lib/transports/tls_transport.cpp'
D = 'lib/hpack/dynamic_table.cpp'
DEC = 'lib/hpack/header_block_decoder.cpp'
ENC = 'lib/hpack/header_block_encoder.cpp'
A = 'lib/access_log.cpp'
F = 'lib/file_reader.cpp'
SF = 'lib/static_file_handler.cpp'
LI = 'lib/tcp_listener.cpp'
SO = 'lib/socket_fd.cpp'
M = 'app/main.cpp'
AR = 'app/args.cpp'
ST = 'app/server_stats.cpp'

B('q-drop-4m', 'C13', (H, '    write_buffer_.insert(write_buffer_.end(), data.begin(), data.end());', '''    if (write_buffer_.size() + data.size() > 4 * 1024 * 1024) {
        spdlog::warn("write buffer full");
        return;
    }
    write_buffer_.insert(write_buffer_.end(), data.begin(), data.end());'''))
B('q-drop-4m-c11', 'C11', (H, '    write_buffer_.insert(write_buffer_.end(), data.begin(), data.end());', '''    if (write_buffer_.size() + data.size() > 4 * 1024 * 1024) {
        spdlog::warn("write buffer full");
        return;
    }
    write_buffer_.insert(write_buffer_.end(), data.begin(), data.end());'''))
B('goaway-latest', 'C14', (H, 'last_stream_id_ = std::max(last_stream_id_, frame.stream_id());', 'last_stream_id_ = frame.stream_id();'))
B('len-not-304', 'C12', (H, '    if (!resp.body.empty()) {\n        resp.headers.push_back', '    if (!resp.body.empty() && resp.status_code != 304) {\n        resp.headers.push_back'))
B('catch-runtime', 'C12', (H, '''        } catch (const std::exception& e) {
            spdlog::error("error processing request: {}", e.what());
            resp = HttpResponse{.status_code = 500};
        } catch (...) {
            spdlog::error("error processing request: unknown exception");
            resp = HttpResponse{.status_code = 500};
        }''', '''        } catch (const std::logic_error& e) {
            spdlog::error("error processing request: {}", e.what());
            resp = HttpResponse{.status_code = 400};
        } catch (...) {
            spdlog::error("error processing request: unknown exception");
            resp = HttpResponse{.status_code = 500};
        }'''))
B('discard-clear', 'C10', (H, '    read_buffer_.erase(read_buffer_.begin(), read_buffer_.begin() + length);', '''    if (length > MAX_FRAME_SIZE) {
        read_buffer_.clear();
        return;
    }
    read_buffer_.erase(read_buffer_.begin(), read_buffer_.begin() + length);'''))
B('table-zero', 'C07', (H, 'if (setting.identifier == SETTINGS_HEADER_TABLE_SIZE) {', 'if (setting.identifier == SETTINGS_HEADER_TABLE_SIZE && setting.value != 0) {'))
B('table-first', 'C07', (H, '''                            std::min<size_t>(setting.value, PROTOCOL_DEFAULT_TABLE_SIZE));
''', '''                            std::min<size_t>(setting.value, PROTOCOL_DEFAULT_TABLE_SIZE));
                        break;
'''))
B('table-min-lost', 'C07', (ENC, 'std::min(pending_min_table_size_.value_or(new_sz), new_sz);', 'new_sz;'))
B('table-same', 'C07', (ENC, '    if (new_sz == dynamic_table_.max_size()) {\n        return;', '    if (new_sz >= dynamic_table_.max_size()) {\n        return;'))
B('idle-while-writing', 'C19', (H, '    return (std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT;', '    return write_buffer_.empty() &&\n           (std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT;'))
B('idle-preface', 'C19', (H, '    return (std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT;', '    return state_ != Http2ConnectionState::Closing &&\n           (std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT;'))
B('no-flush-activity', 'C19', (H, '    update_last_activity();\n    spdlog::trace("flushed', '    if (write_buffer_.size() == static_cast<size_t>(*result)) {\n        update_last_activity();\n    }\n    spdlog::trace("flushed'))
B('hangup-readable', 'C18', (S, '''    if (has_event(poll_events, PollEventType::Error) ||
        has_event(poll_events, PollEventType::Hangup)) {''', '''    if (has_event(poll_events, PollEventType::Error) ||
        (has_event(poll_events, PollEventType::Hangup) &&
         !has_event(poll_events, PollEventType::Read))) {'''))
B('capacity-wait', 'C18', (S, '''        if (const auto overflow = listener.try_accept()) {
            spdlog::warn("server at capacity. rejecting new connection from {}",
                         overflow->client_ip().value_or("unknown IP"));
        }''', '''        spdlog::warn("server at capacity. rejecting new connection");'''))
B('emplace', 'C18', (S, '    connections_[raw_fd] = std::move(conn);', '    connections_.emplace(raw_fd, std::move(conn));'))
B('reap-registered', 'C19', (S, '            poller.remove(it->first);\n            it = connections_.erase(it);', '            it = connections_.erase(it);'))
B('reap-one', 'C19', (S, '            it = connections_.erase(it);\n', '            it = connections_.erase(it);\n            break;\n'))
B('reap-idle-only', 'C19', (S, '''    while (!user_req_termination_) {
        reap_idle_connections(*poller);

        auto events = poller->poll(POLL_TIMEOUT);
        if (!events) {
            continue;
        }''', '''    while (!user_req_termination_) {
        auto events = poller->poll(POLL_TIMEOUT);
        if (!events) {
            reap_idle_connections(*poller);
            continue;
        }'''))
B('poll-error-stop', 'C26', (S, '''        if (!events) {
            continue;
        }''', '''        if (!events) {
            if (events.error() == PollError::Error) {
                break;
            }
            continue;
        }'''))
B('write-interest-kept', 'C18', (S, '''    if (has_event(poll_events, PollEventType::Write)) {
        poller.set(fd, PollEventType::Read);
    }''', '''    if (has_event(poll_events, PollEventType::Write) &&
        has_event(poll_events, PollEventType::Read)) {
        poller.set(fd, PollEventType::Read);
    }'''))
B('static-first', 'C15', (R, '''                        return static_handler->handle(path, is_head);
                    };
''', '''                        return static_handler->handle(path, is_head);
                    };
                    break;
'''))
B('static-wins', 'C15', (R, '    if (!found) {\n        if (method', '    if (!found || method == "HEAD") {\n        if (method'))
B('mw-order', 'C15', (R, 'return current_chain(mw(std::move(h)));', 'return mw(current_chain(std::move(h)));'))
B('mw-404', 'C15', (R, '    return middleware_chain_(std::move(target));', '    return found || !static_handlers_.empty() ? middleware_chain_(std::move(target)) : target;'))
B('dt-evict-all', 'C05', (D, '    while (table_size_ > max_table_size_) {', '    while (table_size_ >= max_table_size_ && !table_.empty()) {'))
B('dt-toobig-keep', 'C05', (D, '        table_.clear();\n        table_size_ = 0;\n        return;', '        return;'))
B('dt-find-last', 'C05', (D, '        return header.name == hdr.name && header.value == hdr.value;', '        return header.name == hdr.name && header.value.compare(0, 4096, hdr.value) == 0 && header.value.size() >= hdr.value.size();'))
B('log-late', 'C20', (H, '            AccessLog::log_request(*hdrs, resp.status_code, resp.body.size(), client_ip_);', '            if (resp.status_code < 500 || !resp.body.empty()) {\n                AccessLog::log_request(*hdrs, resp.status_code, resp.body.size(), client_ip_);\n            }'))
B('log-del', 'C20', (A, 'octet < 0x20 || octet == 0x7f', 'octet < 0x20'))
B('log-ip', 'C20', (A, '(client_ip.empty() ? "-" : client_ip)', '(client_ip.size() < 7 ? "-" : client_ip)'))
B('tls-epipe', 'C21', (T, '        if (errno == EAGAIN || errno == EWOULDBLOCK) {\n            spdlog::trace("TCP want write");', '        if (errno == EAGAIN || errno == EWOULDBLOCK || errno == ENOBUFS) {\n            spdlog::trace("TCP want write");'))
B('tls-shutdown-once', 'C21', (L, '    if (const int ret = SSL_shutdown(ssl_); ret == 0) {', '    if (const int ret = SSL_shutdown(ssl_); ret < 0) {'))
B('tls-clear-late', 'C21', (L, '''    ERR_clear_error();  // SSL_get_error() requires an empty error queue
    const int result = SSL_accept(ssl_);''', '''    const int result = SSL_accept(ssl_);'''))
B('tls-move-leak', 'C31', (L, '''    if (ssl_) {
        SSL_free(ssl_);
        ssl_ = nullptr;
    }
    client_fd_ = std::move(other.client_fd_);''', '''    client_fd_ = std::move(other.client_fd_);'''))
B('poll-none', 'C22', (P, '    if (events & POLLHUP) {', '    if ((events & POLLHUP) && !(events & POLLIN)) {'))
B('epoll-add-only', 'C22', (E, 'registered_fds_.contains(fd) ? EPOLL_CTL_MOD : EPOLL_CTL_ADD;', 'registered_fds_.contains(fd) && registered_fds_[fd] != event_types ? EPOLL_CTL_MOD : EPOLL_CTL_ADD;'))
B('epoll-trunc', 'C22', (E, '    if (num_events == static_cast<int>(events_buffer_.size())) {\n        events_buffer_.resize(events_buffer_.size() * 2);', '    if (num_events < static_cast<int>(events_buffer_.size()) / 2) {\n        events_buffer_.resize(events_buffer_.size() / 2);'))
B('mime-case', 'C17', (F, '    std::string ext = path.substr(pos);', '    std::string ext = path.substr(pos, 5);'))
B('head-size', 'C17', (SF, "{{\"content-length\", std::to_string(*size)}, {\"content-type\", mime_type}}", "{{\"content-length\", std::to_string(static_cast<uint32_t>(*size))}, {\"content-type\", mime_type}}"))
B('path-abs', 'C16', (F, '    full = fs::weakly_canonical(full);\n', ''))
B('path-depth', 'C16', (F, '        if (base_it != base.end()) {', '        if (base_it != base.end() && full_it == full.begin()) {'))
B('fd-selfmove', 'C23', (SO, '''    if (this != &other) {
        close();
        fd_ = other.fd_;
        other.fd_ = -1;
    }''', '''    close();
    fd_ = std::exchange(other.fd_, -1);'''))
B('fd-close-keep', 'C23', (SO, '        ::close(fd_);\n        fd_ = -1;', '        if (::close(fd_) == 0) {\n            fd_ = -1;\n        }'))
B('listen-eagain', 'C29', (LI, '    if (errno == EAGAIN || errno == EINTR) {', '    if (errno == EAGAIN || errno == EINTR || errno == ENFILE) {'))
B('listen-lo', 'C29', (LI, 'addr.sin_addr.s_addr = INADDR_ANY;', 'addr.sin_addr.s_addr = port < 1024 ? htonl(INADDR_LOOPBACK) : INADDR_ANY;'))
B('stat-before', 'C25', (ST, '            stats.status_codes[res.status_code]++;\n            return res;', '            stats.status_codes[res.status_code == 0 ? 200 : res.status_code]++;\n            return res;'))
B('stat-ms', 'C25', (ST, 'std::chrono::duration_cast<std::chrono::microseconds>(end - start).count();', 'std::chrono::duration_cast<std::chrono::milliseconds>(end - start).count() * 1000;'))
B('arg-level', 'C30', (AR, '{"warn", spdlog::level::warn},', '{"warn", spdlog::level::info},'))
B('arg-port', 'C30', (AR, '->check(CLI::Range(1, 65535));', '->check(CLI::Range(1, 65536));'))
B('arg-key-env', 'C30', (AR, '->envname("ION_TLS_KEY_PATH");', '->envname("ION_TLS_CERT_PATH");'))
B('main-404-head', 'C30', (M, 'args.status_404_file_path, req.method == "HEAD");', 'args.status_404_file_path, req.method != "GET");'))
B('main-exit', 'C30', (M, '        spdlog::critical("fatal error: {}", e.what());\n        return EXIT_FAILURE;', '        spdlog::critical("fatal error: {}", e.what());\n        return args.under_test ? EXIT_SUCCESS : EXIT_FAILURE;'))
B('poll-slow', 'C26', (S, 'POLL_TIMEOUT{25}', 'POLL_TIMEOUT{25000}'))
B('stop-drain', 'C26', (S, '    while (!user_req_termination_) {', '    while (!user_req_termination_ || !connections_.empty()) {'))
B('config-clear', 'C24', ('lib/server_config.cpp', '    if (!cleartext) {\n        if (!cert_path) {', '    if (!cleartext && (cert_path || !key_path)) {\n        if (!cert_path) {'))
B('transport-tls', 'C24', (S, '    if (config_.cleartext) {\n        return std::make_unique<TcpTransport>', '    if (config_.cleartext || !tls_ctx_) {\n        return std::make_unique<TcpTransport>'), (S, '    config_.validate();\n    if (!config_.cleartext) {\n        tls_ctx_.emplace(*config_.cert_path, *config_.key_path);\n    }', '    config_.validate();\n    if (!config_.cleartext && config_.key_path->string().size() < 4096) {\n        tls_ctx_.emplace(*config_.cert_path, *config_.key_path);\n    }'))
B('span-400', 'C28', (H, '    span->SetAttribute("http.status_code", resp.status_code);\n', '    if (path && method) {\n        span->SetAttribute("http.status_code", resp.status_code);\n    }\n'))
B('span-method', 'C28', (H, 'span->SetAttribute("http.target", *path);', 'span->SetAttribute("http.target", path->substr(0, path->find(\'?\')));'))
