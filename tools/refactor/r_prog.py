from refac import R
M = 'app/main.cpp'
R('main-helpers', 'C30', (M, '''void run_server(const Args& args) {
    ion::Http2Server server{args.to_server_config()};''', '''static void add_static(ion::Router& router, const std::vector<std::string>& map) {
    if (map.size() != 2) {
        return;
    }
    spdlog::info("serving static files at '{}' -> '{}'", map[0], map[1]);
    router.add_static_handler(std::make_unique<ion::StaticFileHandler>(map[0], map[1]));
}

void run_server(const Args& args) {
    ion::Http2Server server{args.to_server_config()};'''), (M, '''    if (args.static_map.size() == 2) {
        auto& url_prefix = args.static_map[0];
        auto& filesystem_root = args.static_map[1];

        spdlog::info("serving static files at '{}' -> '{}'", url_prefix, filesystem_root);
        auto sth = std::make_unique<ion::StaticFileHandler>(url_prefix, filesystem_root);
        router.add_static_handler(std::move(sth));
    }
''', '''    add_static(router, args.static_map);
'''))
R('main-404-path', 'C30', (M, '''        router.add_middleware([args](auto next) {
            return [args, next](const auto& req) {
                auto res = next(req);

                if (res.status_code == 404) {
                    // a response to HEAD has no body
                    auto file_res = ion::StaticFileHandler::file_response(
                        args.status_404_file_path, req.method == "HEAD");
                    file_res.status_code = 404;
                    return file_res;
                }
                return res;
            };
        });''', '''        router.add_middleware([path = args.status_404_file_path](auto next) {
            return [path, next](const auto& req) {
                auto res = next(req);
                if (res.status_code != 404) {
                    return res;
                }
                const bool head = req.method == "HEAD";
                res = ion::StaticFileHandler::file_response(path, head);
                res.status_code = 404;
                return res;
            };
        });'''))
R('main-404-helper', 'C30', (M, '''void run_server(const Args& args) {
    ion::Http2Server server{args.to_server_config()};''', '''static ion::HttpResponse not_found_page(const std::string& path, bool head) {
    auto page = ion::StaticFileHandler::file_response(path, head);
    page.status_code = 404;
    return page;
}

void run_server(const Args& args) {
    ion::Http2Server server{args.to_server_config()};'''), (M, '''                if (res.status_code == 404) {
                    // a response to HEAD has no body
                    auto file_res = ion::StaticFileHandler::file_response(
                        args.status_404_file_path, req.method == "HEAD");
                    file_res.status_code = 404;
                    return file_res;
                }
                return res;''', '''                return res.status_code == 404 ? not_found_page(args.status_404_file_path, req.method == "HEAD") : res;'''))
R('main-order', 'C30', (M, '''    if (args.under_test) {
        spdlog::info("running under test mode");
        TestRoutes::add_test_routes(router);
    }

    if (args.status_page) {
        spdlog::info("status page enabled: /_ion/status");
        StatusPage::add_status_page(router);
    }
''', '''    if (args.status_page) {
        spdlog::info("status page enabled: /_ion/status");
        StatusPage::add_status_page(router);
    }

    if (args.under_test) {
        spdlog::info("running under test mode");
        TestRoutes::add_test_routes(router);
    }
'''))
R('main-exit', 'C30', (M, '''        spdlog::info("exiting");
        return EXIT_SUCCESS;
    } catch (const std::exception& e) {
        spdlog::critical("fatal error: {}", e.what());
        return EXIT_FAILURE;
    }
}''', '''    } catch (const std::exception& e) {
        spdlog::critical("fatal error: {}", e.what());
        return EXIT_FAILURE;
    }
    spdlog::info("exiting");
    return EXIT_SUCCESS;
}'''))
R('main-logs-order', 'C30', (M, '''        enable_no_new_privs_on_linux();
        setup_access_logs(args.access_log_path);
''', '''        if (!args.access_log_path.empty()) {
            setup_access_logs(args.access_log_path);
        }
        enable_no_new_privs_on_linux();
'''))
R('main-logger-order', 'C30', (M, '''        logger->set_pattern("%v");
        logger->set_level(spdlog::level::info);  // whatever --log-level says
        logger->flush_on(spdlog::level::info);
''', '''        logger->flush_on(spdlog::level::info);
        logger->set_level(spdlog::level::info);  // whatever --log-level says
        logger->set_pattern("%v");
'''))
R('main-level-first', 'C30', (M, '''    spdlog::set_formatter(std::move(formatter));
    spdlog::set_level(args.log_level_enum());
''', '''    spdlog::set_level(args.log_level_enum());
    spdlog::set_formatter(std::move(formatter));
'''))
R('main-inline-privs', 'C30', (M, '''        enable_no_new_privs_on_linux();
''', '''#ifdef __linux__
        ProcessControl::enable_no_new_privs();
#endif
'''))
P = 'app/proc_ctrl.cpp'
R('proc-result', 'C30', (P, '''    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == -1) {
        spdlog::warn("failed to set PR_SET_NO_NEW_PRIVS: {}", std::strerror(errno));
        return false;
    }
    spdlog::debug("PR_SET_NO_NEW_PRIVS enabled");
    return true;''', '''    const int result = prctl(PR_SET_NO_NEW_PRIVS, 1UL, 0UL, 0UL, 0UL);
    if (result == 0) {
        spdlog::debug("PR_SET_NO_NEW_PRIVS enabled");
        return true;
    }
    spdlog::warn("failed to set PR_SET_NO_NEW_PRIVS: {}", std::strerror(errno));
    return false;'''))
R('proc-check', 'C30', (P, '''    if (result == -1) {
        spdlog::warn("failed to get PR_GET_NO_NEW_PRIVS: {}", std::strerror(errno));
        return false;
    }
    return result == 1;''', '''    if (result < 0) {
        spdlog::warn("failed to get PR_GET_NO_NEW_PRIVS: {}", std::strerror(errno));
    }
    return result > 0;'''))
T = 'app/test_routes.cpp'
R('routes-helper', 'C30', (T, '''void TestRoutes::add_test_routes(ion::Router& router) {
    router.add_route("/_tests/ok", "GET",
                     [](const auto&) { return ion::HttpResponse{.status_code = 200}; });

    router.add_route("/_tests/no_content", "GET",
                     [](const auto&) { return ion::HttpResponse{.status_code = 204}; });
''', '''static void add_status_route(ion::Router& router, const char* path, uint16_t status) {
    router.add_route(path, "GET", [status](const auto&) { return ion::HttpResponse{.status_code = status}; });
}

void TestRoutes::add_test_routes(ion::Router& router) {
    add_status_route(router, "/_tests/ok", 200);
    add_status_route(router, "/_tests/no_content", 204);
'''))
R('routes-ternary', 'C30', (T, '''        if (ProcessControl::check_no_new_privs()) {
            return ion::HttpResponse{.status_code = 200};
        }
        return ion::HttpResponse{.status_code = 500};''', '''        const uint16_t status = ProcessControl::check_no_new_privs() ? 200 : 500;
        return ion::HttpResponse{.status_code = status};'''))
R('routes-body', 'C30', (T, '''        constexpr size_t content_size = 128 * 1024;
        std::string body(content_size, 'A');

        return ion::HttpResponse{.status_code = 200,
                                 .body = std::vector<uint8_t>{body.begin(), body.end()}};''', '''        constexpr size_t content_size = 128 * 1024;
        return ion::HttpResponse{.status_code = 200, .body = std::vector<uint8_t>(content_size, 'A')};'''))
L = 'lib/tcp_listener.cpp'
R('lst-direct', 'C29,C23', (L, '''    const int server_fd = socket(AF_INET, SOCK_STREAM, 0);
    if (server_fd < 0) {
        throw std::system_error(errno, std::system_category(), "socket");
    }
    server_fd_ = SocketFd(server_fd);
''', '''    server_fd_ = SocketFd(socket(AF_INET, SOCK_STREAM, 0));
    if (server_fd_ < 0) {
        throw std::system_error(errno, std::system_category(), "socket");
    }
'''))
R('lst-order', 'C29,C23', (L, '''    set_nonblocking_socket(server_fd_);
    set_reusable_addr();
    bind_socket(port);
''', '''    set_reusable_addr();
    bind_socket(port);
    set_nonblocking_socket(server_fd_);
'''))
R('lst-sock-flag', 'C29,C23', (L, '''    const int server_fd = socket(AF_INET, SOCK_STREAM, 0);
''', '''    const int server_fd = socket(AF_INET, SOCK_STREAM, IPPROTO_TCP);
'''))
R('lst-fail-helper', 'C29,C23', (L, '''void TcpListener::set_nonblocking_socket(const SocketFd& socket_fd) {
    const int flags = fcntl(socket_fd, F_GETFL, 0);
    if (flags == -1) {
        throw std::system_error(errno, std::system_category(), "fcntl F_GETFL");
    }
    if (fcntl(socket_fd, F_SETFL, flags | O_NONBLOCK) == -1) {
        throw std::system_error(errno, std::system_category(), "fcntl F_SETFL");
    }
}''', '''static int checked(int result, const char* what) {
    if (result == -1) {
        throw std::system_error(errno, std::system_category(), what);
    }
    return result;
}

void TcpListener::set_nonblocking_socket(const SocketFd& socket_fd) {
    const int flags = checked(fcntl(socket_fd, F_GETFL, 0), "fcntl F_GETFL");
    checked(fcntl(socket_fd, F_SETFL, flags | O_NONBLOCK), "fcntl F_SETFL");
}'''))
R('lst-nonblock-skip', 'C29', (L, '''    if (fcntl(socket_fd, F_SETFL, flags | O_NONBLOCK) == -1) {''', '''    if ((flags & O_NONBLOCK) == 0 && fcntl(socket_fd, F_SETFL, flags | O_NONBLOCK) == -1) {'''))
R('lst-accept-null', 'C29,C23', (L, '''    sockaddr_in client_addr{};
    socklen_t client_len = sizeof(client_addr);

    const int fd = ::accept(server_fd_, reinterpret_cast<sockaddr*>(&client_addr), &client_len);
''', '''    const int fd = ::accept(server_fd_, nullptr, nullptr);
'''))
R('lst-accept4', 'C29,C23', (L, '''    const int fd = ::accept(server_fd_, reinterpret_cast<sockaddr*>(&client_addr), &client_len);
    if (fd >= 0) {
        auto client_fd = SocketFd(fd);
        set_nonblocking_socket(client_fd);  // required for Linux. macOS inherits from server_fd!
''', '''    const int fd = ::accept4(server_fd_, reinterpret_cast<sockaddr*>(&client_addr), &client_len, SOCK_NONBLOCK);
    if (fd >= 0) {
        auto client_fd = SocketFd(fd);
'''))
R('lst-accept-invert', 'C29,C23', (L, '''    if (fd >= 0) {
        auto client_fd = SocketFd(fd);
        set_nonblocking_socket(client_fd);  // required for Linux. macOS inherits from server_fd!
        set_tcp_no_delay(client_fd);
        return client_fd;
    }

    if (errno == EAGAIN || errno == EINTR) {
        return std::nullopt;
    }

    throw std::system_error(errno, std::system_category(), "accept");''', '''    if (fd < 0) {
        const int error = errno;
        switch (error) {
            case EAGAIN:
            case EINTR:
                return std::nullopt;
            default:
                throw std::system_error(error, std::system_category(), "accept");
        }
    }

    SocketFd client_fd{fd};
    set_nonblocking_socket(client_fd);
    set_tcp_no_delay(client_fd);
    return std::optional<SocketFd>(std::move(client_fd));'''))
R('lst-memset', 'C29', (L, '''    sockaddr_in addr{};
    addr.sin_family = AF_INET;
    addr.sin_addr.s_addr = INADDR_ANY;
    addr.sin_port = htons(port);
''', '''    const sockaddr_in addr_value{.sin_family = AF_INET, .sin_port = htons(port), .sin_addr = {.s_addr = htonl(INADDR_ANY)}};
    sockaddr_in addr = addr_value;
'''))
R('lst-reuse-local', 'C29', (L, '''    if (setsockopt(server_fd_, SOL_SOCKET, SO_REUSEADDR, &ENABLE_OPT, sizeof(ENABLE_OPT))) {''', '''    const int on = 1;
    if (setsockopt(server_fd_, SOL_SOCKET, SO_REUSEADDR, &on, sizeof(int)) != 0) {'''))
S = 'lib/socket_fd.cpp'
R('fd-ip-switch', 'C29', (S, '''    if (addr.ss_family == AF_INET) {
        auto* s = reinterpret_cast<sockaddr_in*>(&addr);
        inet_ntop(AF_INET, &s->sin_addr, ip_str, sizeof(ip_str));
    } else if (addr.ss_family == AF_INET6) {
        auto* s = reinterpret_cast<sockaddr_in6*>(&addr);
        inet_ntop(AF_INET6, &s->sin6_addr, ip_str, sizeof(ip_str));
    } else {
        spdlog::error("unknown ss_family: {}", addr.ss_family);
        return std::unexpected(ClientIpError::UnknownIpFormat);
    }
    return std::string(ip_str);''', '''    switch (addr.ss_family) {
        case AF_INET6: {
            const auto* s = reinterpret_cast<const sockaddr_in6*>(&addr);
            inet_ntop(AF_INET6, &s->sin6_addr, ip_str, INET6_ADDRSTRLEN);
            break;
        }
        case AF_INET: {
            const auto* s = reinterpret_cast<const sockaddr_in*>(&addr);
            inet_ntop(AF_INET, &s->sin_addr, ip_str, INET6_ADDRSTRLEN);
            break;
        }
        default:
            spdlog::error("unknown ss_family: {}", addr.ss_family);
            return std::unexpected(ClientIpError::UnknownIpFormat);
    }
    return ip_str;'''))
R('fd-ip-void', 'C29', (S, '''    if (addr.ss_family == AF_INET) {
        auto* s = reinterpret_cast<sockaddr_in*>(&addr);
        inet_ntop(AF_INET, &s->sin_addr, ip_str, sizeof(ip_str));
    } else if (addr.ss_family == AF_INET6) {
        auto* s = reinterpret_cast<sockaddr_in6*>(&addr);
        inet_ntop(AF_INET6, &s->sin6_addr, ip_str, sizeof(ip_str));
    } else {''', '''    const void* in = nullptr;
    if (addr.ss_family == AF_INET) {
        in = &reinterpret_cast<sockaddr_in*>(&addr)->sin_addr;
    } else if (addr.ss_family == AF_INET6) {
        in = &reinterpret_cast<sockaddr_in6*>(&addr)->sin6_addr;
    }
    if (in) {
        inet_ntop(addr.ss_family, in, ip_str, sizeof(ip_str));
    } else {'''))
R('fd-exchange', 'C23,C29', (S, '''SocketFd::SocketFd(SocketFd&& other) noexcept : fd_(other.fd_) {
    other.fd_ = -1;
}''', '''SocketFd::SocketFd(SocketFd&& other) noexcept : fd_(std::exchange(other.fd_, -1)) {}'''))
F = 'app/trace_id_flag.cpp'
R('flag-guard', 'C28', (F, '''    if (span->GetContext().IsValid()) {
        char trace_id[32];
        span->GetContext().trace_id().ToLowerBase16(trace_id);

        dest.push_back('[');
        dest.append(trace_id, trace_id + 32);
        dest.push_back(']');
        dest.push_back(' ');
    }''', '''    const auto context = span->GetContext();
    if (!context.IsValid()) {
        return;
    }
    char text[35];
    text[0] = '[';
    context.trace_id().ToLowerBase16(std::span<char, 32>(text + 1, 32));
    text[33] = ']';
    text[34] = ' ';
    dest.append(text, text + sizeof(text));'''))
R('flag-size', 'C28', (F, '''        char trace_id[32];
        span->GetContext().trace_id().ToLowerBase16(trace_id);

        dest.push_back('[');
        dest.append(trace_id, trace_id + 32);''', '''        constexpr size_t length = 2 * opentelemetry::trace::TraceId::kSize;
        char trace_id[length];
        span->GetContext().trace_id().ToLowerBase16(trace_id);

        dest.push_back('[');
        dest.append(trace_id, trace_id + length);'''))
R('flag-context', 'C28', (F, '''    if (span->GetContext().IsValid()) {
        char trace_id[32];
        span->GetContext().trace_id().ToLowerBase16(trace_id);
''', '''    if (const auto context = span->GetContext(); context.IsValid()) {
        char trace_id[32];
        context.trace_id().ToLowerBase16(trace_id);
'''))
C = 'lib/http2_conn.cpp'
R('span-order', 'C28,C20', (C, '''            auto ending_stream = resp.body.empty();
            write_headers_response(frame.stream_id(), hdrs_bytes,
                                   FLAG_END_HEADERS | (ending_stream ? FLAG_END_STREAM : 0));
            spdlog::info(std::format("{} status code sent w/headers", resp.status_code));

            if (!ending_stream) {
                spdlog::info("sending response body (length: {})", resp.body.size());
                write_data_response(frame.stream_id(), resp.body);
            }
''', '''            const bool has_body = !resp.body.empty();
            uint8_t flags = FLAG_END_HEADERS;
            if (!has_body) {
                flags |= FLAG_END_STREAM;
            }
            write_headers_response(frame.stream_id(), hdrs_bytes, flags);
            spdlog::info(std::format("{} status code sent w/headers", resp.status_code));

            if (has_body) {
                spdlog::info("sending response body (length: {})", resp.body.size());
                write_data_response(frame.stream_id(), resp.body);
            }
'''))
R('span-helper', 'C28,C10', (C, '''            auto tracer = opentelemetry::trace::Provider::GetTracerProvider()->GetTracer("ion");
            auto span = tracer->StartSpan("http_request");
            auto scope = tracer->WithActiveSpan(span);
''', '''            const auto provider = opentelemetry::trace::Provider::GetTracerProvider();
            const auto tracer = provider->GetTracer("ion");
            auto span = tracer->StartSpan("http_request");
            opentelemetry::trace::Scope scope(span);
'''))
R('span-late-scope', 'C28', (C, '''            auto scope = tracer->WithActiveSpan(span);

            spdlog::debug("received HEADERS frame for stream {}", frame.stream_id());
            spdlog::debug(" - end headers: {}, end stream: {}, length: {}", frame.is_end_headers(),
                          frame.is_end_stream(), frame.length());
''', '''            spdlog::debug("received HEADERS frame for stream {}", frame.stream_id());
            spdlog::debug(" - end headers: {}, end stream: {}, length: {}", frame.is_end_headers(),
                          frame.is_end_stream(), frame.length());
            auto scope = tracer->WithActiveSpan(span);
'''))
X = 'lib/transports/tls_context.cpp'
R('tls-alpn-invert', 'C31', (X, '''    if (result == OPENSSL_NPN_NEGOTIATED) {
        spdlog::debug("ALPN negotiated: {}",
                      std::string(reinterpret_cast<const char*>(*out), *outlen));
        return SSL_TLSEXT_ERR_OK;
    }

    *outlen = supported_protos[0];
    *out = supported_protos.data() + 1;
    spdlog::debug("ALPN negotiation failed, using default: {}",
                  std::string(reinterpret_cast<const char*>(*out), *outlen));
    return SSL_TLSEXT_ERR_OK;''', '''    if (result != OPENSSL_NPN_NEGOTIATED) {
        *out = &supported_protos[1];
        *outlen = static_cast<unsigned char>(supported_protos.size() - 1);
        spdlog::debug("ALPN negotiation failed, using default: {}",
                      std::string(reinterpret_cast<const char*>(*out), *outlen));
    }
    return SSL_TLSEXT_ERR_OK;'''))
R('tls-alpn-always', 'C31', (X, '''    const int result =
        SSL_select_next_proto(const_cast<unsigned char**>(out), outlen, supported_protos.data(),
                              supported_protos.size(), in, inlen);
    if (result == OPENSSL_NPN_NEGOTIATED) {
        spdlog::debug("ALPN negotiated: {}",
                      std::string(reinterpret_cast<const char*>(*out), *outlen));
        return SSL_TLSEXT_ERR_OK;
    }

''', ''))
R('tls-alpn-carray', 'C31', (X, '''    static constexpr std::array<unsigned char, 3> supported_protos{'\\x02', 'h', '2'};

    const int result =
        SSL_select_next_proto(const_cast<unsigned char**>(out), outlen, supported_protos.data(),
                              supported_protos.size(), in, inlen);''', '''    static const unsigned char protos[] = {2, 'h', '2'};

    const int result =
        SSL_select_next_proto(const_cast<unsigned char**>(out), outlen, protos, sizeof(protos), in, inlen);'''), (X, '''    *outlen = supported_protos[0];
    *out = supported_protos.data() + 1;
''', '''    *outlen = protos[0];
    *out = protos + 1;
'''))
R('tls-alpn-ns', 'C31', (X, '''namespace ion {
''', '''namespace ion {

static constexpr std::array<unsigned char, 3> supported_protos{'\\x02', 'h', '2'};
'''), (X, '''    static constexpr std::array<unsigned char, 3> supported_protos{'\\x02', 'h', '2'};

''', ''))
R('tls-keylog-fn', 'C31', (X, '''    SSL_CTX_set_keylog_callback(ctx_, [](const SSL*, const char* line) {
        if (const auto keylog_file = std::getenv("SSLKEYLOGFILE")) {
            std::ofstream file(keylog_file, std::ios::app);
            if (file.is_open()) {
                file << line << '\\n';
            }
        }
    });''', '''    SSL_CTX_set_keylog_callback(ctx_, append_key);'''), (X, '''namespace ion {
''', '''namespace ion {

static void append_key(const SSL*, const char* line) {
    const char* keylog_file = std::getenv("SSLKEYLOGFILE");
    if (keylog_file == nullptr) {
        return;
    }
    std::ofstream file(keylog_file, std::ios::out | std::ios::app);
    if (file) {
        file << line << "\\n";
    }
}
'''))
R('tls-keylog-nocheck', 'C31', (X, '''            if (file.is_open()) {
                file << line << '\\n';
            }''', '''            file << line << std::endl;'''))
R('tls-ctx-unique', 'C24,C31', (X, '''    ctx_ = SSL_CTX_new(TLS_server_method());
    if (!ctx_) {
        throw std::runtime_error("failed to create SSL context");
    }

    if (SSL_CTX_use_certificate_file(ctx_, cert_path.c_str(), SSL_FILETYPE_PEM) <= 0) {
        SSL_CTX_free(ctx_);
        throw std::runtime_error("failed to load certificate file");
    }

    if (SSL_CTX_use_PrivateKey_file(ctx_, key_path.c_str(), SSL_FILETYPE_PEM) <= 0) {
        SSL_CTX_free(ctx_);
        throw std::runtime_error("failed to load private key file");
    }

    if (!SSL_CTX_check_private_key(ctx_)) {
        SSL_CTX_free(ctx_);
        throw std::runtime_error("private key does not match certificate");
    }
''', '''    std::unique_ptr<SSL_CTX, decltype(&SSL_CTX_free)> ctx{SSL_CTX_new(TLS_server_method()), &SSL_CTX_free};
    if (!ctx) {
        throw std::runtime_error("failed to create SSL context");
    }

    if (SSL_CTX_use_certificate_file(ctx.get(), cert_path.c_str(), SSL_FILETYPE_PEM) <= 0) {
        throw std::runtime_error("failed to load certificate file");
    }

    if (SSL_CTX_use_PrivateKey_file(ctx.get(), key_path.c_str(), SSL_FILETYPE_PEM) <= 0) {
        throw std::runtime_error("failed to load private key file");
    }

    if (!SSL_CTX_check_private_key(ctx.get())) {
        throw std::runtime_error("private key does not match certificate");
    }
    ctx_ = ctx.release();
'''))
Y = 'lib/transports/tls_transport.cpp'
R('tls-setfd-try', 'C31,C23', (Y, '''    if (SSL_set_fd(ssl_, client_fd_) != 1) {
        SSL_free(ssl_);
        throw std::runtime_error("failed to set SSL file descriptor");
    }''', '''    const int fd = client_fd_;
    if (const int ok = SSL_set_fd(ssl_, fd); ok != 1) {
        SSL_free(std::exchange(ssl_, nullptr));
        throw std::runtime_error("failed to set SSL file descriptor");
    }'''))
R('tls-free-uncond', 'C31,C23', (Y, '''    if (ssl_) {
        spdlog::debug("freeing OpenSSL");
        SSL_free(ssl_);
        ssl_ = nullptr;
    }
}''', '''    SSL_free(ssl_);  // null is allowed
}'''))
