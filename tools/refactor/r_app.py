from refac import R
Q = 'lib/router.cpp'
R('router-find-if', 'C15', (Q, '''    bool found = false;
    for (const auto& route : routes_) {
        if (route.path == path && route.method == method) {
            target = route.handler;
            found = true;
            break;
        }
    }

    if (!found) {
        if (method == "GET" || method == "HEAD") {''', '''    const auto it = std::find_if(routes_.begin(), routes_.end(), [&](const Route& route) {
        return route.path == path && route.method == method;
    });

    if (it != routes_.end()) {
        target = it->handler;
    } else {
        if (method == "GET" || method == "HEAD") {'''))
R('router-helper', 'C15', (Q, '''    RouteHandler target = default_handler_;

    bool found = false;
    for (const auto& route : routes_) {
        if (route.path == path && route.method == method) {
            target = route.handler;
            found = true;
            break;
        }
    }

    if (!found) {
        if (method == "GET" || method == "HEAD") {
            for (const auto& handler : static_handlers_) {
                if (handler->matches(path)) {
                    target = [static_handler = handler.get(), path,
                              is_head = method == "HEAD"](const HttpRequest&) -> HttpResponse {
                        return static_handler->handle(path, is_head);
                    };
                }
            }
        }
    }

    return middleware_chain_(std::move(target));''', '''    return middleware_chain_(find_target(path, method));'''), (Q, '''RouteHandler Router::get_handler(const std::string& path, const std::string& method) const {
''', '''RouteHandler Router::find_target(const std::string& path, const std::string& method) const {
    for (const auto& route : routes_) {
        if (route.method == method && route.path == path) {
            return route.handler;
        }
    }

    const bool is_head = method == "HEAD";
    if (!is_head && method != "GET") {
        return default_handler_;
    }
    RouteHandler target = default_handler_;
    for (const auto& handler : static_handlers_) {
        if (!handler->matches(path)) {
            continue;
        }
        const StaticFileHandler* chosen = handler.get();
        target = [chosen, path, is_head](const HttpRequest&) { return chosen->handle(path, is_head); };
    }
    return target;
}

RouteHandler Router::get_handler(const std::string& path, const std::string& method) const {
'''), ('lib/router.h', '''   private:
''', '''   private:
    RouteHandler find_target(const std::string& path, const std::string& method) const;
'''))
R('router-index', 'C15', (Q, '''    for (const auto& route : routes_) {
        if (route.path == path && route.method == method) {
            target = route.handler;
            found = true;
            break;
        }
    }
''', '''    for (size_t i = 0; i < routes_.size() && !found; ++i) {
        if (routes_[i].path == path && routes_[i].method == method) {
            target = routes_[i].handler;
            found = true;
        }
    }
'''), (Q, '''    const Route route{path, method, handler};
    routes_.push_back(route);''', '''    routes_.emplace_back(path, method, handler);'''), (Q, '''    auto current_chain = middleware_chain_;
    middleware_chain_ = [current_chain, mw](RouteHandler h) {
        return current_chain(mw(std::move(h)));
    };''', '''    middleware_chain_ = [chain = std::move(middleware_chain_), mw = std::move(mw)](RouteHandler h) {
        auto inner = mw(std::move(h));
        return chain(std::move(inner));
    };'''))
R('router-reverse', 'C15', (Q, '''            for (const auto& handler : static_handlers_) {
                if (handler->matches(path)) {
                    target = [static_handler = handler.get(), path,
                              is_head = method == "HEAD"](const HttpRequest&) -> HttpResponse {
                        return static_handler->handle(path, is_head);
                    };
                }
            }''', '''            for (auto it = static_handlers_.rbegin(); it != static_handlers_.rend(); ++it) {
                if ((*it)->matches(path)) {
                    target = [static_handler = it->get(), path,
                              is_head = method == "HEAD"](const HttpRequest&) -> HttpResponse {
                        return static_handler->handle(path, is_head);
                    };
                    break;
                }
            }'''))
W = 'lib/static_file_handler.cpp'
R('static-rel', 'C16 C17', (W, '''    std::string rel_path = url_path.substr(url_prefix_.length());

    // remove query string
    if (const auto query_pos = rel_path.find('?'); query_pos != std::string::npos) {
        rel_path = rel_path.substr(0, query_pos);
    }

    if (rel_path.empty() || rel_path == "/") {
        rel_path = "/index.html";
    }

    if (rel_path.starts_with("/")) {
        rel_path = rel_path.substr(1);
    }

    return rel_path;''', '''    auto rel_path = url_path.substr(url_prefix_.size());
    rel_path = rel_path.substr(0, rel_path.find('?'));
    if (!rel_path.empty() && rel_path.front() == '/') {
        rel_path.erase(0, 1);
    }
    return rel_path.empty() ? "index.html" : rel_path;'''))
R('static-resp', 'C17', (W, '''    return HttpResponse{
        .status_code = 200, .body = std::move(*content), .headers = {{"content-type", mime_type}}};''', '''    HttpResponse response{.status_code = 200};
    response.headers.push_back({"content-type", mime_type});
    response.body = std::move(content.value());
    return response;'''), (W, '''    const auto mime_type = FileReader::get_mime_type(path);
    return head_request ? head_response(path, mime_type) : get_response(path, mime_type);''', '''    if (head_request) {
        return head_response(path, FileReader::get_mime_type(path));
    }
    return get_response(path, FileReader::get_mime_type(path));'''), (W, '''    if (!safe_path) {
        spdlog::warn("invalid file path requested: {}", path);
        return HttpResponse{403};
    }

    return file_response(*safe_path, is_head);''', '''    if (safe_path.has_value()) {
        return file_response(safe_path.value(), is_head);
    }
    return HttpResponse{.status_code = 403};'''))
Y = 'lib/file_reader.cpp'
R('file-mismatch', 'C16', (Y, '''        auto base_it = base.begin();
        auto full_it = full.begin();
        for (; base_it != base.end() && full_it != full.end(); ++base_it, ++full_it) {
            if (*base_it != *full_it) {
                spdlog::warn("Directory traversal attempt blocked: {} (base: {})", requested_path,
                             base_dir);
                return std::nullopt;
            }
        }
        // If base has more components than full, full cannot be inside base
        if (base_it != base.end()) {''', '''        const auto [base_it, full_it] =
            std::mismatch(base.begin(), base.end(), full.begin(), full.end());
        if (base_it != base.end()) {'''))
R('file-walk-while', 'C16', (Y, '''        for (; base_it != base.end() && full_it != full.end(); ++base_it, ++full_it) {
            if (*base_it != *full_it) {
                spdlog::warn("Directory traversal attempt blocked: {} (base: {})", requested_path,
                             base_dir);
                return std::nullopt;
            }
        }
        // If base has more components than full, full cannot be inside base
        if (base_it != base.end()) {''', '''        while (base_it != base.end() && full_it != full.end() && *base_it == *full_it) {
            ++base_it;
            ++full_it;
        }
        if (base_it != base.end()) {'''))
R('file-walk-range', 'C16', (Y, '''        auto base_it = base.begin();
        auto full_it = full.begin();
        for (; base_it != base.end() && full_it != full.end(); ++base_it, ++full_it) {
            if (*base_it != *full_it) {
                spdlog::warn("Directory traversal attempt blocked: {} (base: {})", requested_path,
                             base_dir);
                return std::nullopt;
            }
        }
        // If base has more components than full, full cannot be inside base
        if (base_it != base.end()) {
            spdlog::warn("Directory traversal attempt blocked: {} (base: {})", requested_path,
                         base_dir);
            return std::nullopt;
        }
''', '''        auto full_it = full.begin();
        for (const auto& component : base) {
            if (full_it == full.end() || *full_it != component) {
                return std::nullopt;
            }
            ++full_it;
        }
'''))
R('file-contained-helper', 'C16', (Y, '''        auto base_it = base.begin();
        auto full_it = full.begin();
        for (; base_it != base.end() && full_it != full.end(); ++base_it, ++full_it) {
            if (*base_it != *full_it) {
                spdlog::warn("Directory traversal attempt blocked: {} (base: {})", requested_path,
                             base_dir);
                return std::nullopt;
            }
        }
        // If base has more components than full, full cannot be inside base
        if (base_it != base.end()) {
            spdlog''', '''        if (!is_within(base, full)) {
            spdlog'''), (Y, '''std::optional<std::string> FileReader::sanitize_path(''', '''static bool is_within(const std::filesystem::path& base, const std::filesystem::path& full) {
    auto full_it = full.begin();
    for (auto base_it = base.begin(); base_it != base.end(); ++base_it) {
        if (full_it == full.end()) {
            return false;
        }
        if (*base_it != *full_it) {
            return false;
        }
        ++full_it;
    }
    return true;
}

std::optional<std::string> FileReader::sanitize_path('''))
R('file-combine', 'C16', (Y, '''        fs::path combined = requested.is_absolute() ? requested : (base / requested);
''', '''        const fs::path combined = base / requested;
'''))
R('file-mime', 'C17', (Y, '''    auto pos = path.find_last_of('.');
    if (pos == std::string::npos) {
        return "application/octet-stream";
    }

    std::string ext = path.substr(pos);
    auto it = mime_types.find(ext);
    return it != mime_types.end() ? it->second : "application/octet-stream";''', '''    static const std::string fallback = "application/octet-stream";
    const auto pos = path.rfind('.');
    if (pos != std::string::npos) {
        if (const auto it = mime_types.find(path.substr(pos)); it != mime_types.end()) {
            return it->second;
        }
    }
    return fallback;'''))
R('file-size-invert', 'C17', (Y, '''    if (std::filesystem::exists(path, ec) && std::filesystem::is_regular_file(path, ec)) {
        auto size = std::filesystem::file_size(path, ec);
        if (!ec) {
            return size;
        }
    }
''', '''    if (std::filesystem::is_regular_file(path, ec)) {
        const auto size = std::filesystem::file_size(path, ec);
        if (!ec) {
            return static_cast<size_t>(size);
        }
    }
'''), (Y, '''    if (stat(path.c_str(), &st) != 0) {
        return false;
    }

    // Check if it's a regular file
    if (!S_ISREG(st.st_mode)) {
        return false;
    }

    // Check if readable
    return access(path.c_str(), R_OK) == 0;''', '''    const bool found = stat(path.c_str(), &st) == 0;
    return found && S_ISREG(st.st_mode) && access(path.c_str(), R_OK) == 0;'''))
R('file-read-iter', 'C17', (Y, '''    std::vector<uint8_t> buffer(size);
    if (!file.read(reinterpret_cast<char*>(buffer.data()), size)) {''', '''    std::vector<uint8_t> buffer;
    buffer.resize(static_cast<size_t>(size));
    file.read(reinterpret_cast<char*>(buffer.data()), size);
    if (file.fail()) {'''))
Z = 'app/status_page.cpp'
R('status-divmod', 'C25', (Z, '''    const auto days = total_seconds / 86400;
    total_seconds %= 86400;
    const auto hours = total_seconds / 3600;
    total_seconds %= 3600;
    const auto minutes = total_seconds / 60;
    const auto seconds = total_seconds % 60;
''', '''    const auto seconds = total_seconds % 60;
    const auto minutes = total_seconds / 60 % 60;
    const auto hours = total_seconds / 3600 % 24;
    const auto days = total_seconds / 86400;
'''))
R('status-string', 'C25', (Z, '''    std::stringstream ss;
    if (days > 0)
        ss << days << "d ";
    if (hours > 0 || days > 0)
        ss << hours << "h ";
    if (minutes > 0 || hours > 0 || days > 0)
        ss << minutes << "m ";
    ss << seconds << "s";

    return ss.str();''', '''    std::string out;
    if (days > 0) {
        out += std::to_string(days) + "d ";
    }
    if (days > 0 || hours > 0) {
        out += std::to_string(hours) + "h ";
    }
    if (days > 0 || hours > 0 || minutes > 0) {
        out += std::to_string(minutes) + "m ";
    }
    return out + std::to_string(seconds) + "s";'''))
R('status-ostream', 'C25', (Z, '''    std::stringstream ss;
    if (days > 0)
        ss << days << "d ";
    if (hours > 0 || days > 0)
        ss << hours << "h ";
    if (minutes > 0 || hours > 0 || days > 0)
        ss << minutes << "m ";
    ss << seconds << "s";
''', '''    std::ostringstream ss;
    bool started = days > 0;
    if (started)
        ss << days << "d ";
    started = started || hours > 0;
    if (started)
        ss << hours << "h ";
    started = started || minutes > 0;
    if (started)
        ss << minutes << "m ";
    ss << seconds << 's';
'''))
R('status-codes-helper', 'C25', (Z, '''        if (stats.status_codes.empty()) {
            html << "<em>No requests yet</em>";
        } else {
            for (auto const& [code, count] : stats.status_codes) {
                html << "<div class='code-badge'><span class='code-num'>" << code << "</span>"
                     << count << "</div>";
            }
        }
''', '''        for (const auto& entry : stats.status_codes) {
            html << "<div class='code-badge'><span class='code-num'>" << entry.first;
            html << "</span>" << entry.second << "</div>";
        }
        if (stats.status_codes.empty()) {
            html << "<em>No requests yet</em>";
        }
'''))
G = 'app/server_stats.cpp'
R('stats-order', 'C25', (G, '''            auto& stats = instance();
            stats.total_requests++;
            const auto start = std::chrono::steady_clock::now();
''', '''            const auto start = std::chrono::steady_clock::now();
            auto& stats = ServerStats::instance();
            ++stats.total_requests;
'''), (G, '''            stats.total_duration_us += duration;
            stats.status_codes[res.status_code]++;
            return res;''', '''            stats.status_codes[res.status_code] += 1;
            stats.total_duration_us += duration;
            return res;'''))
R('stats-helper', 'C25', (G, '''            ion::HttpResponse res;
            try {
                res = next(req);
            } catch (...) {
                // the connection answers a handler that throws with 500
                stats.status_codes[500]++;
                throw;
            }
''', '''            const auto count = [&stats](uint16_t code) { stats.status_codes[code]++; };
            ion::HttpResponse res;
            try {
                res = next(req);
            } catch (...) {
                count(500);
                throw;
            }
'''), (G, '''            stats.status_codes[res.status_code]++;
            return res;''', '''            count(res.status_code);
            return res;'''))
U = 'app/signal_handler.cpp'
R('signal-loop', 'C26', (U, '''    if (ion::Http2Server* server = server_.load()) {
        server->stop(reason);
    }''', '''    ion::Http2Server* const server = server_.load();
    if (server == nullptr) {
        return;
    }
    server->stop(reason);'''), (U, '''    server_.store(&server);
    std::signal(SIGINT, signal_handler);
    std::signal(SIGTERM, signal_handler);
    std::signal(SIGPIPE, sigpipe_handler);''', '''    server_.store(&server);
    std::signal(SIGPIPE, sigpipe_handler);
    for (const int sig : {SIGINT, SIGTERM}) {
        std::signal(sig, signal_handler);
    }'''))
R('signal-ternary', 'C26', (U, '''    std::signal(SIGINT, SIG_DFL);
    std::signal(SIGTERM, SIG_DFL);
    std::signal(SIGPIPE, SIG_DFL);
    server_.store(nullptr);''', '''    std::signal(SIGPIPE, SIG_DFL);
    std::signal(SIGTERM, SIG_DFL);
    std::signal(SIGINT, SIG_DFL);
    server_ = nullptr;'''), (U, '''    ion::Http2Server* expected = nullptr;
    if (!server_.compare_exchange_strong(expected, &server)) {
        throw std::runtime_error("SignalHandler has already been initialized!");
    }
    return SignalHandler(server);''', '''    ion::Http2Server* expected = nullptr;
    const bool first = server_.compare_exchange_strong(expected, &server);
    if (first) {
        return SignalHandler{server};
    }
    throw std::runtime_error("SignalHandler has already been initialized!");'''))
