"""a second set of edits, written without looking at the first"""
from refac import R

# --- hpack
R('m-int-dec-flat', 'C01', ('lib/hpack/int_decoder.cpp', '''    const uint8_t prefix = *byte_res & mask;
    sum += prefix;
    bool cont = prefix == mask;

    uint32_t shift = 0;
    while (cont) {
''', '''    const uint8_t prefix = *byte_res & mask;
    if (prefix != mask) {
        return prefix;
    }
    sum = mask;

    for (uint32_t shift = 0;; shift += 7) {
'''), ('lib/hpack/int_decoder.cpp', '''        sum += value << shift;
        shift += 7;
        cont = *continuation_res & 0x80;
    }
    return sum;
''', '''        sum += value << shift;
        if ((*continuation_res & 0x80) == 0) {
            return sum;
        }
    }
'''))
R('m-int-enc-const', 'C02 C01', ('lib/hpack/int_encoder.cpp', '''    if (value < (1 << prefix_bits) - 1) {
        return {static_cast<uint8_t>(value)};
    }

    std::vector<uint8_t> result{};
    result.push_back(static_cast<uint8_t>((1 << prefix_bits) - 1));
    value -= (1 << prefix_bits) - 1;

    while (value >= 0x80) {
        result.push_back(static_cast<uint8_t>((value & 0x7F) | 0x80));
        value >>= 7;
    }
''', '''    const uint32_t limit = (1u << prefix_bits) - 1u;
    std::vector<uint8_t> result{};
    if (value < limit) {
        result.push_back(static_cast<uint8_t>(value));
        return result;
    }

    result.emplace_back(static_cast<uint8_t>(limit));
    for (value -= limit; value > 0x7F; value /= 128) {
        result.emplace_back(static_cast<uint8_t>(value % 128 + 128));
    }
'''))
R('m-dt-insert-else', 'C05', ('lib/hpack/dynamic_table.cpp', '''        table_.clear();
        table_size_ = 0;
        return;
    }

    while (table_size_ + entry_size > max_table_size_) {
        table_size_ -= get_header_entry_size(table_.back());
        table_.pop_back();
    }
''', '''        table_size_ = 0;
        table_ = {};
        return;
    }

    while (max_table_size_ - table_size_ < entry_size) {
        const HttpHeader& oldest = table_.back();
        table_size_ -= get_header_entry_size(oldest);
        table_.pop_back();
    }
'''))
R('m-dt-set-max-loop', 'C05', ('lib/hpack/dynamic_table.cpp', '''    max_table_size_ = new_sz;
    while (table_size_ > max_table_size_) {
        assert(!table_.empty());
        table_size_ -= get_header_entry_size(table_.back());
        table_.pop_back();
    }
''', '''    for (max_table_size_ = new_sz; table_size_ > new_sz; table_.pop_back()) {
        table_size_ -= get_header_entry_size(table_.back());
    }
'''))
R('m-dec-value-or', 'C06', ('lib/hpack/header_block_decoder.cpp', '''    if (*index < 1) {
        spdlog::error("invalid header index (<1)");
        return std::unexpected(FrameError::ProtocolError);
    }
    return read_indexed_header(*index);
''', '''    if (const uint32_t i = index.value(); i != 0) {
        return read_indexed_header(i);
    }
    spdlog::error("invalid header index (<1)");
    return std::unexpected(FrameError::ProtocolError);
'''))
R('m-dec-push', 'C06', ('lib/hpack/header_block_decoder.cpp', '''                if (auto hdr = decode_literal_field(6, reader)) {
                    dynamic_table_.insert(hdr.value());
                    hdrs.push_back(hdr.value());
                } else {
                    return std::unexpected(hdr.error());
                }
                break;
''', '''                auto hdr = decode_literal_field(6, reader);
                if (!hdr) {
                    return std::unexpected(hdr.error());
                }
                hdrs.push_back(*hdr);
                dynamic_table_.insert(hdrs.back());
                break;
'''))
R('m-dec-string-span', 'C04', ('lib/hpack/header_block_decoder.cpp', '''    auto raw_data = data.subspan(0, size);
    return std::string{raw_data.begin(), raw_data.end()};
''', '''    return std::string(reinterpret_cast<const char*>(data.data()), size);
'''))
R('m-enc-literal-lambda', 'C07', ('lib/hpack/header_block_encoder.cpp', '''            // encode string
            const auto len_and_str_bytes = write_length_and_string(hdr.value);
            bytes.insert(bytes.end(), len_and_str_bytes.begin(), len_and_str_bytes.end());

            // insert into dynamic table
            dynamic_table_.insert(hdr);
            continue;
        }

        // is dynamic field header name?
''', '''            append_value(hdr);
            continue;
        }

        // is dynamic field header name?
'''), ('lib/hpack/header_block_encoder.cpp', '''            write_index(bytes, index, 6, 0x40);

            // encode string
            const auto len_and_str_bytes = write_length_and_string(hdr.value);
            bytes.insert(bytes.end(), len_and_str_bytes.begin(), len_and_str_bytes.end());

            // insert into dynamic table
            dynamic_table_.insert(hdr);
            continue;
''', '''            write_index(bytes, index, 6, 0x40);
            append_value(hdr);
            continue;
'''), ('lib/hpack/header_block_encoder.cpp', '''    for (auto& hdr : headers) {
        // is static header?
''', '''    // writes the value and remembers the header
    const auto append_value = [&](const HttpHeader& header) {
        const auto encoded = write_length_and_string(header.value);
        bytes.insert(bytes.end(), encoded.begin(), encoded.end());
        dynamic_table_.insert(header);
    };

    for (auto& hdr : headers) {
        // is static header?
'''))
R('m-enc-static-static', 'C07', ('lib/hpack/header_block_encoder.cpp', '''        // is static header?
        const auto st_it = std::find_if(
            STATIC_TABLE.begin(), STATIC_TABLE.end(), [hdr](const StaticHttpHeader& header) {
                return header.name == hdr.name && header.value == hdr.value;
            });

        if (st_it != STATIC_TABLE.end()) {
            // found static header
            const size_t table_index = std::distance(STATIC_TABLE.begin(), st_it);
            const size_t index = table_index + 1;
            bytes.push_back(static_cast<uint8_t>(index | 0x80));
            continue;
        }
''', '''        // is static header?
        if (const auto index = find_static(hdr)) {
            bytes.push_back(static_cast<uint8_t>(*index | 0x80));
            continue;
        }
'''), ('lib/hpack/header_block_encoder.cpp', '''static void write_index(''', '''// the static table index of the header, from 1
static std::optional<size_t> find_static(const HttpHeader& hdr) {
    const auto it = std::find_if(STATIC_TABLE.begin(), STATIC_TABLE.end(),
                                 [&hdr](const StaticHttpHeader& header) {
                                     return header.name == hdr.name && header.value == hdr.value;
                                 });
    if (it == STATIC_TABLE.end()) {
        return std::nullopt;
    }
    return std::distance(STATIC_TABLE.begin(), it) + 1;
}

static void write_index('''))
R('m-huff-merge', 'C03', ('lib/hpack/huffman_tree.cpp', '''    size_t pending_bits = 0;
    bool pending_all_ones = true;
    while (br.has_more()) {
        const bool bit = br.read_bit();
        bits_processed++;
        pending_bits++;
        pending_all_ones = pending_all_ones && bit;
''', '''    size_t pending_bits = 0;
    bool pending_all_ones = true;
    for (; br.has_more(); ++bits_processed) {
        const bool bit = br.read_bit();
        ++pending_bits;
        if (!bit) {
            pending_all_ones = false;
        }
'''))

# --- connection
R('m-conn-data-total', 'C11', ('lib/http2_conn.cpp', '''    size_t remaining_bytes = body.size();
    size_t start = 0;

    while (remaining_bytes != 0) {
        size_t chunk_size = std::min(remaining_bytes, MAX_FRAME_SIZE - 128);
        remaining_bytes -= chunk_size;
''', '''    constexpr size_t max_chunk = MAX_FRAME_SIZE - 128;
    size_t start = 0;

    while (start < body.size()) {
        const size_t left = body.size() - start;
        const size_t chunk_size = left < max_chunk ? left : max_chunk;
        const size_t remaining_bytes = left - chunk_size;
'''))
R('m-conn-settings-validate', 'C09 C07', ('lib/http2_conn.cpp', '''                for (const auto& setting : *settings) {
                    if (setting.identifier == SETTINGS_HEADER_TABLE_SIZE) {
                        encoder_.set_max_table_size(
                            std::min<size_t>(setting.value, PROTOCOL_DEFAULT_TABLE_SIZE));
                    }
                }
                spdlog::debug("read {} settings, sending ACK", settings->size());
                write_settings_ack();
''', '''                for (size_t i = 0; i < settings->size(); ++i) {
                    const auto [identifier, value] = (*settings)[i];
                    if (identifier != SETTINGS_HEADER_TABLE_SIZE) {
                        continue;
                    }
                    const size_t wanted = value;
                    encoder_.set_max_table_size(wanted < PROTOCOL_DEFAULT_TABLE_SIZE
                                                    ? wanted
                                                    : PROTOCOL_DEFAULT_TABLE_SIZE);
                }
                write_settings_ack();
                spdlog::debug("read {} settings, ACK queued", settings->size());
'''))
R('m-conn-answer-helper', 'C11 C12 C20', ('lib/http2_conn.cpp', '''            auto resp = process_request(*hdrs, span);
            auto hdrs_bytes = encoder_.encode(resp.headers);
            log_dynamic_tables();

            auto ending_stream = resp.body.empty();
            write_headers_response(frame.stream_id(), hdrs_bytes,
                                   FLAG_END_HEADERS | (ending_stream ? FLAG_END_STREAM : 0));
            spdlog::info(std::format("{} status code sent w/headers", resp.status_code));

            if (!ending_stream) {
''', '''            const HttpResponse resp = process_request(*hdrs, span);
            const auto hdrs_bytes = encoder_.encode(resp.headers);
            log_dynamic_tables();

            uint8_t flags = FLAG_END_HEADERS;
            if (resp.body.empty()) {
                flags |= FLAG_END_STREAM;
            }
            write_headers_response(frame.stream_id(), hdrs_bytes, flags);
            spdlog::info(std::format("{} status code sent w/headers", resp.status_code));

            if (!resp.body.empty()) {
'''))
R('m-conn-request-build', 'C12', ('lib/http2_conn.cpp', '''    resp.headers.insert(resp.headers.begin(),
                        HttpHeader{":status", std::to_string(resp.status_code)});
    if (!resp.body.empty()) {
        resp.headers.push_back({"content-length", std::to_string(resp.body.size())});
    }
    resp.headers.push_back({"server", std::string{SERVER_HEADER}});
    resp.headers.push_back({"x-powered-by", std::string{SERVER_HEADER}});
    return resp;
''', '''    std::vector<HttpHeader> all;
    all.reserve(resp.headers.size() + 4);
    all.push_back({":status", std::to_string(resp.status_code)});
    for (auto& hdr : resp.headers) {
        all.push_back(std::move(hdr));
    }
    if (const size_t length = resp.body.size(); length > 0) {
        all.push_back({"content-length", std::to_string(length)});
    }
    for (const char* name : {"server", "x-powered-by"}) {
        all.push_back({name, std::string{SERVER_HEADER}});
    }
    resp.headers = std::move(all);
    return resp;
'''))
R('m-conn-flush-error', 'C13 C14', ('lib/http2_conn.cpp', '''    auto result = transport_->write(write_buffer_);
    if (!result) {
        if (result.error() == TransportError::WantReadOrWrite) {
            // do nothing. The buffer remains intact for the next attempt.
            // SSL_write requirement: address and size stay the same.
            spdlog::trace("transport busy, write will be resumed later");
        } else {
            spdlog::error("failed to flush write buffer: error: {}",
                          static_cast<int>(result.error()));
            update_state(Http2ConnectionState::ProtocolError);
            return false;
        }
        return true;
    }
    update_last_activity();
    spdlog::trace("flushed {} bytes from write buffer", *result);

    // remove what was actually sent
    write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + *result);
    return true;
''', '''    const auto result = transport_->write(write_buffer_);
    if (result.has_value()) {
        const auto sent = result.value();
        update_last_activity();
        spdlog::trace("flushed {} bytes from write buffer", sent);
        if (static_cast<size_t>(sent) == write_buffer_.size()) {
            write_buffer_.clear();
        } else {
            write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + sent);
        }
        return true;
    }
    if (result.error() != TransportError::WantReadOrWrite) {
        spdlog::error("failed to flush write buffer: error: {}", static_cast<int>(result.error()));
        update_state(Http2ConnectionState::ProtocolError);
        return false;
    }
    spdlog::trace("transport busy, write will be resumed later");
    return true;
'''))
R('m-conn-frame-opt', 'C10', ('lib/http2_conn.cpp', '''    const size_t total_frame_size = Http2FrameHeader::wire_size + header.length;
    if (read_buffer_.size() < total_frame_size) {
        spdlog::trace("not enough data for whole frame ({} < {})", read_buffer_.size(),
                      total_frame_size);
        return false;
    }

    Http2FrameReader frame{header, buffer.subspan(Http2FrameHeader::wire_size, header.length)};
    process_frame(frame);
    discard_processed_buffer(total_frame_size);
    return true;
''', '''    const std::span<const uint8_t> rest = buffer.subspan(Http2FrameHeader::wire_size);
    const bool complete = rest.size() >= header.length;
    if (complete) {
        Http2FrameReader frame{header, rest.first(header.length)};
        process_frame(frame);
        discard_processed_buffer(Http2FrameHeader::wire_size + header.length);
    } else {
        spdlog::trace("not enough data for whole frame ({} < {})", rest.size(), header.length);
    }
    return complete;
'''))
R('m-conn-close-switch', 'C14', ('lib/http2_conn.cpp', '''    write_goaway(last_stream_id_, (state_ != Http2ConnectionState::ProtocolError) ? ErrorCode::no_error
                                                                    : ErrorCode::protocol_error);
''', '''    auto code = ErrorCode::no_error;
    if (state_ == Http2ConnectionState::ProtocolError) {
        code = ErrorCode::protocol_error;
    }
    write_goaway(last_stream_id_, code);
'''))
R('m-conn-process-helper', 'C14', ('lib/http2_conn.cpp', '''Http2ProcessResult Http2Connection::process() {
    try {
        return internal_process();
    } catch (const std::exception& e) {
        spdlog::error("unhandled error processing connection: {}", e.what());
        update_state(Http2ConnectionState::ProtocolError);
        return Http2ProcessResult::DiscardConnection;
    } catch (...) {
        spdlog::error("unhandled error processing connection: unknown exception");
        update_state(Http2ConnectionState::ProtocolError);
        return Http2ProcessResult::DiscardConnection;
    }
}
''', '''Http2ProcessResult Http2Connection::process() {
    std::string reason;
    try {
        return internal_process();
    } catch (const std::exception& e) {
        reason = e.what();
    } catch (...) {
        reason = "unknown exception";
    }
    spdlog::error("unhandled error processing connection: {}", reason);
    update_state(Http2ConnectionState::ProtocolError);
    return Http2ProcessResult::DiscardConnection;
}
'''))
R('m-frame-flags', 'C08 C09', ('lib/http2_conn.cpp', '''            if (frame.has_flag(0x01)) {
                spdlog::debug("received SETTINGS ACK");
            } else {
''', '''            if ((frame.flags() & 0x01) == 0x01) {
                spdlog::debug("received SETTINGS ACK");
            } else {
'''))

# --- server, router, files, log
R('m-srv-events-mask', 'C18 C26', ('lib/http2_server.cpp', '''    if (has_event(poll_events, PollEventType::Error) ||
        has_event(poll_events, PollEventType::Hangup)) {
        spdlog::debug("poll indicated connection closed");
        connections_.erase(it);
        poller.remove(fd);
        return;
    }

    if (!has_event(poll_events, PollEventType::Read) &&
        !has_event(poll_events, PollEventType::Write)) {
        return;
    }

    // assume we are not write blocked until WantWrite occurs again
    if (has_event(poll_events, PollEventType::Write)) {
        poller.set(fd, PollEventType::Read);
    }
''', '''    const bool gone = has_event(poll_events, PollEventType::Error) ||
                      has_event(poll_events, PollEventType::Hangup);
    if (gone) {
        spdlog::debug("poll indicated connection closed");
        poller.remove(fd);
        connections_.erase(fd);
        return;
    }

    const bool writable = has_event(poll_events, PollEventType::Write);
    if (!writable && !has_event(poll_events, PollEventType::Read)) {
        return;
    }

    // assume we are not write blocked until WantWrite occurs again
    if (writable) {
        poller.set(fd, PollEventType::Read);
    }
'''))
R('m-srv-events-if', 'C18', ('lib/http2_server.cpp', '''    const auto& conn = it->second;
    switch (conn->process()) {
        case Http2ProcessResult::WantWrite:
            spdlog::trace("will poll write events for fd {}", fd);
            poller.set(fd, PollEventType::Read | PollEventType::Write);
            break;
        case Http2ProcessResult::WantRead:
            // interest is already Read (or was reset above), just keep waiting
            break;
        case Http2ProcessResult::DiscardConnection:
            spdlog::info("closing connection");
            poller.remove(fd);
            connections_.erase(it);
            break;
    }
''', '''    const Http2ProcessResult outcome = it->second->process();
    if (outcome == Http2ProcessResult::DiscardConnection) {
        spdlog::info("closing connection");
        poller.remove(fd);
        connections_.erase(it);
    } else if (outcome == Http2ProcessResult::WantWrite) {
        spdlog::trace("will poll write events for fd {}", fd);
        poller.set(fd, PollEventType::Read | PollEventType::Write);
    }
'''))
R('m-srv-accept-helper', 'C18', ('lib/http2_server.cpp', '''            if (fd == listener_fd) {
                try {
                    handle_incoming_connection(listener, *poller);
                } catch (const std::exception& e) {
                    spdlog::error("failed to accept connection: {}", e.what());
                }
            } else {
                handle_connection_events(*poller, fd, poll_events);
            }
''', '''            if (fd != listener_fd) {
                handle_connection_events(*poller, fd, poll_events);
                continue;
            }
            try {
                handle_incoming_connection(listener, *poller);
            } catch (const std::exception& e) {
                spdlog::error("failed to accept connection: {}", e.what());
            }
'''))
R('m-srv-reap-key', 'C19 C18', ('lib/http2_server.cpp', '''        const auto& conn = it->second;
        if (conn->has_timed_out()) {
            spdlog::warn("closing connection due to inactivity (fd: {})", it->first);
            poller.remove(it->first);
            it = connections_.erase(it);
        } else {
            ++it;
        }
''', '''        if (!it->second->has_timed_out()) {
            ++it;
            continue;
        }
        const int fd = it->first;
        spdlog::warn("closing connection due to inactivity (fd: {})", fd);
        it = connections_.erase(it);
        poller.remove(fd);
'''))
R('m-srv-conn-transport', 'C18 C24', ('lib/http2_server.cpp', '''    if (config_.cleartext) {
        return std::make_unique<TcpTransport>(std::move(fd));
    }
    return std::make_unique<TlsTransport>(std::move(fd), *tls_ctx_);
''', '''    std::unique_ptr<Transport> transport;
    if (tls_ctx_) {
        transport = std::make_unique<TlsTransport>(std::move(fd), tls_ctx_.value());
    } else {
        transport = std::make_unique<TcpTransport>(std::move(fd));
    }
    return transport;
'''))
R('m-router-opt', 'C15', ('lib/router.cpp', '''    RouteHandler target = default_handler_;

    bool found = false;
    for (const auto& route : routes_) {
        if (route.path == path && route.method == method) {
            target = route.handler;
            found = true;
            break;
        }
    }

    if (!found) {
        if (method == "GET" || method == "HEAD") {
''', '''    RouteHandler target = default_handler_;

    const auto match = std::find_if(routes_.cbegin(), routes_.cend(), [&](const Route& route) {
        return route.method == method && route.path == path;
    });

    if (match != routes_.cend()) {
        target = match->handler;
    } else {
        const bool is_get = method == "GET";
        if (is_get || method == "HEAD") {
'''))
R('m-router-mw', 'C15', ('lib/router.cpp', '''    auto current_chain = middleware_chain_;
    middleware_chain_ = [current_chain, mw](RouteHandler h) {
        return current_chain(mw(std::move(h)));
    };
''', '''    middleware_chain_ = [outer = std::move(middleware_chain_), inner = std::move(mw)](RouteHandler h) {
        RouteHandler wrapped = inner(std::move(h));
        return outer(std::move(wrapped));
    };
'''))
R('m-static-view', 'C17 C16', ('lib/static_file_handler.cpp', '''    if (rel_path.empty() || rel_path == "/") {
        rel_path = "/index.html";
    }

    if (rel_path.starts_with("/")) {
        rel_path = rel_path.substr(1);
    }

    return rel_path;
''', '''    if (!rel_path.empty() && rel_path.front() == '/') {
        rel_path.erase(0, 1);
    }
    return rel_path.empty() ? "index.html" : rel_path;
'''))
R('m-static-size', 'C17', ('lib/file_reader.cpp', '''    if (std::filesystem::exists(path, ec) && std::filesystem::is_regular_file(path, ec)) {
        auto size = std::filesystem::file_size(path, ec);
        if (!ec) {
            return size;
        }
    }
''', '''    if (std::filesystem::is_regular_file(path, ec)) {
        const auto size = std::filesystem::file_size(path, ec);
        if (!ec) {
            return static_cast<size_t>(size);
        }
    }
'''))
R('m-file-readable', 'C17', ('lib/file_reader.cpp', '''    struct stat st;
    if (stat(path.c_str(), &st) != 0) {
        return false;
    }

    // Check if it's a regular file
    if (!S_ISREG(st.st_mode)) {
        return false;
    }

    // Check if readable
    return access(path.c_str(), R_OK) == 0;
''', '''    struct stat st{};
    const char* name = path.c_str();
    const bool regular = stat(name, &st) == 0 && (st.st_mode & S_IFMT) == S_IFREG;
    return regular && access(name, R_OK) == 0;
'''))
R('m-file-mime-early', 'C17', ('lib/file_reader.cpp', '''    std::string ext = path.substr(pos);
    auto it = mime_types.find(ext);
    return it != mime_types.end() ? it->second : "application/octet-stream";
''', '''    if (const auto it = mime_types.find(path.substr(pos)); it != mime_types.end()) {
        return it->second;
    }
    return "application/octet-stream";
'''))
R('m-file-rel', 'C16', ('lib/file_reader.cpp', '''        fs::path requested(requested_path);
        fs::path combined = requested.is_absolute() ? requested : (base / requested);
''', '''        const fs::path combined = base / fs::path(requested_path);
'''))
R('m-log-local', 'C20', ('lib/access_log.cpp', '''    const auto entry =
        std::format(R"({} - - {} "{} {} HTTP/2" {} {} "{}" "{}")",
                    (client_ip.empty() ? "-" : client_ip), SystemClock::clf_timestamp(),
                    escape(method), escape(path), status_code, content_length, escape(referrer),
                    escape(user_agent));
    access_log->info(entry);
''', '''    const std::string ip = client_ip.empty() ? std::string{"-"} : client_ip;
    const auto request = std::format("\\"{} {} HTTP/2\\"", escape(method), escape(path));
    const auto client = std::format("\\"{}\\" \\"{}\\"", escape(referrer), escape(user_agent));
    access_log->info(std::format("{} - - {} {} {} {} {}", ip, SystemClock::clf_timestamp(), request,
                                 status_code, content_length, client));
'''))
R('m-log-escape-append', 'C20', ('lib/access_log.cpp', '''        if (c == '"' || c == '\\\\') {
            result += '\\\\';
            result += c;
        } else if (octet < 0x20 || octet == 0x7f) {
            result += std::format("\\\\x{:02x}", octet);
        } else {
            result += c;
        }
''', '''        if (octet < 0x20 || octet == 0x7f) {
            result.append(std::format("\\\\x{:02x}", octet));
            continue;
        }
        if (c == '"' || c == '\\\\') {
            result.push_back('\\\\');
        }
        result.push_back(c);
'''))
