from refac import R
F = 'lib/http2_frames.h'
R('frames-loop', 'C08', (F, '''    data[0] = static_cast<uint8_t>(value >> 24 & 0xFF);
    data[1] = static_cast<uint8_t>(value >> 16 & 0xFF);
    data[2] = static_cast<uint8_t>(value >> 8 & 0xFF);
    data[3] = static_cast<uint8_t>(value & 0xFF);''', '''    for (size_t i = 0; i < 4; ++i) {
        data[i] = static_cast<uint8_t>(value >> (24 - 8 * i));
    }'''), (F, '''    return static_cast<uint32_t>(data[0]) << 24 | static_cast<uint32_t>(data[1]) << 16 |
           static_cast<uint32_t>(data[2]) << 8 | static_cast<uint32_t>(data[3]);''', '''    uint32_t value = 0;
    for (const uint8_t octet : data) {
        value = value << 8 | octet;
    }
    return value;'''))
R('frames-parse-assign', 'C08 C09', (F, '''        return Http2FrameHeader{.length = load_uint24_be(data.subspan<0, 3>()),
                                .type = data[3],
                                .flags = data[4],
                                .stream_id = load_uint32_be(data.subspan<5, 4>()) & 0x7FFFFFFF};''', '''        Http2FrameHeader header{};
        header.length = load_uint24_be(data.first<3>());
        header.type = data[3];
        header.flags = data[4];
        header.stream_id = load_uint32_be(data.last<4>()) & 0x7FFFFFFFU;
        return header;'''))
R('frames-24', 'C08', (F, '''    data[0] = static_cast<uint8_t>(value >> 16 & 0xFF);
    data[1] = static_cast<uint8_t>(value >> 8 & 0xFF);
    data[2] = static_cast<uint8_t>(value & 0xFF);''', '''    data[2] = static_cast<uint8_t>(value);
    data[1] = static_cast<uint8_t>(value / 256);
    data[0] = static_cast<uint8_t>(value / 65536);'''))
N = 'lib/http2_frame_reader.h'
R('reader-block-local', 'C09', (N, '''        const auto prefix_size = headers_prefix_size();
        if (payload_.size() < prefix_size) {
            return false;
        }
        return !padded() || payload_[0] <= payload_.size() - prefix_size;''', '''        const size_t announced = headers_prefix_size();
        const bool room_for_fields = announced <= payload_.size();
        if (room_for_fields && padded()) {
            return announced + payload_.front() <= payload_.size();
        }
        return room_for_fields;'''), (N, '''        size_t size = 0;
        if (padded()) {
            size += 1;  // skip pad length (8)
        }
        if (priority()) {
            size += 5;  // skip exclusive (1), stream dependency (31) & weight (8)
        }
        return size;''', '''        return (padded() ? 1 : 0) + (priority() ? 5 : 0);'''), (N, '''        return payload_.subspan(prefix_size, payload_.size() - prefix_size - padding_size);''', '''        return payload_.subspan(prefix_size).first(payload_.size() - prefix_size - padding_size);'''))
S = 'lib/http2_frame_reader.cpp'
R('settings-subspan', 'C09', (S, '''    for (size_t i = 0; i < num_settings; ++i) {
        std::span<const uint8_t, Http2Setting::wire_size> entry{
            payload_.data() + i * Http2Setting::wire_size, Http2Setting::wire_size};
        settings.push_back(Http2Setting::parse(entry));
    }
''', '''    auto rest = payload_;
    while (!rest.empty()) {
        settings.push_back(Http2Setting::parse(rest.first<Http2Setting::wire_size>()));
        rest = rest.subspan(Http2Setting::wire_size);
    }
'''))
R('settings-offset', 'C09', (S, '''    for (size_t i = 0; i < num_settings; ++i) {
        std::span<const uint8_t, Http2Setting::wire_size> entry{
            payload_.data() + i * Http2Setting::wire_size, Http2Setting::wire_size};
        settings.push_back(Http2Setting::parse(entry));
    }
''', '''    for (size_t offset = 0; offset < payload_.size(); offset += Http2Setting::wire_size) {
        std::span<const uint8_t, Http2Setting::wire_size> entry{
            payload_.data() + offset, Http2Setting::wire_size};
        settings.push_back(Http2Setting::parse(entry));
    }
'''))
H = 'lib/http2_conn.cpp'
HH = 'lib/http2_conn.h'
CONN = 'C09 C10 C11 C12 C13 C14'
R('conn-handle-settings', 'C07 C09 C11 C13 C14', (H, '''                auto settings = frame.read_settings();
                if (!settings) {
                    update_state(Http2ConnectionState::ProtocolError);
                    return;
                }
                for (const auto& setting : *settings) {
                    if (setting.identifier == SETTINGS_HEADER_TABLE_SIZE) {
                        encoder_.set_max_table_size(
                            std::min<size_t>(setting.value, PROTOCOL_DEFAULT_TABLE_SIZE));
                    }
                }
                spdlog::debug("read {} settings, sending ACK", settings->size());
                write_settings_ack();
''', '''                process_settings(frame);
'''), (H, '''void Http2Connection::process_frame(const Http2FrameReader& frame) {''', '''void Http2Connection::process_settings(const Http2FrameReader& frame) {
    const auto settings = frame.read_settings();
    if (!settings.has_value()) {
        update_state(Http2ConnectionState::ProtocolError);
        return;
    }
    for (const auto& [identifier, value] : *settings) {
        if (identifier != SETTINGS_HEADER_TABLE_SIZE) {
            continue;
        }
        const size_t size = value;
        encoder_.set_max_table_size(size < PROTOCOL_DEFAULT_TABLE_SIZE ? size : PROTOCOL_DEFAULT_TABLE_SIZE);
    }
    write_settings_ack();
}

void Http2Connection::process_frame(const Http2FrameReader& frame) {'''), (HH, '''    void update_state(''', '''    void process_settings(const Http2FrameReader& frame);
    void update_state('''))
R('conn-headers-helper', CONN + ' C20', (H, '''            auto resp = process_request(*hdrs, span);
            auto hdrs_bytes = encoder_.encode(resp.headers);
            log_dynamic_tables();

            auto ending_stream = resp.body.empty();
            write_headers_response(frame.stream_id(), hdrs_bytes,
                                   FLAG_END_HEADERS | (ending_stream ? FLAG_END_STREAM : 0));
            spdlog::info(std::format("{} status code sent w/headers", resp.status_code));

            if (!ending_stream) {
                spdlog::info("sending response body (length: {})", resp.body.size());
                write_data_response(frame.stream_id(), resp.body);
            }
''', '''            const auto resp = process_request(*hdrs, span);
            write_response(frame.stream_id(), resp);
'''), (H, '''void Http2Connection::process_frame(const Http2FrameReader& frame) {''', '''void Http2Connection::write_response(uint32_t stream_id, const HttpResponse& resp) {
    const auto block = encoder_.encode(resp.headers);
    uint8_t flags = FLAG_END_HEADERS;
    const bool has_body = !resp.body.empty();
    if (!has_body) {
        flags |= FLAG_END_STREAM;
    }
    write_headers_response(stream_id, block, flags);
    spdlog::info("{} status code sent w/headers", resp.status_code);
    if (has_body) {
        write_data_response(stream_id, resp.body);
    }
}

void Http2Connection::process_frame(const Http2FrameReader& frame) {'''), (HH, '''    void update_state(''', '''    void write_response(uint32_t stream_id, const HttpResponse& resp);
    void update_state('''))
R('conn-write-data-for', 'C11 C13', (H, '''    size_t remaining_bytes = body.size();
    size_t start = 0;

    while (remaining_bytes != 0) {
        size_t chunk_size = std::min(remaining_bytes, MAX_FRAME_SIZE - 128);
        remaining_bytes -= chunk_size;

        const Http2FrameHeader frame_header{
            .length = static_cast<uint32_t>(chunk_size),
            .type = FRAME_TYPE_DATA,
            .flags = remaining_bytes == 0 ? FLAG_END_STREAM : static_cast<uint8_t>(0),
            .stream_id = stream_id};

        write_frame_header(frame_header);

        spdlog::trace("enqueuing data frame for write (size: {}, rem: {})", chunk_size,
                      remaining_bytes);

        enqueue_write(std::span(body.data() + start, chunk_size));

        start += chunk_size;
    }''', '''    static constexpr size_t max_chunk = MAX_FRAME_SIZE - 128;
    for (size_t start = 0; start < body.size();) {
        const size_t chunk_size = std::min(body.size() - start, max_chunk);
        const bool last = start + chunk_size == body.size();
        write_frame_header({.length = static_cast<uint32_t>(chunk_size),
                            .type = FRAME_TYPE_DATA,
                            .flags = static_cast<uint8_t>(last ? FLAG_END_STREAM : 0),
                            .stream_id = stream_id});
        enqueue_write(std::span(body).subspan(start, chunk_size));
        start += chunk_size;
    }'''))
R('conn-write-data-span', 'C11', (H, '''    size_t remaining_bytes = body.size();
    size_t start = 0;

    while (remaining_bytes != 0) {
        size_t chunk_size = std::min(remaining_bytes, MAX_FRAME_SIZE - 128);
        remaining_bytes -= chunk_size;
''', '''    std::span<const uint8_t> rest{body};

    while (!rest.empty()) {
        const size_t chunk_size = std::min(rest.size(), MAX_FRAME_SIZE - 128);
        const auto chunk = rest.first(chunk_size);
        rest = rest.subspan(chunk_size);
        const size_t remaining_bytes = rest.size();
'''), (H, '''        enqueue_write(std::span(body.data() + start, chunk_size));

        start += chunk_size;
''', '''        enqueue_write(chunk);
'''))
R('conn-write-headers-while', 'C11 C13', (H, '''    uint8_t type = FRAME_TYPE_HEADERS;
    do {
        const auto fragment = headers_data.first(std::min(headers_data.size(), MAX_FRAME_SIZE));
        headers_data = headers_data.subspan(fragment.size());

        // END_HEADERS belongs on the last frame of the header block only
        const auto fragment_flags =
            headers_data.empty() ? flags : static_cast<uint8_t>(flags & ~FLAG_END_HEADERS);
        const Http2FrameHeader header{.length = static_cast<uint32_t>(fragment.size()),
                                      .type = type,
                                      .flags = fragment_flags,
                                      .stream_id = stream_id};

        write_frame_header(header);
        enqueue_write(fragment);

        type = FRAME_TYPE_CONTINUATION;
        flags &= FLAG_END_HEADERS;
    } while (!headers_data.empty());''', '''    bool first = true;
    size_t offset = 0;
    while (first || offset < headers_data.size()) {
        const size_t size = std::min(headers_data.size() - offset, MAX_FRAME_SIZE);
        const bool last = offset + size == headers_data.size();
        uint8_t frame_flags = first ? flags : static_cast<uint8_t>(flags & FLAG_END_HEADERS);
        if (!last) {
            frame_flags &= static_cast<uint8_t>(~FLAG_END_HEADERS);
        }
        write_frame_header(Http2FrameHeader{.length = static_cast<uint32_t>(size),
                                            .type = first ? FRAME_TYPE_HEADERS : FRAME_TYPE_CONTINUATION,
                                            .flags = frame_flags,
                                            .stream_id = stream_id});
        enqueue_write(headers_data.subspan(offset, size));
        offset += size;
        first = false;
    }'''))
R('conn-flush-guard', 'C13 C14 C19', (H, '''    auto result = transport_->write(write_buffer_);
    if (!result) {
        if (result.error() == TransportError::WantReadOrWrite) {
            // do nothing. The buffer remains intact for the next attempt.
            // SSL_write requirement: address and size stay the same.
            spdlog::trace("transport busy, write will be resumed later");
        } else {
            spdlog::error("failed to flush write buffer: error: {}",
                          static_cast<int>(result.error()));
            update_state(Http2ConnectionState::ProtocolError);
            return false;
        }
        return true;
    }
    update_last_activity();
    spdlog::trace("flushed {} bytes from write buffer", *result);

    // remove what was actually sent
    write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + *result);
    return true;''', '''    const auto result = transport_->write(write_buffer_);
    if (result.has_value()) {
        const auto sent = result.value();
        write_buffer_.erase(write_buffer_.begin(), std::next(write_buffer_.begin(), sent));
        update_last_activity();
        return true;
    }
    if (result.error() != TransportError::WantReadOrWrite) {
        update_state(Http2ConnectionState::ProtocolError);
        return false;
    }
    return true;'''))
R('conn-fill-ifs', 'C10 C14 C19', (H, '''            switch (bytes_read_res.error()) {
                case TransportError::WantReadOrWrite:
                    spdlog::trace("transport want read/write");
                    break;
                case TransportError::ConnectionClosed:
                    spdlog::debug("transport connection closed");
                    update_state(Http2ConnectionState::ClientClosed);
                    break;
                case TransportError::ProtocolError:
                    spdlog::error("transport protocol error");
                    update_state(Http2ConnectionState::ProtocolError);
                    break;
                case TransportError::WriteError:
                    spdlog::error("transport write error");
                    break;
                case TransportError::OtherError:
                    spdlog::error("transport other error (presumed non fatal)");
                    break;
            }
            return;''', '''            handle_read_error(bytes_read_res.error());
            return;'''), (H, '''void Http2Connection::fill_read_buffer() {
    while (true) {
        if (read_buffer_.size() + TEMP_READ_BUFFER_SIZE >= MAX_READ_BUFFER_SIZE) {
            spdlog::debug("read buffer full");
            return;
        }
''', '''void Http2Connection::handle_read_error(TransportError error) {
    if (error == TransportError::ConnectionClosed) {
        update_state(Http2ConnectionState::ClientClosed);
    } else if (error == TransportError::ProtocolError) {
        update_state(Http2ConnectionState::ProtocolError);
    }
}

void Http2Connection::fill_read_buffer() {
    while (read_buffer_.size() < MAX_READ_BUFFER_SIZE - TEMP_READ_BUFFER_SIZE) {
'''), (HH, '''    void fill_read_buffer();''', '''    void fill_read_buffer();
    void handle_read_error(TransportError error);'''))
R('conn-fill-append', 'C10', (H, '''        const auto bytes_read = *bytes_read_res;
        update_last_activity();
        read_buffer_.insert(read_buffer_.end(), buffer.begin(), buffer.begin() + bytes_read);
''', '''        const auto received = std::span<const uint8_t>(buffer).first(static_cast<size_t>(*bytes_read_res));
        read_buffer_.insert(read_buffer_.end(), received.begin(), received.end());
        const auto bytes_read = received.size();
        update_last_activity();
'''))
R('conn-preface-equal', 'C10 C14', (H, '''    std::span<const uint8_t, CLIENT_PREFACE.size()> preface_span{read_buffer_.data(),
                                                                 CLIENT_PREFACE.size()};
    const std::string_view received(reinterpret_cast<const char*>(preface_span.data()),
                                    preface_span.size());
    if (received != CLIENT_PREFACE) {''', '''    const bool matches = std::equal(CLIENT_PREFACE.begin(), CLIENT_PREFACE.end(), read_buffer_.begin());
    if (!matches) {'''))
R('conn-preface-memcmp', 'C10 C14', (H, '''    std::span<const uint8_t, CLIENT_PREFACE.size()> preface_span{read_buffer_.data(),
                                                                 CLIENT_PREFACE.size()};
    const std::string_view received(reinterpret_cast<const char*>(preface_span.data()),
                                    preface_span.size());
    if (received != CLIENT_PREFACE) {''', '''    if (std::memcmp(read_buffer_.data(), CLIENT_PREFACE.data(), CLIENT_PREFACE.size()) != 0) {'''), (H, '#include <format>\n', '#include <cstring>\n#include <format>\n'))
R('conn-preface-order', 'C10 C14', (H, '''    write_settings();
    update_state(Http2ConnectionState::AwaitingFrame);
    discard_processed_buffer(CLIENT_PREFACE.size());
    return''', '''    discard_processed_buffer(CLIENT_PREFACE.length());
    update_state(Http2ConnectionState::AwaitingFrame);
    write_settings();
    return'''))
R('conn-frame-span', 'C09 C10', (H, '''    std::span<const uint8_t> buffer{read_buffer_};
    const auto header = Http2FrameHeader::parse(buffer.subspan<0, Http2FrameHeader::wire_size>());''', '''    const std::span<const uint8_t> buffer{read_buffer_.data(), read_buffer_.size()};
    const auto header = Http2FrameHeader::parse(buffer.first<Http2FrameHeader::wire_size>());'''), (H, '''    const size_t total_frame_size = Http2FrameHeader::wire_size + header.length;
    if (read_buffer_.size() < total_frame_size) {''', '''    const size_t total_frame_size = header.length + Http2FrameHeader::wire_size;
    const auto available = buffer.size();
    if (available < total_frame_size) {'''), (H, '''    Http2FrameReader frame{header, buffer.subspan(Http2FrameHeader::wire_size, header.length)};
    process_frame(frame);''', '''    const auto payload = buffer.subspan(Http2FrameHeader::wire_size).first(header.length);
    process_frame(Http2FrameReader{header, payload});'''))
R('conn-loop-switch', 'C10 C13 C14', (H, '''        switch (state_) {
            case Http2ConnectionState::AwaitingPreface: {
                switch (read_preface()) {
                    case ReadPrefaceResult::Success:
                        break;
                    case ReadPrefaceResult::NotEnoughData:
                        return Http2ProcessResult::WantRead;
                    case ReadPrefaceResult::ProtocolError:
                        return Http2ProcessResult::DiscardConnection;
                }
                break;  // send SETTINGS before waiting for a frame
            }
            case Http2ConnectionState::AwaitingFrame: {
                if (try_read_frame()) {
                    spdlog::debug("frame processed, continuing...");
                    break;
                }
                return Http2ProcessResult::WantRead;
            }''', '''        switch (state_) {
            case Http2ConnectionState::AwaitingPreface: {
                const auto preface = read_preface();
                if (preface == ReadPrefaceResult::NotEnoughData) {
                    return Http2ProcessResult::WantRead;
                }
                if (preface != ReadPrefaceResult::Success) {
                    return Http2ProcessResult::DiscardConnection;
                }
                continue;  // send SETTINGS before waiting for a frame
            }
            case Http2ConnectionState::AwaitingFrame: {
                if (!try_read_frame()) {
                    return Http2ProcessResult::WantRead;
                }
                continue;
            }'''))
R('conn-loop-for', 'C10 C13 C14', (H, '''Http2ProcessResult Http2Connection::internal_process() {
    while (true) {''', '''Http2ProcessResult Http2Connection::internal_process() {
    for (;;) {'''), (H, '''        if (!flush_write_buffer()) {
            return Http2ProcessResult::DiscardConnection;
        }

        // if we still have data to send, we are blocked on writing
        if (!write_buffer_.empty()) {
            return Http2ProcessResult::WantWrite;
        }
''', '''        const bool flushed = flush_write_buffer();
        if (!flushed) {
            return Http2ProcessResult::DiscardConnection;
        }
        if (write_buffer_.size() > 0) {
            return Http2ProcessResult::WantWrite;
        }
'''))
R('conn-handshake-invert', 'C14 C19', (H, '''    if (auto handshake_result = transport_->handshake()) {
        update_last_activity();
        spdlog::trace("transport handshake complete");
        update_state(Http2ConnectionState::AwaitingPreface);
        return std::nullopt;
    } else {
        if (handshake_result.error() == TransportError::WantReadOrWrite) {
            spdlog::trace("handshake: want read/write");
            return Http2ProcessResult::WantRead;
        }
        if (handshake_result.error() == TransportError::ConnectionClosed) {
            spdlog::trace("handshake: connection closed");
            return Http2ProcessResult::DiscardConnection;
        }
        spdlog::trace("handshake: connection error");
        return Http2ProcessResult::DiscardConnection;
    }''', '''    const auto handshake_result = transport_->handshake();
    if (!handshake_result) {
        return handshake_result.error() == TransportError::WantReadOrWrite
                   ? Http2ProcessResult::WantRead
                   : Http2ProcessResult::DiscardConnection;
    }
    update_state(Http2ConnectionState::AwaitingPreface);
    update_last_activity();
    return {};'''))
R('conn-get-header-loop', 'C12 C20', (H, '''    const auto it = std::find_if(headers.begin(), headers.end(),
                                 [name](const HttpHeader& hdr) { return hdr.name == name; });
    if (it == headers.end()) {
        return std::nullopt;
    }
    return it->value;''', '''    for (const auto& hdr : headers) {
        if (hdr.name == name) {
            return hdr.value;
        }
    }
    return std::nullopt;'''))
R('conn-request-helper', 'C12', (H, '''        try {
            resp = handler(req);
        } catch (const std::exception& e) {
            spdlog::error("error processing request: {}", e.what());
            resp = HttpResponse{.status_code = 500};
        } catch (...) {
            spdlog::error("error processing request: unknown exception");
            resp = HttpResponse{.status_code = 500};
        }
    }''', '''        resp = call_handler(handler, req);
    }'''), (H, '''HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& headers,
''', '''static HttpResponse call_handler(const RouteHandler& handler, const HttpRequest& req) {
    try {
        return handler(req);
    } catch (const std::exception& e) {
        spdlog::error("error processing request: {}", e.what());
    } catch (...) {
        spdlog::error("error processing request: unknown exception");
    }
    return HttpResponse{.status_code = 500};
}

HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& headers,
'''))
R('conn-request-headers', 'C12', (H, '''    resp.headers.insert(resp.headers.begin(),
                        HttpHeader{":status", std::to_string(resp.status_code)});
    if (!resp.body.empty()) {
        resp.headers.push_back({"content-length", std::to_string(resp.body.size())});
    }
    resp.headers.push_back({"server", std::string{SERVER_HEADER}});
    resp.headers.push_back({"x-powered-by", std::string{SERVER_HEADER}});
    return resp;''', '''    std::vector<HttpHeader> all;
    all.reserve(resp.headers.size() + 4);
    all.push_back({":status", std::to_string(resp.status_code)});
    all.insert(all.end(), resp.headers.begin(), resp.headers.end());
    if (const auto length = resp.body.size(); length > 0) {
        all.push_back({"content-length", std::to_string(length)});
    }
    const std::string server_name{SERVER_HEADER};
    all.push_back({"server", server_name});
    all.push_back({"x-powered-by", server_name});
    resp.headers = std::move(all);
    return resp;'''))
R('conn-request-early', 'C12', (H, '''    HttpResponse resp;
    if (!path || !method) {
        spdlog::error("invalid request: missing path or method");
        resp = HttpResponse{.status_code = 400};
    } else {
''', '''    HttpResponse resp{};
    const bool valid = path.has_value() && method.has_value();
    if (!valid) {
        resp.status_code = 400;
    }
    if (valid) {
'''))
R('conn-close-guard', 'C14', (H, '''    if (state_ == Http2ConnectionState::Closing) {
        spdlog::error("attempting to close connection in closing state");
        return;
    }
    write_goaway(last_stream_id_, (state_ != Http2ConnectionState::ProtocolError) ? ErrorCode::no_error
                                                                    : ErrorCode::protocol_error);
    spdlog::debug("GOAWAY frame enqueued");
    update_state(Http2ConnectionState::Closing);''', '''    if (state_ != Http2ConnectionState::Closing) {
        auto code = ErrorCode::no_error;
        if (state_ == Http2ConnectionState::ProtocolError) {
            code = ErrorCode::protocol_error;
        }
        update_state(Http2ConnectionState::Closing);
        write_goaway(last_stream_id_, code);
    }'''))
R('conn-goaway-order', 'C11 C14', (H, '''    write_frame_header(header);

    std::array<uint8_t, Http2GoAwayPayload::wire_size> payload_bytes{};
    payload.serialize(payload_bytes);
    enqueue_write(payload_bytes);''', '''    std::array<uint8_t, Http2GoAwayPayload::wire_size> octets{};
    payload.serialize(octets);
    write_frame_header(header);
    enqueue_write(octets);'''), (H, '''        if (new_state != state_) {'''[4:], '''    if (state_ == new_state) {
        return;
    }
    {'''))
R('conn-enqueue-loop', 'C11 C13', (H, '''    write_buffer_.insert(write_buffer_.end(), data.begin(), data.end());''', '''    for (const auto octet : data) {
        write_buffer_.push_back(octet);
    }'''))
R('conn-settings-array', 'C11', (H, '''    const std::vector<Http2Setting> settings = {{0x0003, 100},    // MAX_CONCURRENT_STREAMS
                                                {0x0004, 65535},  // INITIAL_WINDOW_SIZE
                                                {0x0005, MAX_FRAME_SIZE}};
    write_settings(settings);''', '''    std::vector<Http2Setting> settings;
    settings.push_back({.identifier = 0x0003, .value = 100});
    settings.push_back({.identifier = 0x0004, .value = 65535});
    settings.push_back({.identifier = 0x0005, .value = MAX_FRAME_SIZE});
    write_settings(settings);'''))
R('conn-timeout', 'C19', (H, '''    return (std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT;''', '''    const auto idle = std::chrono::steady_clock::now() - last_activity_;
    return idle > IDLE_TIMEOUT;'''))
R('conn-timeout-deadline', 'C19', (H, '''    return (std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT;''', '''    const auto deadline = last_activity_ + IDLE_TIMEOUT;
    return deadline < std::chrono::steady_clock::now();'''))
R('conn-frame-switch-if', 'C09 C14', (H, '''            if (frame.length() != Http2WindowUpdate::wire_size) {
                spdlog::error("invalid WINDOW_UPDATE frame: length is {}", frame.length());
                update_state(Http2ConnectionState::ProtocolError);
                return;
            }
            const auto [window_size_increment] = frame.read_window_update();
            spdlog::debug("window size increment = {}", window_size_increment);
            break;''', '''            if (frame.payload().size() == Http2WindowUpdate::wire_size) {
                const auto update = frame.read_window_update();
                spdlog::debug("window size increment = {}", update.window_size_increment);
            } else {
                update_state(Http2ConnectionState::ProtocolError);
            }
            break;'''))
R('conn-process-nested', 'C14', (H, '''    try {
        return internal_process();
    } catch (const std::exception& e) {
        spdlog::error("unhandled error processing connection: {}", e.what());
        update_state(Http2ConnectionState::ProtocolError);
        return Http2ProcessResult::DiscardConnection;
    } catch (...) {
        spdlog::error("unhandled error processing connection: unknown exception");
        update_state(Http2ConnectionState::ProtocolError);
        return Http2ProcessResult::DiscardConnection;
    }''', '''    auto result = Http2ProcessResult::DiscardConnection;
    try {
        result = internal_process();
    } catch (const std::exception& e) {
        spdlog::error("unhandled error processing connection: {}", e.what());
        update_state(Http2ConnectionState::ProtocolError);
    } catch (...) {
        update_state(Http2ConnectionState::ProtocolError);
    }
    return result;'''))
A = 'lib/access_log.cpp'
R('log-first-match', 'C20', (A, '''    std::string method{"-"};
    std::string path{"-"};
    std::string user_agent{"-"};
    std::string referrer{"-"};

    // of a header the client repeats, the first is the one the request was served by
    for (const auto& [name, value] : req_headers | std::views::reverse) {
        if (name == ":method") {
            method = value;
        }
        if (name == ":path") {
            path = value;
        }
        if (name == "user-agent") {
            user_agent = value;
        }
        if (name == "referer") {
            referrer = value;
        }
    }''', '''    const auto first_value = [&req_headers](std::string_view wanted) -> std::string {
        for (const auto& header : req_headers) {
            if (header.name == wanted) {
                return header.value;
            }
        }
        return "-";
    };
    const std::string method = first_value(":method");
    const std::string path = first_value(":path");
    const std::string user_agent = first_value("user-agent");
    const std::string referrer = first_value("referer");'''))
R('log-find-if', 'C20', (A, '''    std::string method{"-"};
    std::string path{"-"};
    std::string user_agent{"-"};
    std::string referrer{"-"};

    // of a header the client repeats, the first is the one the request was served by
    for (const auto& [name, value] : req_headers | std::views::reverse) {
        if (name == ":method") {
            method = value;
        }
        if (name == ":path") {
            path = value;
        }
        if (name == "user-agent") {
            user_agent = value;
        }
        if (name == "referer") {
            referrer = value;
        }
    }''', '''    const std::string method = first_value(req_headers, ":method");
    const std::string path = first_value(req_headers, ":path");
    const std::string user_agent = first_value(req_headers, "user-agent");
    const std::string referrer = first_value(req_headers, "referer");'''), (A, '''void AccessLog::log_request(''', '''static std::string first_value(const std::vector<HttpHeader>& headers, const std::string& name) {
    const auto it = std::find_if(headers.begin(), headers.end(),
                                 [&name](const HttpHeader& hdr) { return hdr.name == name; });
    return it != headers.end() ? it->value : "-";
}

void AccessLog::log_request('''))
R('log-elseif', 'C20', (A, '''        if (name == ":method") {
            method = value;
        }
        if (name == ":path") {
            path = value;
        }
        if (name == "user-agent") {
            user_agent = value;
        }
        if (name == "referer") {''', '''        if (name == ":method") {
            method = value;
        } else if (name == ":path") {
            path = value;
        } else if (name == "user-agent") {
            user_agent = value;
        } else if (name == "referer") {'''))
R('log-escape-switch', 'C20', (A, '''        if (c == '"' || c == '\\\\') {
            result += '\\\\';
            result += c;
        } else if (octet < 0x20 || octet == 0x7f) {
            result += std::format("\\\\x{:02x}", octet);
        } else {
            result += c;
        }''', '''        if (octet < 0x20 || octet == 0x7f) {
            std::format_to(std::back_inserter(result), "\\\\x{:02x}", octet);
            continue;
        }
        if (c == '"' || c == '\\\\') {
            result.push_back('\\\\');
        }
        result.push_back(c);'''))
R('log-escape-hex', 'C20', (A, '''            result += std::format("\\\\x{:02x}", octet);''', '''            static constexpr char digits[] = "0123456789abcdef";
            result += "\\\\x";
            result += digits[octet >> 4];
            result += digits[octet & 0x0f];'''))
R('log-concat', 'C20', (A, '''    const auto entry =
        std::format(R"({} - - {} "{} {} HTTP/2" {} {} "{}" "{}")",
                    (client_ip.empty() ? "-" : client_ip), SystemClock::clf_timestamp(),
                    escape(method), escape(path), status_code, content_length, escape(referrer),
                    escape(user_agent));
    access_log->info(entry);''', '''    const std::string address = client_ip.empty() ? std::string{"-"} : client_ip;
    std::string entry = address + " - - " + SystemClock::clf_timestamp();
    entry += " \\"" + escape(method) + " " + escape(path) + " HTTP/2\\" ";
    entry += std::to_string(status_code) + " " + std::to_string(content_length);
    entry += " \\"" + escape(referrer) + "\\" \\"" + escape(user_agent) + "\\"";
    access_log->info(entry);'''))
