from plants import plant, HPACK, CONN
SERVER = CONN + ['lib/' + f for f in 'http2_server server_config socket_fd stop_reason tcp_listener pollers/epoll_poller pollers/poll_poller pollers/poller transports/tcp_transport transports/tls_context transports/tls_transport'.split()]

plant('c02-residual-128', 'C02',
      [('lib/hpack/int_encoder.cpp', 'while (value >= 0x80) {', 'while (value > 0x80) {')],
      ['lib/hpack/int_encoder', 'lib/hpack/int_decoder', 'lib/hpack/byte_reader'], r'''
#include <cstdio>
#include <cstdint>
#include <cstddef>
#include <string>
#include "hpack/int_encoder.h"
#include "hpack/int_decoder.h"
int main() {
    for (uint8_t p = 1; p <= 8; ++p)
        for (uint64_t v = 0; v < 3000000; v += 1 + v / 4000) {
            auto e = ion::IntegerEncoder::encode(static_cast<uint32_t>(v), p);
            ByteReader r{e};
            auto d = ion::IntegerDecoder::decode(r, p);
            if (!d || *d != v || r.has_bytes()) { std::printf("%llu with prefix %d\n", (unsigned long long)v, p); return 1; }
        }
    return 0;
}
''', 'an integer whose remainder after the prefix (and some groups of seven bits) is exactly 128', 'the last octet announces a continuation that does not follow')

plant('c03-swapped-codes', 'C03',
      [('lib/hpack/huffman_codes.h', '{0xffffffd, 28},  {0x7ffffe3, 27}', '{0xffffffe, 28},  {0x7ffffe3, 27}'),
       ('lib/hpack/huffman_codes.h', '{0x7ffffea, 27},  {0x7ffffeb, 27},  {0xffffffe, 28}', '{0x7ffffea, 27},  {0x7ffffeb, 27},  {0xffffffd, 28}')],
      HPACK, r'''
#include <cstdio>
#include <cstdint>
#include <string>
#include <vector>
#include <spdlog/spdlog.h>
#include "hpack/header_block_decoder.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    // a literal field, name "a", value: the code of octet 220 (0xffffffd, 28 bits), padded with ones
    std::vector<uint8_t> in{0x00, 0x01, 'a', 0x84, 0xff, 0xff, 0xff, 0xdf};
    ion::DynamicTable t;
    ion::HeaderBlockDecoder d{t};
    auto h = d.decode(in);
    return h && h->size() == 1 && (*h)[0].value == "\xdc" ? 0 : 1;
}
''', 'a Huffman-coded string with octet 220 or 249', 'the two octets are exchanged; what this server writes it also reads back')

plant('c04-exact-limit', 'C04',
      [('lib/hpack/header_block_decoder.cpp', 'if (size > MAX_HEADER_STRING_LENGTH) {', 'if (size >= MAX_HEADER_STRING_LENGTH) {')],
      HPACK, r'''
#include <cstdio>
#include <cstdint>
#include <string>
#include <vector>
#include <spdlog/spdlog.h>
#include "hpack/header_block_decoder.h"
#include "hpack/header_block_encoder.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    for (size_t n : {1u, 3u, 4u, 4095u, 4096u}) {
        ion::DynamicTable a, b;
        ion::HeaderBlockEncoder e{a};
        ion::HeaderBlockDecoder d{b};
        auto h = d.decode(e.encode({{"x-long", std::string(n, 'v')}}));
        if (!h || h->size() != 1 || (*h)[0].value != std::string(n, 'v')) { std::printf("%zu\n", n); return 1; }
    }
    return 0;
}
''', 'a header string of exactly 4096 octets', 'a string of the allowed length is refused')

plant('c05-nul-size', 'C05',
      [('lib/hpack/dynamic_table.cpp', 'return header.name.size() + header.value.size() + 32;', 'return header.name.size() + std::char_traits<char>::length(header.value.c_str()) + 32;')],
      ['lib/hpack/dynamic_table'], r'''
#include <cstdio>
#include <string>
#include <spdlog/spdlog.h>
#include "hpack/dynamic_table.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::DynamicTable t(100);
    std::string v = "ab";
    v.push_back('\0');
    v += std::string(40, 'c');
    t.insert({"name", v});                        // 4 + 43 + 32 = 79
    t.insert({"n", "v"});                         // 34: the first has to go
    return t.count() == 1 && t.size() == 34 ? 0 : 1;
}
''', 'a header value with a NUL octet', 'the entry is accounted for fewer octets than it has, so the table outgrows its maximum and evicts later than the peer\'s')

plant('c06-name-index', 'C06',
      [('lib/hpack/header_block_decoder.cpp', '''    if (dynamic_index >= dynamic_table_.count()) {
        spdlog::error("invalid dynamic table index lookup for header name''', '''    if (dynamic_index > dynamic_table_.count()) {
        spdlog::error("invalid dynamic table index lookup for header name''')],
      HPACK, r'''
#include <cstdio>
#include <cstdint>
#include <string>
#include <vector>
#include <spdlog/spdlog.h>
#include "hpack/header_block_decoder.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::DynamicTable t;
    ion::HeaderBlockDecoder d{t};
    // insert one entry (index 62), then a literal with name index 63
    std::vector<uint8_t> in{0x40, 0x01, 'a', 0x01, 'b', 0x7f, 0x00, 0x01, 'c'};
    return d.decode(in) ? 1 : 0;
}
''', 'a literal field whose name index is exactly one past the last dynamic entry', 'an entry that does not exist is read (undefined behaviour) instead of a decoding error', extra='-fsanitize=address')

plant('c07-skip-oversize', 'C07',
      [('lib/hpack/header_block_encoder.cpp', '''        bytes.insert(bytes.end(), value_len_and_str_bytes.begin(), value_len_and_str_bytes.end());

        // insert into dynamic table
        dynamic_table_.insert(hdr);''', '''        bytes.insert(bytes.end(), value_len_and_str_bytes.begin(), value_len_and_str_bytes.end());

        // insert into dynamic table (if it can be held at all)
        if (hdr.name.size() + hdr.value.size() + 32 <= dynamic_table_.max_size()) {
            dynamic_table_.insert(hdr);
        }''')],
      HPACK, r'''
#include <cstdio>
#include <cstdint>
#include <string>
#include <vector>
#include <spdlog/spdlog.h>
#include "hpack/header_block_decoder.h"
#include "hpack/header_block_encoder.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::DynamicTable a(200), b(200);
    ion::HeaderBlockEncoder e{a};
    ion::HeaderBlockDecoder d{b};
    std::vector<std::vector<ion::HttpHeader>> blocks{{{"x-a", "1"}}, {{"x-big", std::string(300, 'y')}}, {{"x-a", "1"}}};
    for (auto& h : blocks) {
        auto r = d.decode(e.encode(h));
        if (!r || r->size() != h.size() || (*r)[0].name != h[0].name || (*r)[0].value != h[0].value) return 1;
    }
    return 0;
}
''', 'a new header larger than the whole table, followed by a header that was in the table before', 'the encoder keeps entries the decoder has dropped: later blocks refer to entries the peer does not have')

plant('c08-stream-mask', 'C08',
      [('lib/http2_frames.h', 'store_uint32_be(stream_id & 0x7FFFFFFF, data.subspan<5, 4>());', 'store_uint32_be(stream_id & 0x3FFFFFFF, data.subspan<5, 4>());')],
      [], r'''
#include <array>
#include <cstddef>
#include <cstdint>
#include "http2_frames.h"
int main() {
    for (uint32_t id : {0u, 1u, 0x3fffffffu, 0x40000001u, 0x7fffffffu}) {
        std::array<uint8_t, 9> b{};
        ion::Http2FrameHeader h{.length = 5, .type = 1, .flags = 4, .stream_id = id};
        h.serialize(b);
        if (ion::Http2FrameHeader::parse(b).stream_id != id) return 1;
    }
    return 0;
}
''', 'a stream identifier of 2^30 or more', 'frames are written for another stream')

plant('c09-settings-count', 'C09',
      [('lib/http2_frame_reader.cpp', 'const auto num_settings = payload_.size() / Http2Setting::wire_size;', 'const uint8_t num_settings = payload_.size() / Http2Setting::wire_size;')],
      ['lib/http2_frame_reader'], r'''
#include <cstddef>
#include <cstdint>
#include <vector>
#include <spdlog/spdlog.h>
#include "http2_frame_reader.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    for (size_t n : {0u, 1u, 255u, 256u, 300u}) {
        std::vector<uint8_t> p(n * 6);
        for (size_t i = 0; i < n; ++i) { p[6 * i + 1] = 4; p[6 * i + 4] = i >> 8; p[6 * i + 5] = i; }
        ion::Http2FrameReader f{{.length = uint32_t(p.size()), .type = 4, .flags = 0, .stream_id = 0}, p};
        auto s = f.read_settings();
        if (!s || s->size() != n) return 1;
        for (size_t i = 0; i < n; ++i) if ((*s)[i].identifier != 4 || (*s)[i].value != i) return 1;
    }
    return 0;
}
''', 'a SETTINGS frame with 256 settings or more', 'only the number of settings modulo 256 is read')

plant('c10-small-read-buffer', 'C10',
      [('lib/http2_conn.cpp', 'MAX_READ_BUFFER_SIZE = 64 * 1024;', 'MAX_READ_BUFFER_SIZE = 32 * 1024;')],
      CONN, r'''
#include "conn_demo.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    r.add_route("/b", "GET", [&](const ion::HttpRequest&) { return ion::HttpResponse{.status_code = 204}; });
    Bytes all = preface();
    for (auto& f : {frame(0x20, 0, 1, Bytes(16384, 7)), request(1, "/b")}) all.insert(all.end(), f.begin(), f.end());
    for (size_t first : {24ul, 100ul, 16000ul, 24ul + 16383, 24ul + 16384, 24ul + 16388, 24ul + 16392, 24ul + 16393}) {
        Conn c(r);
        c.w->in.push_back(Bytes(all.begin(), all.begin() + 24));
        c.c->process();
        if (first > 24) c.w->in.push_back(Bytes(all.begin() + 24, all.begin() + first));
        c.c->process();
        c.w->in.push_back(Bytes(all.begin() + first, all.end()));
        for (int i = 0; i < 5; ++i) c.c->process();
        auto fs = frames(c.w->out);
        CHECK(fs.size() == 2 && fs[1].type == 1);
    }
    return 0;
}
''', 'a frame of nearly the largest size of which 16384 to 16392 octets have arrived when reading pauses', 'reading stops for good: the rest of the frame is never read')

plant('c12-header-prefix', 'C12',
      [('lib/http2_conn.cpp', '[name](const HttpHeader& hdr) { return hdr.name == name; }', '[name](const HttpHeader& hdr) { return hdr.name.starts_with(name); }')],
      CONN, r'''
#include "conn_demo.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    r.add_route("/b", "GET", [&](const ion::HttpRequest&) { return ion::HttpResponse{.status_code = 204}; });
    Conn c(r);
    c.w->in.push_back(preface());
    Bytes h;
    field(h, ":method", "GET");
    field(h, ":pathology", "/x");
    field(h, ":path", "/b");
    c.w->in.push_back(frame(1, 5, 1, h));
    c.c->process();
    auto fs = frames(c.w->out);
    CHECK(fs.size() == 2 && fs[1].type == 1 && !fs[1].p.empty());
    CHECK(fs[1].p[0] == 0x89);     // :status 204 is static entry 9
    return 0;
}
''', 'a request with a header whose name begins with ":path" or ":method" before the real one', 'the request is dispatched by the other header')

plant('c12-status-first', 'C12',
      [('lib/http2_conn.cpp', '''    resp.headers.insert(resp.headers.begin(),
                        HttpHeader{":status", std::to_string(resp.status_code)});''', '''    const auto first_field = std::find_if(resp.headers.begin(), resp.headers.end(),
                                          [](const HttpHeader& hdr) { return !hdr.name.starts_with("x-"); });
    resp.headers.insert(first_field, HttpHeader{":status", std::to_string(resp.status_code)});''')],
      CONN, r'''
#include "conn_demo.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    r.add_route("/b", "GET", [&](const ion::HttpRequest&) { return ion::HttpResponse{.status_code = 204, .headers = {{"x-trace", "1"}}}; });
    Conn c(r);
    c.w->in.push_back(preface());
    c.w->in.push_back(request(1, "/b"));
    c.c->process();
    auto fs = frames(c.w->out);
    CHECK(fs.size() == 2 && fs[1].type == 1 && !fs[1].p.empty());
    CHECK(fs[1].p[0] == 0x89);
    return 0;
}
''', 'a handler whose first header name begins with x-', ':status follows a regular header: the response is malformed')

plant('c14-oversize-waits', 'C14',
      [('lib/http2_conn.cpp', '''        update_state(Http2ConnectionState::ProtocolError);
        return true;
    }

    const size_t total_frame_size''', '''        update_state(Http2ConnectionState::ProtocolError);
        return false;
    }

    const size_t total_frame_size''')],
      CONN, r'''
#include "conn_demo.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    Conn c(r);
    c.w->in.push_back(preface());
    c.w->in.push_back(Bytes{0x01, 0x00, 0x00, 0x00, 0x00, 0, 0, 0, 1});    // 65536 octets announced
    CHECK(c.c->process() == ion::Http2ProcessResult::DiscardConnection);
    auto fs = frames(c.w->out);
    CHECK(fs.size() == 2 && fs[1].type == 7 && fs[1].p[7] == 1);
    return 0;
}
''', 'a frame larger than the limit, after which the client waits for the answer', 'the error is not answered and the connection is kept until something else happens')

plant('c14-goaway-answered', 'C14',
      [('lib/http2_conn.cpp', '''            case Http2ConnectionState::ClientClosed: {
                return Http2ProcessResult::DiscardConnection;
            }
            default: {''', '''            case Http2ConnectionState::ClientClosed: {
                // answer what was received before the end of the input
                if (!try_read_frame()) {
                    return Http2ProcessResult::DiscardConnection;
                }
                break;
            }
            default: {''')],
      CONN, r'''
#include "conn_demo.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    int served = 0;
    ion::Router r;
    r.add_route("/b", "GET", [&](const ion::HttpRequest&) { ++served; return ion::HttpResponse{.status_code = 204}; });
    Conn c(r);
    c.w->in.push_back(preface());
    c.w->in.push_back(frame(7, 0, 0, Bytes(8, 0)));
    c.w->in.push_back(request(1, "/b"));
    CHECK(c.c->process() == ion::Http2ProcessResult::DiscardConnection);
    CHECK(served == 0);
    return 0;
}
''', 'a request that follows a GOAWAY frame in the same input', 'a connection the client has closed still serves requests')

plant('c15-head-route', 'C15',
      [('lib/router.cpp', 'if (route.path == path && route.method == method) {', 'if (route.path == path && (route.method == method || (method == "HEAD" && route.method == "GET"))) {')],
      ['lib/router', 'lib/static_file_handler', 'lib/file_reader'], r'''
#include <spdlog/spdlog.h>
#include "router.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    r.add_route("/a", "GET", [](const ion::HttpRequest&) { return ion::HttpResponse{.status_code = 200}; });
    r.add_route("/a", "HEAD", [](const ion::HttpRequest&) { return ion::HttpResponse{.status_code = 204}; });
    ion::HttpRequest q{.method = "HEAD", .path = "/a"};
    return r.get_handler("/a", "HEAD")(q).status_code == 204 ? 0 : 1;
}
''', 'a path with a GET route and a HEAD route added after it', 'HEAD is answered by the GET route')

plant('c15-method-case', 'C15',
      [('lib/router.cpp', 'if (method == "GET" || method == "HEAD") {', 'if (method.starts_with("GET") || method == "HEAD") {')],
      ['lib/router', 'lib/static_file_handler', 'lib/file_reader'], r'''
#include <cstdlib>
#include <fstream>
#include <string>
#include <spdlog/spdlog.h>
#include "router.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    char t[] = "/tmp/ion-demo-XXXXXX";
    std::string d = mkdtemp(t);
    std::ofstream(d + "/f.txt") << "x";
    ion::Router r;
    r.add_static_handler(std::make_unique<ion::StaticFileHandler>("/s", d));
    ion::HttpRequest q{.method = "GETX", .path = "/s/f.txt"};
    int s = r.get_handler("/s/f.txt", "GETX")(q).status_code;
    ion::HttpRequest g{.method = "GET", .path = "/s/f.txt"};
    int k = r.get_handler("/s/f.txt", "GET")(g).status_code;
    std::remove((d + "/f.txt").c_str());
    rmdir(d.c_str());
    return s == 404 && k == 200 ? 0 : 1;
}
''', 'a request with a method that begins with GET', 'static files are served for methods other than GET and HEAD')

plant('c16-string-prefix', 'C16',
      [('lib/file_reader.cpp', 'for (; base_it != base.end() && full_it != full.end(); ++base_it, ++full_it) {\n            if (*base_it != *full_it) {', 'for (; base_it != base.end() && full_it != full.end(); ++base_it, ++full_it) {\n            if (!full_it->native().starts_with(base_it->native())) {')],
      ['lib/file_reader'], r'''
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <string>
#include <spdlog/spdlog.h>
#include "file_reader.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    char t[] = "/tmp/ion-demo-XXXXXX";
    std::string d = mkdtemp(t);
    std::filesystem::create_directories(d + "/www");
    std::filesystem::create_directories(d + "/www-private");
    std::ofstream(d + "/www-private/key") << "x";
    std::ofstream(d + "/www/f") << "x";
    bool ok = !ion::FileReader::sanitize_path(d + "/www", "../www-private/key") && ion::FileReader::sanitize_path(d + "/www", "f");
    std::filesystem::remove_all(d);
    return ok ? 0 : 1;
}
''', 'a sibling directory whose name begins with the name of the served one', 'files of the sibling are served')

plant('c17-int-size', 'C17',
      [('lib/static_file_handler.cpp', '{{"content-length", std::to_string(*size)}', '{{"content-length", std::to_string(static_cast<uint32_t>(*size))}')],
      ['lib/static_file_handler', 'lib/file_reader'], r'''
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <string>
#include <spdlog/spdlog.h>
#include "http_response.h"
#include "static_file_handler.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    char t[] = "/tmp/ion-demo-XXXXXX";
    std::string d = mkdtemp(t);
    std::ofstream(d + "/big.zip") << "x";
    std::filesystem::resize_file(d + "/big.zip", 5000000000ull);     // sparse
    ion::StaticFileHandler h("/s", d);
    auto r = h.handle("/s/big.zip", true);
    std::filesystem::remove_all(d);
    for (auto& x : r.headers)
        if (x.name == "content-length") return x.value == "5000000000" ? 0 : 1;
    return 1;
}
''', 'a HEAD request for a file of 4 GiB or more', 'the announced length is the length modulo 2^32')
