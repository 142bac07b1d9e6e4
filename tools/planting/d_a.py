from plants import plant, HPACK, CONN

plant('c11-end-stream-early', 'C11',
      [('lib/http2_conn.cpp', '''        size_t chunk_size = std::min(remaining_bytes, MAX_FRAME_SIZE - 128);
        remaining_bytes -= chunk_size;''', '''        size_t chunk_size = std::min(remaining_bytes, MAX_FRAME_SIZE - 128);
        if (remaining_bytes - chunk_size <= 128) {
            // avoid a tiny trailing frame
            chunk_size = remaining_bytes;
        }
        if (chunk_size > MAX_FRAME_SIZE - 1) {
            chunk_size = MAX_FRAME_SIZE + 1;
        }
        remaining_bytes -= std::min(chunk_size, remaining_bytes);''')],
      CONN, r'''
#include "conn_demo.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    for (size_t n : {1ul, 16255ul, 16256ul, 16383ul, 16384ul, 16385ul, 32768ul, 50000ul}) {
        ion::Router r;
        Bytes body(n, 'b');
        r.add_route("/b", "GET", [&](const ion::HttpRequest&) { return ion::HttpResponse{.status_code = 200, .body = body}; });
        Conn c(r);
        Bytes in = preface();
        auto q = request(1, "/b");
        in.insert(in.end(), q.begin(), q.end());
        c.w->in.push_back(in);
        c.c->process();
        bool whole;
        auto fs = frames(c.w->out, &whole);
        CHECK(whole);
        Bytes got;
        for (auto& f : fs) {
            CHECK(f.len <= 16384);
            if (f.type == 0) got.insert(got.end(), f.p.begin(), f.p.end());
        }
        CHECK(got == body);
    }
    return 0;
}
''', 'a response body whose last piece would be between 1 and 128 octets with a total of 16384 octets in the last frame', 'a DATA frame of 16385 octets is announced and octets outside the body are sent')

plant('c13-flush-drops', 'C13',
      [('lib/http2_conn.cpp', '''    write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + *result);''',
        '''    if (static_cast<size_t>(*result) + Http2FrameHeader::wire_size > write_buffer_.size()) {
        write_buffer_.clear();
    } else {
        write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + *result);
    }''')],
      CONN, r'''
#include "conn_demo.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    Bytes body(1000, 'b');
    r.add_route("/b", "GET", [&](const ion::HttpRequest&) { return ion::HttpResponse{.status_code = 200, .body = body}; });
    auto run = [&](std::deque<long> acc) {
        Conn c(r);
        Bytes in = preface();
        auto q = request(1, "/b");
        in.insert(in.end(), q.begin(), q.end());
        c.w->in.push_back(in);
        c.w->accept = acc;
        for (int i = 0; i < 10; ++i) c.c->process();
        return c.w->out;
    };
    Bytes all = run({});
    for (long k = 1; k < 1100; ++k) CHECK(run({1000000, k}) == all);
    return 0;
}
''', 'a partial write that leaves between 1 and 8 octets of the queue unsent', 'the last octets of the queue are dropped')

plant('c10-frame-at-limit', 'C10',
      [('lib/http2_conn.cpp', 'if (header.length > MAX_FRAME_SIZE) {', 'if (header.length + Http2FrameHeader::wire_size > MAX_FRAME_SIZE) {')],
      CONN, r'''
#include "conn_demo.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    r.add_route("/b", "GET", [&](const ion::HttpRequest&) { return ion::HttpResponse{.status_code = 204}; });
    for (size_t n : {0ul, 100ul, 16375ul, 16376ul, 16384ul}) {
        Conn c(r);
        c.w->in.push_back(preface());
        c.w->in.push_back(frame(0x20, 0, 1, Bytes(n, 7)));    // an unknown frame type is skipped
        c.w->in.push_back(request(1, "/b"));
        CHECK(c.c->process() == ion::Http2ProcessResult::WantRead);
        auto fs = frames(c.w->out);
        CHECK(fs.size() == 2 && fs[1].type == 1);
    }
    return 0;
}
''', 'a frame with a payload of 16376 to 16384 octets', 'a frame of allowed size is taken for a protocol error')

plant('c01-shift-limit', 'C01',
      [('lib/hpack/int_decoder.cpp', '''        if (shift > 28) {
            return std::unexpected(IntegerDecodeError::TooManyContinuationBytes);
        }
        if (value > (std::numeric_limits<uint32_t>::max() - sum) >> shift) {
            return std::unexpected(IntegerDecodeError::IntegerOverflow);
        }

        sum += value << shift;''', '''        if (shift > 28) {
            return std::unexpected(IntegerDecodeError::TooManyContinuationBytes);
        }
        const uint64_t next = sum + (static_cast<uint64_t>(value) << shift);
        if (next > (uint64_t{1} << 32)) {
            return std::unexpected(IntegerDecodeError::IntegerOverflow);
        }

        sum = static_cast<uint32_t>(next);''')],
      ['lib/hpack/int_decoder', 'lib/hpack/byte_reader'], r'''
#include <cstdio>
#include <vector>
#include "hpack/int_decoder.h"
int main() {
    // 2^32 with a 5-bit prefix: 31 + 0xffffffe1
    std::vector<uint8_t> in{0x1f, 0xe1, 0xff, 0xff, 0xff, 0x0f};
    ByteReader r{in};
    ion::IntegerDecoder d;
    auto v = d.decode(r, 5);
    if (v) std::printf("decoded %u\n", *v);
    return v ? 1 : 0;
}
''', 'an encoded integer of exactly 2^32', 'the integer decodes to 0 instead of being refused')
