From 6521c24c24ffbd2ede496c55570f1cf698c1d11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:35 +0000
Subject: [PATCH 01/31] fix: index the Huffman code table with an unsigned
 octet

Octets 0x80..0xff made the signed char index negative, reading outside the table.
---
 lib/hpack/header_block_encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index fe0dcfa..bc76312 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -23,7 +23,7 @@ std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::stri
         // use huffman coding
         BitWriter bw{};
         for (const char c : str) {
-            auto huffman_code = HUFFMAN_CODES[c];
+            auto huffman_code = HUFFMAN_CODES[static_cast<uint8_t>(c)];
             bw.write_bits(huffman_code.lsb_aligned_code, huffman_code.code_len);
         }
         auto bitstream = bw.finalize();
-- 
2.43.0


From a2aa74216b5837c7e29462b94ede92c601a2b71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:35 +0000
Subject: [PATCH 02/31] fix: encode dynamic table indices as HPACK prefix
 integers

Indices of 127 and more (63 and more for a name) do not fit the prefix and were
truncated into a different index.
---
 lib/hpack/header_block_encoder.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index bc76312..94781a6 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -16,6 +16,13 @@ static constexpr size_t MAX_PLAIN_TEXT_STRING_LENGTH = 3;
 HeaderBlockEncoder::HeaderBlockEncoder(DynamicTable& dynamic_table)
     : dynamic_table_(dynamic_table) {}
 
+static void write_index(std::vector<uint8_t>& bytes, size_t index, uint8_t prefix_bits,
+                        uint8_t pattern) {
+    auto encoded_index = IntegerEncoder::encode(static_cast<uint32_t>(index), prefix_bits);
+    encoded_index[0] |= pattern;
+    bytes.insert(bytes.end(), encoded_index.begin(), encoded_index.end());
+}
+
 std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::string& str) {
     std::vector<uint8_t> bytes{};
 
@@ -70,7 +77,7 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
         // check dynamic headers too
         if (auto dyn_table_index = dynamic_table_.find(hdr)) {
             const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x80));
+            write_index(bytes, index, 7, 0x80);
             continue;
         }
 
@@ -96,7 +103,7 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
         // is dynamic field header name?
         if (auto dyn_table_index = dynamic_table_.find_name(hdr.name)) {
             const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x40));
+            write_index(bytes, index, 6, 0x40);
 
             // encode string
             const auto len_and_str_bytes = write_length_and_string(hdr.value);
-- 
2.43.0


From 0039c8eae3b6d52be97d1c75bfd9ae720515f88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:35 +0000
Subject: [PATCH 03/31] fix: reject header fields whose index cannot be decoded

The missing return dereferenced an std::expected that holds an error.
---
 lib/hpack/header_block_decoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hpack/header_block_decoder.cpp b/lib/hpack/header_block_decoder.cpp
index 58de481..69cc6f1 100644
--- a/lib/hpack/header_block_decoder.cpp
+++ b/lib/hpack/header_block_decoder.cpp
@@ -134,6 +134,7 @@ std::expected<HttpHeader, FrameError> HeaderBlockDecoder::decode_indexed_field(B
     const auto index = IntegerDecoder::decode(reader, 7);
     if (!index.has_value()) {
         spdlog::error("failed to decode indexed header index (not enough bytes)");
+        return std::unexpected(FrameError::ProtocolError);
     }
 
     if (*index < 1) {
@@ -148,6 +149,7 @@ std::expected<HttpHeader, FrameError> HeaderBlockDecoder::decode_literal_field(
     const auto index = IntegerDecoder::decode(reader, idx_prefix_bits);
     if (!index.has_value()) {
         spdlog::error("failed to decode literal field index (not enough bytes)");
+        return std::unexpected(FrameError::ProtocolError);
     }
 
     bool is_new_name = *index == 0;
-- 
2.43.0


From d4fd7a7c15e67c2b1e651f4e090f1b8bfd08984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:35 +0000
Subject: [PATCH 04/31] fix: avoid overflow in ByteReader::has_bytes

---
 lib/hpack/byte_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hpack/byte_reader.cpp b/lib/hpack/byte_reader.cpp
index 5d255e8..c150d9d 100644
--- a/lib/hpack/byte_reader.cpp
+++ b/lib/hpack/byte_reader.cpp
@@ -1,7 +1,7 @@
 #include "byte_reader.h"
 
 bool ByteReader::has_bytes(std::size_t count) const {
-    return pos_ + count <= data_.size();
+    return count <= data_.size() - pos_;
 }
 
 std::expected<uint8_t, ByteReaderError> ByteReader::read_byte() {
-- 
2.43.0


From 705dae66b2ab74f9f9263733c4eba5372d13968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:35 +0000
Subject: [PATCH 05/31] fix: reject Huffman strings with invalid padding

RFC 7541 section 5.2: padding longer than 7 bits or not all ones, and EOS, are decoding errors.
---
 lib/hpack/huffman_tree.cpp | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/lib/hpack/huffman_tree.cpp b/lib/hpack/huffman_tree.cpp
index 8375752..dc337a4 100644
--- a/lib/hpack/huffman_tree.cpp
+++ b/lib/hpack/huffman_tree.cpp
@@ -41,32 +41,34 @@ std::expected<std::vector<uint8_t>, HuffmanDecodeError> HuffmanTree::decode(
     BitReader br{data};
     const HuffmanNode* current = root_.get();
     size_t bits_processed = 0;
+    // bits read since the last complete symbol: padding, if the data ends here
+    size_t pending_bits = 0;
+    bool pending_all_ones = true;
     while (br.has_more()) {
-        if (!br.read_bit()) {
-            current = current->left.get();
-        } else {
-            current = current->right.get();
-        }
+        const bool bit = br.read_bit();
         bits_processed++;
+        pending_bits++;
+        pending_all_ones = pending_all_ones && bit;
 
-        if (!current) {
-            while (br.has_more()) {
-                if (!br.read_bit()) {
-                    spdlog::error("remaining unmatched Huffman code is not padding: (bit pos = {})",
-                                  bits_processed);
-                    return std::unexpected{HuffmanDecodeError::InvalidCode};
-                }
-                bits_processed++;
-            }
-            return result;
+        if (current) {
+            current = bit ? current->right.get() : current->left.get();
         }
 
-        if (current->is_terminal()) {
+        if (current && current->is_terminal()) {
             result.push_back(*current->symbol);
             current = root_.get();
+            pending_bits = 0;
+            pending_all_ones = true;
         }
     }
 
+    // padding is at most 7 bits, the most significant bits of EOS (RFC 7541 section 5.2)
+    if (pending_bits > 7 || !pending_all_ones) {
+        spdlog::error("remaining unmatched Huffman code is not padding: (bit pos = {})",
+                      bits_processed);
+        return std::unexpected{HuffmanDecodeError::InvalidCode};
+    }
+
     return result;
 }
 
-- 
2.43.0


From c3b3390205107907ddd284eac7ae5fc8243e92e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:56 +0000
Subject: [PATCH 06/31] fix: reject WINDOW_UPDATE frames whose payload is not 4
 octets

A shorter payload was read past its end.
---
 lib/http2_conn.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 7ea5cb5..bf4d514 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -283,6 +283,11 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
         }
         case FRAME_TYPE_WINDOW_UPDATE: {
             spdlog::debug("received WINDOW_UPDATE frame for stream {}", frame.stream_id());
+            if (frame.length() != Http2WindowUpdate::wire_size) {
+                spdlog::error("invalid WINDOW_UPDATE frame: length is {}", frame.length());
+                update_state(Http2ConnectionState::ProtocolError);
+                return;
+            }
             const auto [window_size_increment] = frame.read_window_update();
             spdlog::debug("window size increment = {}", window_size_increment);
             break;
-- 
2.43.0


From 559fe107d7df0eac0cd13c61ec4cdb131f52d0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:56 +0000
Subject: [PATCH 07/31] fix: strip and validate padding and priority of HEADERS
 frames

Padding was decoded as part of the field block, and a PRIORITY payload shorter than
5 octets was read out of bounds.
---
 lib/http2_conn.cpp       |  6 ++++++
 lib/http2_frame_reader.h | 26 +++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index bf4d514..3423e70 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -253,6 +253,12 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
             spdlog::debug(" - end headers: {}, end stream: {}, length: {}", frame.is_end_headers(),
                           frame.is_end_stream(), frame.length());
 
+            if (!frame.headers_block_valid()) {
+                spdlog::error("invalid HEADERS frame: padding or priority exceeds payload");
+                update_state(Http2ConnectionState::ProtocolError);
+                return;
+            }
+
             log_dynamic_tables();
             auto hdrs = decoder_.decode(frame.headers_block());
             if (!hdrs) {
diff --git a/lib/http2_frame_reader.h b/lib/http2_frame_reader.h
index 948f9af..5ac3789 100644
--- a/lib/http2_frame_reader.h
+++ b/lib/http2_frame_reader.h
@@ -58,14 +58,34 @@ class Http2FrameReader {
     Http2WindowUpdate read_window_update() const;
     Http2GoAwayPayload read_goaway() const;
 
+    // whether the payload has room for the pad length, priority fields & padding it announces
+    bool headers_block_valid() const {
+        const auto prefix_size = headers_prefix_size();
+        if (payload_.size() < prefix_size) {
+            return false;
+        }
+        return !padded() || payload_[0] <= payload_.size() - prefix_size;
+    }
+
+    // requires headers_block_valid()
     std::span<const uint8_t> headers_block() const {
+        const auto prefix_size = headers_prefix_size();
+        const size_t padding_size = padded() ? payload_[0] : 0;
+        return payload_.subspan(prefix_size, payload_.size() - prefix_size - padding_size);
+    }
+
+   private:
+    size_t headers_prefix_size() const {
+        size_t size = 0;
+        if (padded()) {
+            size += 1;  // skip pad length (8)
+        }
         if (priority()) {
-            return payload_.subspan(5);  // skip exclusive (1), stream dependency (31) & weight (8)
+            size += 5;  // skip exclusive (1), stream dependency (31) & weight (8)
         }
-        return payload_;
+        return size;
     }
 
-   private:
     Http2FrameHeader header_;
     std::span<const uint8_t> payload_;
 };
-- 
2.43.0


From fa3ae18d5f8060f583e0e55af313fa1685df2292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:56 +0000
Subject: [PATCH 08/31] fix: send :status and server headers with a 400
 response

The response to a request without :path or :method had no header fields at all.
---
 lib/http2_conn.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 3423e70..31dcb09 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -456,24 +456,24 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
     auto path = get_header(headers, ":path");
     auto method = get_header(headers, ":method");
 
+    HttpResponse resp;
     if (!path || !method) {
         spdlog::error("invalid request: missing path or method");
-        return HttpResponse{.status_code = 400};
-    }
-
-    span->SetAttribute("http.method", *method);
-    span->SetAttribute("http.target", *path);
-    span->SetAttribute("ion.client_ip", client_ip_);
-
-    auto handler = router_.get_handler(path.value(), method.value());
-    HttpRequest req{.method = *method, .path = *path, .headers = headers};
-
-    HttpResponse resp;
-    try {
-        resp = handler(req);
-    } catch (const std::exception& e) {
-        spdlog::error("error processing request: {}", e.what());
-        resp = HttpResponse{.status_code = 500};
+        resp = HttpResponse{.status_code = 400};
+    } else {
+        span->SetAttribute("http.method", *method);
+        span->SetAttribute("http.target", *path);
+        span->SetAttribute("ion.client_ip", client_ip_);
+
+        auto handler = router_.get_handler(path.value(), method.value());
+        HttpRequest req{.method = *method, .path = *path, .headers = headers};
+
+        try {
+            resp = handler(req);
+        } catch (const std::exception& e) {
+            spdlog::error("error processing request: {}", e.what());
+            resp = HttpResponse{.status_code = 500};
+        }
     }
 
     span->SetAttribute("http.status_code", resp.status_code);
-- 
2.43.0


From 4d812d178e3043de2b6c1c1acf8cd56b4ae36964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:56 +0000
Subject: [PATCH 09/31] fix: contain handler exceptions that are not
 std::exception

Anything else thrown by a handler ended the server.
---
 lib/http2_conn.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 31dcb09..90156c9 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -334,6 +334,10 @@ Http2ProcessResult Http2Connection::process() {
         spdlog::error("unhandled error processing connection: {}", e.what());
         update_state(Http2ConnectionState::ProtocolError);
         return Http2ProcessResult::DiscardConnection;
+    } catch (...) {
+        spdlog::error("unhandled error processing connection: unknown exception");
+        update_state(Http2ConnectionState::ProtocolError);
+        return Http2ProcessResult::DiscardConnection;
     }
 }
 
@@ -473,6 +477,9 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
         } catch (const std::exception& e) {
             spdlog::error("error processing request: {}", e.what());
             resp = HttpResponse{.status_code = 500};
+        } catch (...) {
+            spdlog::error("error processing request: unknown exception");
+            resp = HttpResponse{.status_code = 500};
         }
     }
 
-- 
2.43.0


From 735b3a6ff3e2f5635caa61e14af7caf00ae00efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:56 +0000
Subject: [PATCH 10/31] fix: discard a connection whose transport fails to
 write

It reported WantWrite instead, so the failing write was retried.
---
 lib/http2_conn.cpp | 13 +++++++++----
 lib/http2_conn.h   |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 90156c9..7338ae2 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -371,7 +371,9 @@ Http2ProcessResult Http2Connection::internal_process() {
             }
         }
 
-        flush_write_buffer();
+        if (!flush_write_buffer()) {
+            return Http2ProcessResult::DiscardConnection;
+        }
 
         // if we still have data to send, we are blocked on writing
         if (!write_buffer_.empty()) {
@@ -499,9 +501,10 @@ void Http2Connection::enqueue_write(std::span<const uint8_t> data) {
     write_buffer_.insert(write_buffer_.end(), data.begin(), data.end());
 }
 
-void Http2Connection::flush_write_buffer() {
+// returns false if the transport failed
+bool Http2Connection::flush_write_buffer() {
     if (write_buffer_.empty()) {
-        return;
+        return true;
     }
 
     // try to write the entire pending buffer.
@@ -517,14 +520,16 @@ void Http2Connection::flush_write_buffer() {
             spdlog::error("failed to flush write buffer: error: {}",
                           static_cast<int>(result.error()));
             update_state(Http2ConnectionState::ProtocolError);
+            return false;
         }
-        return;
+        return true;
     }
     update_last_activity();
     spdlog::trace("flushed {} bytes from write buffer", *result);
 
     // remove what was actually sent
     write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + *result);
+    return true;
 }
 
 void Http2Connection::update_last_activity() {
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 59f16bf..f34ccf2 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -78,7 +78,7 @@ class Http2Connection {
     void log_dynamic_tables();
     HttpResponse process_request(const std::vector<HttpHeader>& req_hdrs, SpanPtr span);
     void enqueue_write(std::span<const uint8_t> data);
-    void flush_write_buffer();
+    bool flush_write_buffer();
     void update_last_activity();
     std::optional<Http2ProcessResult> handle_handshake();
 };
-- 
2.43.0


From b2369e79e83f94ebe3b8f22f4b5266a1e6853d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:56 +0000
Subject: [PATCH 11/31] fix: report partial TCP writes as the octets written

A partial write was reported as an error, after which its octets were sent again or lost.
---
 lib/transports/tcp_transport.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/transports/tcp_transport.cpp b/lib/transports/tcp_transport.cpp
index f083125..28586f0 100644
--- a/lib/transports/tcp_transport.cpp
+++ b/lib/transports/tcp_transport.cpp
@@ -52,10 +52,8 @@ std::expected<ssize_t, TransportError> TcpTransport::write(std::span<const uint8
         return std::unexpected(TransportError::WriteError);
     }
     if (bytes_written != static_cast<ssize_t>(buffer.size())) {
-        spdlog::error("TCP partial write: wrote {} of {} bytes", bytes_written, buffer.size());
-        // For non-blocking sockets, partial writes can happen
-        // TODO: Fix this!
-        return std::unexpected(TransportError::WriteError);
+        // For non-blocking sockets, partial writes can happen. The caller retries with the rest
+        spdlog::debug("TCP partial write: wrote {} of {} bytes", bytes_written, buffer.size());
     }
     spdlog::trace("successfully wrote {} bytes to TCP socket", bytes_written);
     return bytes_written;
-- 
2.43.0


From acde95cb071746c2c720b62dd7de625dc6bf5711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:56 +0000
Subject: [PATCH 12/31] fix: send GOAWAY before discarding a connection on a
 protocol error

The frame was queued but the connection was discarded before it was written.
---
 lib/http2_conn.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 7338ae2..51ed2d5 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -380,7 +380,10 @@ Http2ProcessResult Http2Connection::internal_process() {
             return Http2ProcessResult::WantWrite;
         }
 
-        fill_read_buffer();
+        // nothing more is handled after a protocol error
+        if (state_ != Http2ConnectionState::ProtocolError) {
+            fill_read_buffer();
+        }
 
         switch (state_) {
             case Http2ConnectionState::AwaitingPreface: {
@@ -409,6 +412,7 @@ Http2ProcessResult Http2Connection::internal_process() {
             case Http2ConnectionState::ProtocolError: {
                 spdlog::error("protocol error. closing connection");
                 close();
+                flush_write_buffer();
                 return Http2ProcessResult::DiscardConnection;
             }
             case Http2ConnectionState::ClientClosed: {
-- 
2.43.0


From 267eeee3d2a1cdf3d3b22d4ddfbbebda8f681ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:56 +0000
Subject: [PATCH 13/31] fix: name the highest request stream in GOAWAY

---
 lib/http2_conn.cpp | 4 +++-
 lib/http2_conn.h   | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 51ed2d5..9f8d57c 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -266,6 +266,8 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
                 return;
             }
 
+            last_stream_id_ = std::max(last_stream_id_, frame.stream_id());
+
             for (const auto& hdr : *hdrs) {
                 spdlog::debug(" - request header: {}: {}", hdr.name, hdr.value);
             }
@@ -430,7 +432,7 @@ void Http2Connection::close() {
         spdlog::error("attempting to close connection in closing state");
         return;
     }
-    write_goaway(1, (state_ != Http2ConnectionState::ProtocolError) ? ErrorCode::no_error
+    write_goaway(last_stream_id_, (state_ != Http2ConnectionState::ProtocolError) ? ErrorCode::no_error
                                                                     : ErrorCode::protocol_error);
     spdlog::debug("GOAWAY frame enqueued");
     update_state(Http2ConnectionState::Closing);
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index f34ccf2..130b443 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -53,6 +53,7 @@ class Http2Connection {
     std::vector<uint8_t> read_buffer_;
     std::vector<uint8_t> write_buffer_;
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
+    uint32_t last_stream_id_ = 0;
     DynamicTable decoder_dynamic_table_{};
     DynamicTable encoder_dynamic_table_{};
     HeaderBlockDecoder decoder_{decoder_dynamic_table_};
-- 
2.43.0


From 37b6f3652d32de809ca08bd194a15efbf1cf0f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:56 +0000
Subject: [PATCH 14/31] fix: continue large response header blocks in
 CONTINUATION frames

A header block of more than 16384 octets was sent in one oversized HEADERS frame.
---
 lib/http2_conn.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 9f8d57c..875e0e0 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -20,6 +20,7 @@ static constexpr uint8_t FRAME_TYPE_HEADERS = 0x01;
 static constexpr uint8_t FRAME_TYPE_SETTINGS = 0x04;
 static constexpr uint8_t FRAME_TYPE_GOAWAY = 0x07;
 static constexpr uint8_t FRAME_TYPE_WINDOW_UPDATE = 0x08;
+static constexpr uint8_t FRAME_TYPE_CONTINUATION = 0x09;
 
 static constexpr uint8_t FLAG_END_HEADERS = 0x04;
 static constexpr uint8_t FLAG_END_STREAM = 0x01;
@@ -73,13 +74,25 @@ void Http2Connection::write_settings_ack() {
 
 void Http2Connection::write_headers_response(uint32_t stream_id,
                                              std::span<const uint8_t> headers_data, uint8_t flags) {
-    const Http2FrameHeader header{.length = static_cast<uint32_t>(headers_data.size()),
-                                  .type = FRAME_TYPE_HEADERS,
-                                  .flags = flags,
-                                  .stream_id = stream_id};
-
-    write_frame_header(header);
-    enqueue_write(headers_data);
+    uint8_t type = FRAME_TYPE_HEADERS;
+    do {
+        const auto fragment = headers_data.first(std::min(headers_data.size(), MAX_FRAME_SIZE));
+        headers_data = headers_data.subspan(fragment.size());
+
+        // END_HEADERS belongs on the last frame of the header block only
+        const auto fragment_flags =
+            headers_data.empty() ? flags : static_cast<uint8_t>(flags & ~FLAG_END_HEADERS);
+        const Http2FrameHeader header{.length = static_cast<uint32_t>(fragment.size()),
+                                      .type = type,
+                                      .flags = fragment_flags,
+                                      .stream_id = stream_id};
+
+        write_frame_header(header);
+        enqueue_write(fragment);
+
+        type = FRAME_TYPE_CONTINUATION;
+        flags &= FLAG_END_HEADERS;
+    } while (!headers_data.empty());
 }
 
 void Http2Connection::write_data_response(uint32_t stream_id, const std::vector<uint8_t>& body) {
-- 
2.43.0


From 28456a223542c6879a6716bf10b8df9f9ac1bbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:46 +0000
Subject: [PATCH 15/31] fix: start the header decoder with the table size the
 peer encoder assumes

Without SETTINGS_HEADER_TABLE_SIZE the table has 4096 octets. With 64 KiB, an entry
that is too large for the peer's table was kept, and later indices were wrong.
---
 lib/hpack/dynamic_table.h | 1 +
 lib/http2_conn.h          | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/hpack/dynamic_table.h b/lib/hpack/dynamic_table.h
index 0b0748e..ce1997c 100644
--- a/lib/hpack/dynamic_table.h
+++ b/lib/hpack/dynamic_table.h
@@ -10,6 +10,7 @@ namespace ion {
 
 constexpr size_t HARD_TABLE_SIZE_LIMIT = 64 * 1024;
 constexpr size_t DEFAULT_MAX_TABLE_SIZE = 64 * 1024;
+constexpr size_t PROTOCOL_DEFAULT_TABLE_SIZE = 4096;  // SETTINGS_HEADER_TABLE_SIZE (RFC 9113)
 
 class DynamicTable {
    public:
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 130b443..7c4fb5d 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -54,7 +54,7 @@ class Http2Connection {
     std::vector<uint8_t> write_buffer_;
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
     uint32_t last_stream_id_ = 0;
-    DynamicTable decoder_dynamic_table_{};
+    DynamicTable decoder_dynamic_table_{PROTOCOL_DEFAULT_TABLE_SIZE};
     DynamicTable encoder_dynamic_table_{};
     HeaderBlockDecoder decoder_{decoder_dynamic_table_};
     HeaderBlockEncoder encoder_{encoder_dynamic_table_};
-- 
2.43.0


From 214d8252e91c25e84ab94f92d44a7eb37107d9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:46 +0000
Subject: [PATCH 16/31] fix: keep the header encoder within the table size of
 the peer's decoder

The encoder used a 64 KiB table while a decoder that does not announce otherwise has
4096 octets, and ignored SETTINGS_HEADER_TABLE_SIZE, so it referred to entries the
decoder had evicted.
---
 lib/hpack/dynamic_table.cpp        |  4 ++++
 lib/hpack/dynamic_table.h          |  1 +
 lib/hpack/header_block_encoder.cpp | 18 ++++++++++++++++++
 lib/hpack/header_block_encoder.h   |  4 ++++
 lib/http2_conn.cpp                 |  8 ++++++++
 lib/http2_conn.h                   |  2 +-
 6 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/lib/hpack/dynamic_table.cpp b/lib/hpack/dynamic_table.cpp
index db14d44..870f770 100644
--- a/lib/hpack/dynamic_table.cpp
+++ b/lib/hpack/dynamic_table.cpp
@@ -67,6 +67,10 @@ int DynamicTable::size() const {
     return table_size_;
 }
 
+size_t DynamicTable::max_size() const {
+    return max_table_size_;
+}
+
 void DynamicTable::set_max_table_size(size_t new_sz) {
     max_table_size_ = new_sz;
     while (table_size_ > max_table_size_) {
diff --git a/lib/hpack/dynamic_table.h b/lib/hpack/dynamic_table.h
index ce1997c..1412eca 100644
--- a/lib/hpack/dynamic_table.h
+++ b/lib/hpack/dynamic_table.h
@@ -23,6 +23,7 @@ class DynamicTable {
     std::optional<size_t> find_name(const std::string& name);
     void log_contents() const;
     int size() const;
+    size_t max_size() const;
     void set_max_table_size(size_t new_sz);
 
    private:
diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index 94781a6..721b443 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -59,6 +59,16 @@ std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::stri
 
 std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& headers) {
     std::vector<uint8_t> bytes{};
+
+    // dynamic table size updates (RFC 7541 section 4.2)
+    if (pending_min_table_size_) {
+        if (*pending_min_table_size_ < dynamic_table_.max_size()) {
+            write_index(bytes, *pending_min_table_size_, 5, 0x20);
+        }
+        write_index(bytes, dynamic_table_.max_size(), 5, 0x20);
+        pending_min_table_size_.reset();
+    }
+
     for (auto& hdr : headers) {
         // is static header?
         const auto st_it = std::find_if(
@@ -127,4 +137,12 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
     return bytes;
 }
 
+void HeaderBlockEncoder::set_max_table_size(size_t new_sz) {
+    if (new_sz == dynamic_table_.max_size()) {
+        return;
+    }
+    dynamic_table_.set_max_table_size(new_sz);
+    pending_min_table_size_ = std::min(pending_min_table_size_.value_or(new_sz), new_sz);
+}
+
 }  // namespace ion
diff --git a/lib/hpack/header_block_encoder.h b/lib/hpack/header_block_encoder.h
index f53707f..98b33c3 100644
--- a/lib/hpack/header_block_encoder.h
+++ b/lib/hpack/header_block_encoder.h
@@ -1,5 +1,6 @@
 #pragma once
 #include <cstdint>
+#include <optional>
 #include <vector>
 
 #include "dynamic_table.h"
@@ -10,11 +11,14 @@ class HeaderBlockEncoder {
    public:
     explicit HeaderBlockEncoder(DynamicTable& dynamic_table);
     std::vector<uint8_t> encode(const std::vector<HttpHeader>& headers);
+    void set_max_table_size(size_t new_sz);
 
    private:
     std::vector<uint8_t> write_length_and_string(const std::string& str);
 
     DynamicTable& dynamic_table_;
+    // smallest maximum set since the last block: signalled at the start of the next one
+    std::optional<size_t> pending_min_table_size_;
 };
 
 }  // namespace ion
diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 875e0e0..00ac170 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -22,6 +22,8 @@ static constexpr uint8_t FRAME_TYPE_GOAWAY = 0x07;
 static constexpr uint8_t FRAME_TYPE_WINDOW_UPDATE = 0x08;
 static constexpr uint8_t FRAME_TYPE_CONTINUATION = 0x09;
 
+static constexpr uint16_t SETTINGS_HEADER_TABLE_SIZE = 0x0001;
+
 static constexpr uint8_t FLAG_END_HEADERS = 0x04;
 static constexpr uint8_t FLAG_END_STREAM = 0x01;
 
@@ -252,6 +254,12 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
                     update_state(Http2ConnectionState::ProtocolError);
                     return;
                 }
+                for (const auto& setting : *settings) {
+                    if (setting.identifier == SETTINGS_HEADER_TABLE_SIZE) {
+                        encoder_.set_max_table_size(
+                            std::min<size_t>(setting.value, PROTOCOL_DEFAULT_TABLE_SIZE));
+                    }
+                }
                 spdlog::debug("read {} settings, sending ACK", settings->size());
                 write_settings_ack();
             }
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 7c4fb5d..1c4c438 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -55,7 +55,7 @@ class Http2Connection {
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
     uint32_t last_stream_id_ = 0;
     DynamicTable decoder_dynamic_table_{PROTOCOL_DEFAULT_TABLE_SIZE};
-    DynamicTable encoder_dynamic_table_{};
+    DynamicTable encoder_dynamic_table_{PROTOCOL_DEFAULT_TABLE_SIZE};
     HeaderBlockDecoder decoder_{decoder_dynamic_table_};
     HeaderBlockEncoder encoder_{encoder_dynamic_table_};
     std::chrono::steady_clock::time_point last_activity_{std::chrono::steady_clock::now()};
-- 
2.43.0


From 800aa3ec3803ad0b5c37e4b5918d3a54b5080fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:46 +0000
Subject: [PATCH 17/31] fix: strip the query string before choosing index.html

"/static/?x" was answered 404.
---
 lib/static_file_handler.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/static_file_handler.cpp b/lib/static_file_handler.cpp
index 88d21a3..80d232b 100644
--- a/lib/static_file_handler.cpp
+++ b/lib/static_file_handler.cpp
@@ -18,6 +18,11 @@ bool StaticFileHandler::matches(const std::string& path) const {
 std::string StaticFileHandler::get_relative_path(const std::string& url_path) const {
     std::string rel_path = url_path.substr(url_prefix_.length());
 
+    // remove query string
+    if (const auto query_pos = rel_path.find('?'); query_pos != std::string::npos) {
+        rel_path = rel_path.substr(0, query_pos);
+    }
+
     if (rel_path.empty() || rel_path == "/") {
         rel_path = "/index.html";
     }
@@ -26,11 +31,6 @@ std::string StaticFileHandler::get_relative_path(const std::string& url_path) co
         rel_path = rel_path.substr(1);
     }
 
-    // remove query string
-    if (const auto query_pos = rel_path.find('?'); query_pos != std::string::npos) {
-        rel_path = rel_path.substr(0, query_pos);
-    }
-
     return rel_path;
 }
 
-- 
2.43.0


From d29c6ab980a7f5a4b818d87a38e01c77ebd87232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:46 +0000
Subject: [PATCH 18/31] fix: do not capture the method string by reference in a
 static route handler

The reference dangles when the handler is called after the string is gone.
---
 lib/router.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/router.cpp b/lib/router.cpp
index 5dbf97c..2ad2b4d 100644
--- a/lib/router.cpp
+++ b/lib/router.cpp
@@ -24,8 +24,9 @@ RouteHandler Router::get_handler(const std::string& path, const std::string& met
         if (method == "GET" || method == "HEAD") {
             for (const auto& handler : static_handlers_) {
                 if (handler->matches(path)) {
-                    target = [&handler, path, &method](const HttpRequest&) -> HttpResponse {
-                        return handler->handle(path, method == "HEAD");
+                    target = [static_handler = handler.get(), path,
+                              is_head = method == "HEAD"](const HttpRequest&) -> HttpResponse {
+                        return static_handler->handle(path, is_head);
                     };
                 }
             }
-- 
2.43.0


From b753c127831f8f1b9fd8702ebb9cac5b508b4c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:46 +0000
Subject: [PATCH 19/31] fix: escape client-controlled values in the access log

Quotes and line breaks in a request could forge log fields and lines.
---
 lib/access_log.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/lib/access_log.cpp b/lib/access_log.cpp
index 20b5202..296c0a6 100644
--- a/lib/access_log.cpp
+++ b/lib/access_log.cpp
@@ -8,6 +8,24 @@
 
 namespace ion {
 
+// escapes what could end the line or a quoted field early
+static std::string escape(const std::string& value) {
+    std::string result;
+    result.reserve(value.size());
+    for (const char c : value) {
+        const auto octet = static_cast<unsigned char>(c);
+        if (c == '"' || c == '\\') {
+            result += '\\';
+            result += c;
+        } else if (octet < 0x20 || octet == 0x7f) {
+            result += std::format("\\x{:02x}", octet);
+        } else {
+            result += c;
+        }
+    }
+    return result;
+}
+
 void AccessLog::log_request(std::vector<HttpHeader>& req_headers, uint16_t status_code,
                             size_t content_length, const std::string& client_ip) {
     auto access_log = spdlog::get(ACCESS_LOGGER_NAME);
@@ -36,8 +54,9 @@ void AccessLog::log_request(std::vector<HttpHeader>& req_headers, uint16_t statu
     }
     const auto entry =
         std::format(R"({} - - {} "{} {} HTTP/2" {} {} "{}" "{}")",
-                    (client_ip.empty() ? "-" : client_ip), SystemClock::clf_timestamp(), method,
-                    path, status_code, content_length, referrer, user_agent);
+                    (client_ip.empty() ? "-" : client_ip), SystemClock::clf_timestamp(),
+                    escape(method), escape(path), status_code, content_length, escape(referrer),
+                    escape(user_agent));
     access_log->info(entry);
 }
 
-- 
2.43.0


From d9853462cd3c337e33d6fb7a12a8e7dbf50311da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:46 +0000
Subject: [PATCH 20/31] fix: clear the OpenSSL error queue before each TLS
 operation

An error left by one connection made SSL_get_error() fail another one.
---
 lib/transports/tls_transport.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 6ddeed3..8e4eb72 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -38,6 +38,7 @@ TlsTransport::TlsTransport(SocketFd&& client_fd, const TlsContext& tls_context)
 }
 
 std::expected<void, TransportError> TlsTransport::handshake() const {
+    ERR_clear_error();  // SSL_get_error() requires an empty error queue
     const int result = SSL_accept(ssl_);
     if (result == 1) {
         return {};
@@ -93,6 +94,7 @@ void TlsTransport::print_debug_to_stderr() {
 
 std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buffer) const {
     spdlog::trace("reading from SSL");
+    ERR_clear_error();  // SSL_get_error() requires an empty error queue
     const auto bytes_read = SSL_read(ssl_, buffer.data(), static_cast<int>(buffer.size()));
     if (bytes_read <= 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_read)) {
@@ -118,6 +120,7 @@ std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buf
 }
 
 std::expected<ssize_t, TransportError> TlsTransport::write(std::span<const uint8_t> buffer) const {
+    ERR_clear_error();  // SSL_get_error() requires an empty error queue
     const auto bytes_written = SSL_write(ssl_, buffer.data(), static_cast<int>(buffer.size()));
     if (bytes_written < 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_written)) {
-- 
2.43.0


From b0fd25d5e63084d6fcccdec0839dc42e8221a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:46 +0000
Subject: [PATCH 21/31] fix: leave the key path unset when it was not given

---
 app/args.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/app/args.cpp b/app/args.cpp
index 56a6f66..6ee056e 100644
--- a/app/args.cpp
+++ b/app/args.cpp
@@ -66,6 +66,5 @@ ion::ServerConfiguration Args::to_server_config() const {
     if (!key_path.empty()) {
         config.key_path = key_path;
     }
-    config.key_path = key_path;
     return config;
 }
-- 
2.43.0


From ca5ac96e21cfa0ef165dc8a3620915219d9cd731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:46 +0000
Subject: [PATCH 22/31] fix: keep serving when accepting or setting up a
 connection fails

For example EMFILE or ECONNABORTED from accept() ended the server.
---
 lib/http2_server.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/http2_server.cpp b/lib/http2_server.cpp
index ec21578..930ec04 100644
--- a/lib/http2_server.cpp
+++ b/lib/http2_server.cpp
@@ -135,7 +135,11 @@ void Http2Server::start(uint16_t port) {
         }
         for (auto& [fd, poll_events] : *events) {
             if (fd == listener_fd) {
-                handle_incoming_connection(listener, *poller);
+                try {
+                    handle_incoming_connection(listener, *poller);
+                } catch (const std::exception& e) {
+                    spdlog::error("failed to accept connection: {}", e.what());
+                }
             } else {
                 handle_connection_events(*poller, fd, poll_events);
             }
-- 
2.43.0


From 5eb90b7e664d2e9c10e98f72cbd2c151888a9ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:49 +0000
Subject: [PATCH 23/31] fix: send SETTINGS before waiting for the first frame

A client that waits for the server's SETTINGS after its preface got none: processing
returned WantRead with the frame still queued.
---
 lib/http2_conn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 00ac170..e1546bd 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -418,6 +418,7 @@ Http2ProcessResult Http2Connection::internal_process() {
                     case ReadPrefaceResult::ProtocolError:
                         return Http2ProcessResult::DiscardConnection;
                 }
+                break;  // send SETTINGS before waiting for a frame
             }
             case Http2ConnectionState::AwaitingFrame: {
                 if (try_read_frame()) {
-- 
2.43.0


From 37d6bfb70cd398873678215a21ba6af1397cbf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:07 +0000
Subject: [PATCH 24/31] fix: classify SSL_write result 0 with SSL_get_error

SSL_write() reports every result <= 0 as unsuccessful; only SSL_get_error()
says whether it is to be retried. A result of 0 was treated as a partial
write, so a retriable condition dropped the connection.
---
 lib/transports/tls_transport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 8e4eb72..0d4505b 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -122,7 +122,7 @@ std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buf
 std::expected<ssize_t, TransportError> TlsTransport::write(std::span<const uint8_t> buffer) const {
     ERR_clear_error();  // SSL_get_error() requires an empty error queue
     const auto bytes_written = SSL_write(ssl_, buffer.data(), static_cast<int>(buffer.size()));
-    if (bytes_written < 0) {
+    if (bytes_written <= 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_written)) {
             case SSL_ERROR_WANT_READ:
                 spdlog::trace("SSL want read");
-- 
2.43.0


From 2f546d769f4432c014d0f19603b573d3370a46bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 25/31] fix: resolve links that remain after dot segments of a
 missing component are removed

weakly_canonical drops "missing/.." without looking at what follows, so
"missing/../link" stayed below the base directory as text while the link led
outside it.
---
 lib/file_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/file_reader.cpp b/lib/file_reader.cpp
index f7e4ce2..649eb82 100644
--- a/lib/file_reader.cpp
+++ b/lib/file_reader.cpp
@@ -117,6 +117,10 @@ std::optional<std::string> FileReader::sanitize_path(const std::string& base_dir
         // Normalize the combined path (resolve .. and . where possible without requiring the leaf)
         auto full = fs::weakly_canonical(combined);
 
+        // Where a component is missing, dot segments are removed without following links (so
+        // "missing/../link" becomes "link"): resolve what is left
+        full = fs::weakly_canonical(full);
+
         // Ensure the resolved path is within the base directory by comparing path components
         auto base_it = base.begin();
         auto full_it = full.begin();
-- 
2.43.0


From 2e4c50b31c0944a01709d61ba0e73e15cd651c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:47 +0000
Subject: [PATCH 26/31] fix: log the method and path a request was served by
 when the client repeats them

process_request takes the first header of a name, the access log took the last.
---
 lib/access_log.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/access_log.cpp b/lib/access_log.cpp
index 296c0a6..8bacc31 100644
--- a/lib/access_log.cpp
+++ b/lib/access_log.cpp
@@ -3,6 +3,7 @@
 #include <spdlog/spdlog.h>
 
 #include <format>
+#include <ranges>
 
 #include "system_clock.h"
 
@@ -38,7 +39,8 @@ void AccessLog::log_request(std::vector<HttpHeader>& req_headers, uint16_t statu
     std::string user_agent{"-"};
     std::string referrer{"-"};
 
-    for (const auto& [name, value] : req_headers) {
+    // of a header the client repeats, the first is the one the request was served by
+    for (const auto& [name, value] : req_headers | std::views::reverse) {
         if (name == ":method") {
             method = value;
         }
-- 
2.43.0


From dda708dd590baf8831a5dee2daef451dbb19a887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:20 +0000
Subject: [PATCH 27/31] fix: count a request whose handler throws under the 500
 it is answered with

---
 app/server_stats.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/app/server_stats.cpp b/app/server_stats.cpp
index af5448c..d3418ed 100644
--- a/app/server_stats.cpp
+++ b/app/server_stats.cpp
@@ -20,7 +20,14 @@ ion::Middleware ServerStats::middleware() {
             stats.total_requests++;
             const auto start = std::chrono::steady_clock::now();
 
-            auto res = next(req);
+            ion::HttpResponse res;
+            try {
+                res = next(req);
+            } catch (...) {
+                // the connection answers a handler that throws with 500
+                stats.status_codes[500]++;
+                throw;
+            }
 
             const auto end = std::chrono::steady_clock::now();
             const auto duration =
-- 
2.43.0


From 5080bc2fddcbc8fca0991217e44a2d8d2d6aa96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:34 +0000
Subject: [PATCH 28/31] fix: a HEAD request answered with the custom 404 page
 got a body

---
 app/main.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/app/main.cpp b/app/main.cpp
index 66dc04a..9dc1dc5 100644
--- a/app/main.cpp
+++ b/app/main.cpp
@@ -46,8 +46,9 @@ void run_server(const Args& args) {
                 auto res = next(req);
 
                 if (res.status_code == 404) {
-                    auto file_res =
-                        ion::StaticFileHandler::file_response(args.status_404_file_path, false);
+                    // a response to HEAD has no body
+                    auto file_res = ion::StaticFileHandler::file_response(
+                        args.status_404_file_path, req.method == "HEAD");
                     file_res.status_code = 404;
                     return file_res;
                 }
-- 
2.43.0


From 67284aa6dbbbc3461db95f2917f219b3f5944082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 29/31] fix: write the access log whatever the log level is

---
 app/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/main.cpp b/app/main.cpp
index 9dc1dc5..cb5331a 100644
--- a/app/main.cpp
+++ b/app/main.cpp
@@ -68,6 +68,7 @@ void setup_access_logs(const std::string& log_path) {
     try {
         auto logger = spdlog::basic_logger_mt(ion::AccessLog::ACCESS_LOGGER_NAME, log_path);
         logger->set_pattern("%v");
+        logger->set_level(spdlog::level::info);  // whatever --log-level says
         logger->flush_on(spdlog::level::info);
         spdlog::info("writing access logs to {}", log_path);
     } catch (const spdlog::spdlog_ex& e) {
-- 
2.43.0


From 436c33b70dfcceac6202d7f0f9e581dcbfe1b77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:58 +0000
Subject: [PATCH 30/31] fix: release the TLS object when its connection cannot
 be set up

---
 lib/transports/tls_transport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 0d4505b..1801844 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -33,6 +33,7 @@ TlsTransport::TlsTransport(SocketFd&& client_fd, const TlsContext& tls_context)
     ssl_ = tls_context.create_ssl();
 
     if (SSL_set_fd(ssl_, client_fd_) != 1) {
+        SSL_free(ssl_);
         throw std::runtime_error("failed to set SSL file descriptor");
     }
 }
-- 
2.43.0


From 4f12f91056f7b6f4993017a09c1467d5776efe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:41 +0000
Subject: [PATCH 31/31] fix: stop when standard output or error is a broken
 pipe; writing nothing to a pipe never fails

---
 app/signal_handler.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/app/signal_handler.cpp b/app/signal_handler.cpp
index 5c52083..6447575 100644
--- a/app/signal_handler.cpp
+++ b/app/signal_handler.cpp
@@ -1,9 +1,23 @@
 #include "signal_handler.h"
 
+#include <poll.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include <csignal>
 
+// Is there nobody left to read what is written to fd? Writing nothing tells for a socket, but
+// never fails on a pipe.
+static bool is_broken(int fd) {
+    struct stat st;
+    if (fstat(fd, &st) == 0 && S_ISFIFO(st.st_mode)) {
+        pollfd pfd{.fd = fd, .events = POLLOUT, .revents = 0};
+        return poll(&pfd, 1, 0) > 0 && (pfd.revents & (POLLERR | POLLHUP)) != 0;
+    }
+    constexpr char dummy = 0;
+    return write(fd, &dummy, 0) < 0 && errno == EPIPE;
+}
+
 SignalHandler SignalHandler::setup(ion::Http2Server& server) {
     ion::Http2Server* expected = nullptr;
     if (!server_.compare_exchange_strong(expected, &server)) {
@@ -37,11 +51,10 @@ void SignalHandler::signal_handler(int) {
 }
 
 void SignalHandler::sigpipe_handler(int) {
-    constexpr char dummy = 0;
-    if (write(STDOUT_FILENO, &dummy, 0) < 0 && errno == EPIPE) {
+    if (is_broken(STDOUT_FILENO)) {
         stop_server(ion::StopReason::StdOutPipeBroken);
     }
-    if (write(STDERR_FILENO, &dummy, 0) < 0 && errno == EPIPE) {
+    if (is_broken(STDERR_FILENO)) {
         stop_server(ion::StopReason::StdErrPipeBroken);
     }
 }
-- 
2.43.0

