From 8e68bcf3dcf2fd80217fdbb6d345b4c11c12c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:05 +0000
Subject: [PATCH 01/27] fix: reject invalid Huffman padding and EOS in HPACK
 strings

Bits left after the last symbol were accepted as padding whatever their
value when the input ended inside a code, and at any length when all ones.
RFC 7541 5.2 requires padding shorter than 8 bits, all ones.
---
 lib/hpack/huffman_tree.cpp | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/lib/hpack/huffman_tree.cpp b/lib/hpack/huffman_tree.cpp
index 8375752..f315fc2 100644
--- a/lib/hpack/huffman_tree.cpp
+++ b/lib/hpack/huffman_tree.cpp
@@ -40,33 +40,30 @@ std::expected<std::vector<uint8_t>, HuffmanDecodeError> HuffmanTree::decode(
 
     BitReader br{data};
     const HuffmanNode* current = root_.get();
-    size_t bits_processed = 0;
+    size_t pending_bits = 0;  // bits read since the last complete symbol
+    bool pending_all_ones = true;
     while (br.has_more()) {
-        if (!br.read_bit()) {
-            current = current->left.get();
-        } else {
-            current = current->right.get();
-        }
-        bits_processed++;
-
-        if (!current) {
-            while (br.has_more()) {
-                if (!br.read_bit()) {
-                    spdlog::error("remaining unmatched Huffman code is not padding: (bit pos = {})",
-                                  bits_processed);
-                    return std::unexpected{HuffmanDecodeError::InvalidCode};
-                }
-                bits_processed++;
-            }
-            return result;
+        const bool bit = br.read_bit();
+        if (current) {
+            current = bit ? current->right.get() : current->left.get();
         }
+        pending_bits++;
+        pending_all_ones = pending_all_ones && bit;
 
-        if (current->is_terminal()) {
+        if (current && current->is_terminal()) {
             result.push_back(*current->symbol);
             current = root_.get();
+            pending_bits = 0;
+            pending_all_ones = true;
         }
     }
 
+    // RFC 7541 5.2: what follows the last symbol must be padding, i.e. fewer than 8 bits, all ones
+    if (pending_bits > 7 || !pending_all_ones) {
+        spdlog::error("remaining unmatched Huffman code is not padding (bits: {})", pending_bits);
+        return std::unexpected{HuffmanDecodeError::InvalidCode};
+    }
+
     return result;
 }
 
-- 
2.43.0


From 36807ae7992d3e0425f87c9790ce9f725493a789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:05 +0000
Subject: [PATCH 02/27] fix: index Huffman code table by unsigned byte in HPACK
 encoder

---
 lib/hpack/header_block_encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index fe0dcfa..bc76312 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -23,7 +23,7 @@ std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::stri
         // use huffman coding
         BitWriter bw{};
         for (const char c : str) {
-            auto huffman_code = HUFFMAN_CODES[c];
+            auto huffman_code = HUFFMAN_CODES[static_cast<uint8_t>(c)];
             bw.write_bits(huffman_code.lsb_aligned_code, huffman_code.code_len);
         }
         auto bitstream = bw.finalize();
-- 
2.43.0


From fd8312c08aa898dab3fa1c91fe17a692186775dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:46 +0000
Subject: [PATCH 03/27] fix: refuse HPACK fields whose index integer cannot be
 decoded

---
 lib/hpack/header_block_decoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hpack/header_block_decoder.cpp b/lib/hpack/header_block_decoder.cpp
index 58de481..69cc6f1 100644
--- a/lib/hpack/header_block_decoder.cpp
+++ b/lib/hpack/header_block_decoder.cpp
@@ -134,6 +134,7 @@ std::expected<HttpHeader, FrameError> HeaderBlockDecoder::decode_indexed_field(B
     const auto index = IntegerDecoder::decode(reader, 7);
     if (!index.has_value()) {
         spdlog::error("failed to decode indexed header index (not enough bytes)");
+        return std::unexpected(FrameError::ProtocolError);
     }
 
     if (*index < 1) {
@@ -148,6 +149,7 @@ std::expected<HttpHeader, FrameError> HeaderBlockDecoder::decode_literal_field(
     const auto index = IntegerDecoder::decode(reader, idx_prefix_bits);
     if (!index.has_value()) {
         spdlog::error("failed to decode literal field index (not enough bytes)");
+        return std::unexpected(FrameError::ProtocolError);
     }
 
     bool is_new_name = *index == 0;
-- 
2.43.0


From c150dd44292b1515cc6ba2058be9199add30a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:52 +0000
Subject: [PATCH 04/27] fix: send the server's SETTINGS as soon as the preface
 is accepted

---
 lib/http2_conn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 7ea5cb5..27841fb 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -369,7 +369,7 @@ Http2ProcessResult Http2Connection::internal_process() {
             case Http2ConnectionState::AwaitingPreface: {
                 switch (read_preface()) {
                     case ReadPrefaceResult::Success:
-                        break;
+                        continue;  // send our SETTINGS before waiting for more input
                     case ReadPrefaceResult::NotEnoughData:
                         return Http2ProcessResult::WantRead;
                     case ReadPrefaceResult::ProtocolError:
-- 
2.43.0


From b9ae2df3d6c2b6936fa428d0bae61df97cd28d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 05/27] fix: refuse WINDOW_UPDATE and HEADERS frames whose size
 does not fit their fields

---
 lib/http2_conn.cpp       | 10 ++++++++++
 lib/http2_frame_reader.h | 14 ++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 27841fb..9d64573 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -254,6 +254,11 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
                           frame.is_end_stream(), frame.length());
 
             log_dynamic_tables();
+            if (!frame.has_valid_headers_size()) {
+                spdlog::error("invalid HEADERS frame: too short for the fields it declares");
+                update_state(Http2ConnectionState::ProtocolError);
+                return;
+            }
             auto hdrs = decoder_.decode(frame.headers_block());
             if (!hdrs) {
                 update_state(Http2ConnectionState::ProtocolError);
@@ -283,6 +288,11 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
         }
         case FRAME_TYPE_WINDOW_UPDATE: {
             spdlog::debug("received WINDOW_UPDATE frame for stream {}", frame.stream_id());
+            if (frame.payload().size() != Http2WindowUpdate::wire_size) {
+                spdlog::error("invalid WINDOW_UPDATE frame size");
+                update_state(Http2ConnectionState::ProtocolError);
+                return;
+            }
             const auto [window_size_increment] = frame.read_window_update();
             spdlog::debug("window size increment = {}", window_size_increment);
             break;
diff --git a/lib/http2_frame_reader.h b/lib/http2_frame_reader.h
index 948f9af..0f2647a 100644
--- a/lib/http2_frame_reader.h
+++ b/lib/http2_frame_reader.h
@@ -58,14 +58,20 @@ class Http2FrameReader {
     Http2WindowUpdate read_window_update() const;
     Http2GoAwayPayload read_goaway() const;
 
+    // whether the payload is long enough for the optional fields its flags announce
+    bool has_valid_headers_size() const {
+        return payload_.size() >= headers_prefix_size();
+    }
+
     std::span<const uint8_t> headers_block() const {
-        if (priority()) {
-            return payload_.subspan(5);  // skip exclusive (1), stream dependency (31) & weight (8)
-        }
-        return payload_;
+        return payload_.subspan(headers_prefix_size());
     }
 
    private:
+    size_t headers_prefix_size() const {
+        return priority() ? 5 : 0;  // exclusive (1), stream dependency (31) & weight (8)
+    }
+
     Http2FrameHeader header_;
     std::span<const uint8_t> payload_;
 };
-- 
2.43.0


From fa79fcd5a121a84c0938d0e7f3c50b7ee43fc6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 06/27] fix: strip padding from HEADERS frames

---
 lib/http2_frame_reader.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/http2_frame_reader.h b/lib/http2_frame_reader.h
index 0f2647a..39b9891 100644
--- a/lib/http2_frame_reader.h
+++ b/lib/http2_frame_reader.h
@@ -60,16 +60,22 @@ class Http2FrameReader {
 
     // whether the payload is long enough for the optional fields its flags announce
     bool has_valid_headers_size() const {
-        return payload_.size() >= headers_prefix_size();
+        return payload_.size() >= headers_prefix_size() + padding_size();
     }
 
     std::span<const uint8_t> headers_block() const {
-        return payload_.subspan(headers_prefix_size());
+        const size_t prefix_size = headers_prefix_size();
+        return payload_.subspan(prefix_size, payload_.size() - prefix_size - padding_size());
     }
 
    private:
     size_t headers_prefix_size() const {
-        return priority() ? 5 : 0;  // exclusive (1), stream dependency (31) & weight (8)
+        // pad length (8), then exclusive (1), stream dependency (31) & weight (8)
+        return (padded() ? 1 : 0) + (priority() ? 5 : 0);
+    }
+
+    size_t padding_size() const {
+        return padded() && !payload_.empty() ? payload_[0] : 0;
     }
 
     Http2FrameHeader header_;
-- 
2.43.0


From 43314bddb64c3a7bfbcacfd5a31de810f1dbe669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:38 +0000
Subject: [PATCH 07/27] fix: encode HPACK table indices as prefixed integers

---
 lib/hpack/header_block_encoder.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index bc76312..797aa91 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -13,6 +13,13 @@ namespace ion {
 
 static constexpr size_t MAX_PLAIN_TEXT_STRING_LENGTH = 3;
 
+static void write_index(std::vector<uint8_t>& bytes, size_t index, uint8_t prefix_bits,
+                        uint8_t pattern) {
+    auto encoded_index = IntegerEncoder::encode(index, prefix_bits);
+    encoded_index[0] |= pattern;
+    bytes.insert(bytes.end(), encoded_index.begin(), encoded_index.end());
+}
+
 HeaderBlockEncoder::HeaderBlockEncoder(DynamicTable& dynamic_table)
     : dynamic_table_(dynamic_table) {}
 
@@ -63,14 +70,14 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
             // found static header
             const size_t table_index = std::distance(STATIC_TABLE.begin(), st_it);
             const size_t index = table_index + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x80));
+            write_index(bytes, index, 7, 0x80);
             continue;
         }
 
         // check dynamic headers too
         if (auto dyn_table_index = dynamic_table_.find(hdr)) {
             const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x80));
+            write_index(bytes, index, 7, 0x80);
             continue;
         }
 
@@ -82,7 +89,7 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
         if (st_name_it != STATIC_TABLE.end()) {
             const size_t table_index = std::distance(STATIC_TABLE.begin(), st_name_it);
             const size_t index = table_index + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x40));
+            write_index(bytes, index, 6, 0x40);
 
             // encode string
             const auto len_and_str_bytes = write_length_and_string(hdr.value);
@@ -96,7 +103,7 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
         // is dynamic field header name?
         if (auto dyn_table_index = dynamic_table_.find_name(hdr.name)) {
             const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x40));
+            write_index(bytes, index, 6, 0x40);
 
             // encode string
             const auto len_and_str_bytes = write_length_and_string(hdr.value);
-- 
2.43.0


From 050fecddfde65222d6f8abe0803bcb3ac83529e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 08/27] fix: discard the connection at once after a fatal write
 error

---
 lib/http2_conn.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 9d64573..a5ab634 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -508,6 +508,8 @@ void Http2Connection::flush_write_buffer() {
         } else {
             spdlog::error("failed to flush write buffer: error: {}",
                           static_cast<int>(result.error()));
+            // nothing can be sent any more: don't wait for write readiness
+            write_buffer_.clear();
             update_state(Http2ConnectionState::ProtocolError);
         }
         return;
-- 
2.43.0


From 75b842b13e90b0ebf50167726b9ba6cf373d369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:09 +0000
Subject: [PATCH 09/27] fix: send :status with the response to an incomplete
 request

---
 lib/http2_conn.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index a5ab634..6103be7 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -450,6 +450,17 @@ static std::optional<std::string> get_header(const std::vector<HttpHeader>& head
     return it->value;
 }
 
+static HttpResponse with_standard_headers(HttpResponse resp) {
+    resp.headers.insert(resp.headers.begin(),
+                        HttpHeader{":status", std::to_string(resp.status_code)});
+    if (!resp.body.empty()) {
+        resp.headers.push_back({"content-length", std::to_string(resp.body.size())});
+    }
+    resp.headers.push_back({"server", std::string{SERVER_HEADER}});
+    resp.headers.push_back({"x-powered-by", std::string{SERVER_HEADER}});
+    return resp;
+}
+
 HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& headers,
                                               SpanPtr span) {
     auto path = get_header(headers, ":path");
@@ -457,7 +468,7 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
 
     if (!path || !method) {
         spdlog::error("invalid request: missing path or method");
-        return HttpResponse{.status_code = 400};
+        return with_standard_headers(HttpResponse{.status_code = 400});
     }
 
     span->SetAttribute("http.method", *method);
@@ -477,14 +488,7 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
 
     span->SetAttribute("http.status_code", resp.status_code);
 
-    resp.headers.insert(resp.headers.begin(),
-                        HttpHeader{":status", std::to_string(resp.status_code)});
-    if (!resp.body.empty()) {
-        resp.headers.push_back({"content-length", std::to_string(resp.body.size())});
-    }
-    resp.headers.push_back({"server", std::string{SERVER_HEADER}});
-    resp.headers.push_back({"x-powered-by", std::string{SERVER_HEADER}});
-    return resp;
+    return with_standard_headers(std::move(resp));
 }
 
 void Http2Connection::enqueue_write(std::span<const uint8_t> data) {
-- 
2.43.0


From 1cea904ec1e3a777dec381618ce591dc29b9eb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:09 +0000
Subject: [PATCH 10/27] fix: answer 500 when a handler throws something other
 than std::exception

---
 lib/http2_conn.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 6103be7..9ae26c8 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -484,6 +484,9 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
     } catch (const std::exception& e) {
         spdlog::error("error processing request: {}", e.what());
         resp = HttpResponse{.status_code = 500};
+    } catch (...) {
+        spdlog::error("error processing request: unknown exception");
+        resp = HttpResponse{.status_code = 500};
     }
 
     span->SetAttribute("http.status_code", resp.status_code);
-- 
2.43.0


From 21464a46908ab64af1c0c7bc5fb681c6912632eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:49 +0000
Subject: [PATCH 11/27] fix: keep the HPACK encoder within the peer's default
 4096-byte table

---
 lib/hpack/dynamic_table.h | 1 +
 lib/http2_conn.h          | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/hpack/dynamic_table.h b/lib/hpack/dynamic_table.h
index 0b0748e..c5609ea 100644
--- a/lib/hpack/dynamic_table.h
+++ b/lib/hpack/dynamic_table.h
@@ -10,6 +10,7 @@ namespace ion {
 
 constexpr size_t HARD_TABLE_SIZE_LIMIT = 64 * 1024;
 constexpr size_t DEFAULT_MAX_TABLE_SIZE = 64 * 1024;
+constexpr size_t PROTOCOL_DEFAULT_TABLE_SIZE = 4096;  // RFC 9113, SETTINGS_HEADER_TABLE_SIZE
 
 class DynamicTable {
    public:
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 59f16bf..1a716fe 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -54,7 +54,8 @@ class Http2Connection {
     std::vector<uint8_t> write_buffer_;
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
     DynamicTable decoder_dynamic_table_{};
-    DynamicTable encoder_dynamic_table_{};
+    // the peer's decoder starts with the protocol's default table size
+    DynamicTable encoder_dynamic_table_{PROTOCOL_DEFAULT_TABLE_SIZE};
     HeaderBlockDecoder decoder_{decoder_dynamic_table_};
     HeaderBlockEncoder encoder_{encoder_dynamic_table_};
     std::chrono::steady_clock::time_point last_activity_{std::chrono::steady_clock::now()};
-- 
2.43.0


From 332bfaf478c83ccfd7cea1ebad88552ac3fea73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:58 +0000
Subject: [PATCH 12/27] fix: treat a short TCP write as progress, not as a
 write error

---
 lib/transports/tcp_transport.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/lib/transports/tcp_transport.cpp b/lib/transports/tcp_transport.cpp
index f083125..b277c69 100644
--- a/lib/transports/tcp_transport.cpp
+++ b/lib/transports/tcp_transport.cpp
@@ -51,12 +51,6 @@ std::expected<ssize_t, TransportError> TcpTransport::write(std::span<const uint8
         spdlog::error("TCP write error: {}", strerror(errno));
         return std::unexpected(TransportError::WriteError);
     }
-    if (bytes_written != static_cast<ssize_t>(buffer.size())) {
-        spdlog::error("TCP partial write: wrote {} of {} bytes", bytes_written, buffer.size());
-        // For non-blocking sockets, partial writes can happen
-        // TODO: Fix this!
-        return std::unexpected(TransportError::WriteError);
-    }
     spdlog::trace("successfully wrote {} bytes to TCP socket", bytes_written);
     return bytes_written;
 }
-- 
2.43.0


From 307127e467164a57e6c506bbdbb29bb893c73038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:47 +0000
Subject: [PATCH 13/27] fix: survive transient accept errors and clients whose
 socket cannot be set up

---
 lib/tcp_listener.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/lib/tcp_listener.cpp b/lib/tcp_listener.cpp
index c9a2038..8077c96 100644
--- a/lib/tcp_listener.cpp
+++ b/lib/tcp_listener.cpp
@@ -87,16 +87,32 @@ std::optional<SocketFd> TcpListener::try_accept() {
     const int fd = ::accept(server_fd_, reinterpret_cast<sockaddr*>(&client_addr), &client_len);
     if (fd >= 0) {
         auto client_fd = SocketFd(fd);
-        set_nonblocking_socket(client_fd);  // required for Linux. macOS inherits from server_fd!
+        try {
+            set_nonblocking_socket(
+                client_fd);  // required for Linux. macOS inherits from server_fd!
+        } catch (const std::system_error& e) {
+            spdlog::error("dropping client: {}", e.what());
+            return std::nullopt;
+        }
         set_tcp_no_delay(client_fd);
         return client_fd;
     }
 
-    if (errno == EAGAIN || errno == EINTR) {
-        return std::nullopt;
+    switch (errno) {
+        case EBADF:
+        case EFAULT:
+        case EINVAL:
+        case ENOTSOCK:
+            // the listening socket itself is unusable
+            throw std::system_error(errno, std::system_category(), "accept");
+        case EAGAIN:
+        case EINTR:
+            return std::nullopt;
+        default:
+            // the client went away, the network failed or resources ran out: try again later
+            spdlog::warn("accept failed: {}", strerror(errno));
+            return std::nullopt;
     }
-
-    throw std::system_error(errno, std::system_category(), "accept");
 }
 
 void TcpListener::close() {
-- 
2.43.0


From 24418635d28bddc48c5045173947f29007a76783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:38 +0000
Subject: [PATCH 14/27] fix: watch a descriptor whose number was reused without
 an explicit remove

---
 lib/pollers/epoll_poller.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/pollers/epoll_poller.cpp b/lib/pollers/epoll_poller.cpp
index bbf2541..21f0828 100644
--- a/lib/pollers/epoll_poller.cpp
+++ b/lib/pollers/epoll_poller.cpp
@@ -55,7 +55,12 @@ void EPollPoller::set(int fd, PollEventType event_types) {
 
     const int op = registered_fds_.contains(fd) ? EPOLL_CTL_MOD : EPOLL_CTL_ADD;
 
-    if (epoll_ctl(epoll_fd_, op, fd, &ev) < 0) {
+    int result = epoll_ctl(epoll_fd_, op, fd, &ev);
+    if (result < 0 && op == EPOLL_CTL_MOD && errno == ENOENT) {
+        // the descriptor registered before was closed and its number has been reused
+        result = epoll_ctl(epoll_fd_, EPOLL_CTL_ADD, fd, &ev);
+    }
+    if (result < 0) {
         spdlog::warn("epoll_ctl: failed (fd: {}): {}", fd, strerror(errno));
         return;
     }
-- 
2.43.0


From 5a250cd3201494168ae4894847ca57cc9efd1b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:57 +0000
Subject: [PATCH 15/27] fix: clear the TLS error queue before each TLS
 operation

---
 lib/transports/tls_transport.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 6ddeed3..05f36c8 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -38,6 +38,8 @@ TlsTransport::TlsTransport(SocketFd&& client_fd, const TlsContext& tls_context)
 }
 
 std::expected<void, TransportError> TlsTransport::handshake() const {
+    // SSL_get_error looks at this thread's error queue, so discard what earlier operations left
+    ERR_clear_error();
     const int result = SSL_accept(ssl_);
     if (result == 1) {
         return {};
@@ -78,6 +80,7 @@ TlsTransport::~TlsTransport() {
 }
 
 void TlsTransport::graceful_shutdown() const {
+    ERR_clear_error();
     BIO_flush(SSL_get_wbio(ssl_));
     // Bidirectional shutdown
     spdlog::debug("shutting down SSL (client notify)");
@@ -93,6 +96,7 @@ void TlsTransport::print_debug_to_stderr() {
 
 std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buffer) const {
     spdlog::trace("reading from SSL");
+    ERR_clear_error();
     const auto bytes_read = SSL_read(ssl_, buffer.data(), static_cast<int>(buffer.size()));
     if (bytes_read <= 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_read)) {
@@ -118,6 +122,7 @@ std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buf
 }
 
 std::expected<ssize_t, TransportError> TlsTransport::write(std::span<const uint8_t> buffer) const {
+    ERR_clear_error();
     const auto bytes_written = SSL_write(ssl_, buffer.data(), static_cast<int>(buffer.size()));
     if (bytes_written < 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_written)) {
-- 
2.43.0


From 52d2949a5e85d9a4662ad3ffedb0c38217bb1d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:57 +0000
Subject: [PATCH 16/27] fix: drop a client whose TLS session cannot be created
 instead of stopping the server

---
 lib/http2_server.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/http2_server.cpp b/lib/http2_server.cpp
index ec21578..93ce254 100644
--- a/lib/http2_server.cpp
+++ b/lib/http2_server.cpp
@@ -39,8 +39,11 @@ void Http2Server::establish_conn(TcpListener& listener, Poller& poller) {
     spdlog::info("client connected (ip: {})", client_ip_res.value_or("unknown"));
 
     const int raw_fd = *fd;
-    auto transport = create_transport(std::move(fd.value()));
-    if (!transport) {
+    std::unique_ptr<Transport> transport;
+    try {
+        transport = create_transport(std::move(fd.value()));
+    } catch (const std::runtime_error& e) {
+        spdlog::error("dropping client: {}", e.what());
         return;
     }
 
-- 
2.43.0


From 817b3fdf1a20c64f51472e557d56cb31021e2af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:57 +0000
Subject: [PATCH 17/27] fix: free the TLS session when its descriptor cannot be
 set

---
 lib/transports/tls_transport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 05f36c8..095bab0 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -33,6 +33,7 @@ TlsTransport::TlsTransport(SocketFd&& client_fd, const TlsContext& tls_context)
     ssl_ = tls_context.create_ssl();
 
     if (SSL_set_fd(ssl_, client_fd_) != 1) {
+        SSL_free(ssl_);
         throw std::runtime_error("failed to set SSL file descriptor");
     }
 }
-- 
2.43.0


From 7ec6e7693e6a43f68b0e7174f61d36b863304583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:04 +0000
Subject: [PATCH 18/27] fix: resolve symlinks that follow a collapsed missing
 component in static paths

---
 lib/file_reader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/file_reader.cpp b/lib/file_reader.cpp
index f7e4ce2..a6108ab 100644
--- a/lib/file_reader.cpp
+++ b/lib/file_reader.cpp
@@ -115,7 +115,9 @@ std::optional<std::string> FileReader::sanitize_path(const std::string& base_dir
         fs::path combined = requested.is_absolute() ? requested : (base / requested);
 
         // Normalize the combined path (resolve .. and . where possible without requiring the leaf)
-        auto full = fs::weakly_canonical(combined);
+        // Collapsing ".." after a missing component can bring symlinks back into view ("nx/../link"),
+        // so resolve the collapsed path once more
+        auto full = fs::weakly_canonical(fs::weakly_canonical(combined));
 
         // Ensure the resolved path is within the base directory by comparing path components
         auto base_it = base.begin();
-- 
2.43.0


From d9235dd661077e555526880f6d9048bb0afa5961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:04 +0000
Subject: [PATCH 19/27] fix: serve index.html for the bare static prefix
 followed by a query string

---
 lib/static_file_handler.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/static_file_handler.cpp b/lib/static_file_handler.cpp
index 88d21a3..80d232b 100644
--- a/lib/static_file_handler.cpp
+++ b/lib/static_file_handler.cpp
@@ -18,6 +18,11 @@ bool StaticFileHandler::matches(const std::string& path) const {
 std::string StaticFileHandler::get_relative_path(const std::string& url_path) const {
     std::string rel_path = url_path.substr(url_prefix_.length());
 
+    // remove query string
+    if (const auto query_pos = rel_path.find('?'); query_pos != std::string::npos) {
+        rel_path = rel_path.substr(0, query_pos);
+    }
+
     if (rel_path.empty() || rel_path == "/") {
         rel_path = "/index.html";
     }
@@ -26,11 +31,6 @@ std::string StaticFileHandler::get_relative_path(const std::string& url_path) co
         rel_path = rel_path.substr(1);
     }
 
-    // remove query string
-    if (const auto query_pos = rel_path.find('?'); query_pos != std::string::npos) {
-        rel_path = rel_path.substr(0, query_pos);
-    }
-
     return rel_path;
 }
 
-- 
2.43.0


From 23c7dfe5c23c5d6a92a506402bbc7ec013033511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:04 +0000
Subject: [PATCH 20/27] fix: do not keep references to lookup arguments in
 static route handlers

---
 lib/router.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/router.cpp b/lib/router.cpp
index 5dbf97c..2ad2b4d 100644
--- a/lib/router.cpp
+++ b/lib/router.cpp
@@ -24,8 +24,9 @@ RouteHandler Router::get_handler(const std::string& path, const std::string& met
         if (method == "GET" || method == "HEAD") {
             for (const auto& handler : static_handlers_) {
                 if (handler->matches(path)) {
-                    target = [&handler, path, &method](const HttpRequest&) -> HttpResponse {
-                        return handler->handle(path, method == "HEAD");
+                    target = [static_handler = handler.get(), path,
+                              is_head = method == "HEAD"](const HttpRequest&) -> HttpResponse {
+                        return static_handler->handle(path, is_head);
                     };
                 }
             }
-- 
2.43.0


From bdb1270e89e70bf836d91c5cf5b3bcdedaa33993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:35 +0000
Subject: [PATCH 21/27] fix: escape control characters and quotes in access log
 fields

---
 lib/access_log.cpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/lib/access_log.cpp b/lib/access_log.cpp
index 20b5202..aa3da9a 100644
--- a/lib/access_log.cpp
+++ b/lib/access_log.cpp
@@ -8,6 +8,28 @@
 
 namespace ion {
 
+namespace {
+
+// Header values come from the client: nothing in them may end the line or the quoted field.
+std::string escape(const std::string& value) {
+    std::string escaped;
+    escaped.reserve(value.size());
+    for (const char c : value) {
+        const auto byte = static_cast<unsigned char>(c);
+        if (c == '"' || c == '\\') {
+            escaped += '\\';
+            escaped += c;
+        } else if (byte < 0x20 || byte == 0x7f) {
+            escaped += std::format("\\x{:02x}", byte);
+        } else {
+            escaped += c;
+        }
+    }
+    return escaped;
+}
+
+}  // namespace
+
 void AccessLog::log_request(std::vector<HttpHeader>& req_headers, uint16_t status_code,
                             size_t content_length, const std::string& client_ip) {
     auto access_log = spdlog::get(ACCESS_LOGGER_NAME);
@@ -22,16 +44,16 @@ void AccessLog::log_request(std::vector<HttpHeader>& req_headers, uint16_t statu
 
     for (const auto& [name, value] : req_headers) {
         if (name == ":method") {
-            method = value;
+            method = escape(value);
         }
         if (name == ":path") {
-            path = value;
+            path = escape(value);
         }
         if (name == "user-agent") {
-            user_agent = value;
+            user_agent = escape(value);
         }
         if (name == "referer") {
-            referrer = value;
+            referrer = escape(value);
         }
     }
     const auto entry =
-- 
2.43.0


From 4da4cb5f29254081bdcc08849cc4c74ac0a46b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:32 +0000
Subject: [PATCH 22/27] fix: leave the private key path unset when no key was
 given

---
 app/args.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/app/args.cpp b/app/args.cpp
index 56a6f66..6ee056e 100644
--- a/app/args.cpp
+++ b/app/args.cpp
@@ -66,6 +66,5 @@ ion::ServerConfiguration Args::to_server_config() const {
     if (!key_path.empty()) {
         config.key_path = key_path;
     }
-    config.key_path = key_path;
     return config;
 }
-- 
2.43.0


From e2de6e43323e17f8466c09092adde0ab5a033a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:34 +0000
Subject: [PATCH 23/27] fix: count requests whose handler fails as 500 in the
 status page

---
 app/server_stats.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/app/server_stats.cpp b/app/server_stats.cpp
index af5448c..f6d24df 100644
--- a/app/server_stats.cpp
+++ b/app/server_stats.cpp
@@ -20,7 +20,14 @@ ion::Middleware ServerStats::middleware() {
             stats.total_requests++;
             const auto start = std::chrono::steady_clock::now();
 
-            auto res = next(req);
+            auto res = [&] {
+                try {
+                    return next(req);
+                } catch (...) {
+                    stats.status_codes[500]++;  // what the connection answers
+                    throw;
+                }
+            }();
 
             const auto end = std::chrono::steady_clock::now();
             const auto duration =
-- 
2.43.0


From 5c68d0b5f08a2a68ba9e6e9e7d108637df746daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:16 +0000
Subject: [PATCH 24/27] fix: accept log levels in any case without aborting

---
 app/args.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/args.cpp b/app/args.cpp
index 6ee056e..a7aed4d 100644
--- a/app/args.cpp
+++ b/app/args.cpp
@@ -14,8 +14,8 @@ Args Args::register_opts(CLI::App& app) {
     app.add_option("--log-level,-l", args.log_level,
                    "Set logging level (trace, debug, info, warn, error, critical, off)")
         ->default_val(DEFAULT_LOG_LEVEL)
-        ->check(CLI::IsMember({"trace", "debug", "info", "warn", "error", "critical", "off"},
-                              CLI::ignore_case));
+        ->transform(CLI::IsMember({"trace", "debug", "info", "warn", "error", "critical", "off"},
+                                  CLI::ignore_case));
     app.add_option("--static,-s", args.static_map,
                    "Map URL prefix to directory. Usage: --static /url/path ./fs/path")
         ->expected(2);
-- 
2.43.0


From 798b1f042ff1a490ae9ac2dc0d6e750d9faa1fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:16 +0000
Subject: [PATCH 25/27] fix: send no body with the custom 404 page for HEAD
 requests

---
 app/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/main.cpp b/app/main.cpp
index 66dc04a..ec8adee 100644
--- a/app/main.cpp
+++ b/app/main.cpp
@@ -46,8 +46,8 @@ void run_server(const Args& args) {
                 auto res = next(req);
 
                 if (res.status_code == 404) {
-                    auto file_res =
-                        ion::StaticFileHandler::file_response(args.status_404_file_path, false);
+                    auto file_res = ion::StaticFileHandler::file_response(
+                        args.status_404_file_path, req.method == "HEAD");
                     file_res.status_code = 404;
                     return file_res;
                 }
-- 
2.43.0


From b8114932255de70f39be72826bc392e6a7b52796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:55 +0000
Subject: [PATCH 26/27] fix: fail to start when epoll cannot be created instead
 of spinning

---
 lib/pollers/epoll_poller.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/pollers/epoll_poller.cpp b/lib/pollers/epoll_poller.cpp
index 21f0828..61178fc 100644
--- a/lib/pollers/epoll_poller.cpp
+++ b/lib/pollers/epoll_poller.cpp
@@ -3,6 +3,8 @@
 
 #include <unistd.h>
 
+#include <system_error>
+
 #include "spdlog/spdlog.h"
 
 namespace ion {
@@ -10,7 +12,7 @@ namespace ion {
 EPollPoller::EPollPoller() : events_buffer_(64) {
     epoll_fd_ = epoll_create1(EPOLL_CLOEXEC);
     if (epoll_fd_ < 0) {
-        spdlog::error("epoll_create1: failed: {}", strerror(errno));
+        throw std::system_error(errno, std::system_category(), "epoll_create1");
     }
 }
 
-- 
2.43.0


From ecdbce9ff10b32a7e4939c6328645eb3cf0eeb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:55 +0000
Subject: [PATCH 27/27] fix: fail to start when the listening socket cannot be
 watched

---
 lib/http2_server.cpp         | 4 +++-
 lib/pollers/epoll_poller.cpp | 5 +++--
 lib/pollers/epoll_poller.h   | 2 +-
 lib/pollers/poll_poller.cpp  | 3 ++-
 lib/pollers/poll_poller.h    | 2 +-
 lib/pollers/poller.h         | 3 ++-
 6 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/http2_server.cpp b/lib/http2_server.cpp
index 93ce254..f388b61 100644
--- a/lib/http2_server.cpp
+++ b/lib/http2_server.cpp
@@ -127,7 +127,9 @@ void Http2Server::start(uint16_t port) {
     spdlog::info("listening on port {}", port);
 
     const auto poller = Poller::create();
-    poller->set(listener_fd, PollEventType::Read);
+    if (!poller->set(listener_fd, PollEventType::Read)) {
+        throw std::runtime_error("failed to watch the listening socket");
+    }
 
     while (!user_req_termination_) {
         reap_idle_connections(*poller);
diff --git a/lib/pollers/epoll_poller.cpp b/lib/pollers/epoll_poller.cpp
index 61178fc..8263f56 100644
--- a/lib/pollers/epoll_poller.cpp
+++ b/lib/pollers/epoll_poller.cpp
@@ -50,7 +50,7 @@ PollEventType EPollPoller::from_epoll_events(uint32_t events) {
     return result;
 }
 
-void EPollPoller::set(int fd, PollEventType event_types) {
+bool EPollPoller::set(int fd, PollEventType event_types) {
     epoll_event ev{};
     ev.events = to_epoll_events(event_types);
     ev.data.fd = fd;
@@ -64,9 +64,10 @@ void EPollPoller::set(int fd, PollEventType event_types) {
     }
     if (result < 0) {
         spdlog::warn("epoll_ctl: failed (fd: {}): {}", fd, strerror(errno));
-        return;
+        return false;
     }
     registered_fds_[fd] = event_types;
+    return true;
 }
 
 void EPollPoller::remove(int fd) {
diff --git a/lib/pollers/epoll_poller.h b/lib/pollers/epoll_poller.h
index 420cc55..7579243 100644
--- a/lib/pollers/epoll_poller.h
+++ b/lib/pollers/epoll_poller.h
@@ -17,7 +17,7 @@ class EPollPoller : public Poller {
 
     std::expected<std::vector<PollEvent>, PollError> poll(
         std::chrono::milliseconds timeout) override;
-    void set(int fd, PollEventType event_types) override;
+    bool set(int fd, PollEventType event_types) override;
     void remove(int fd) override;
 
    private:
diff --git a/lib/pollers/poll_poller.cpp b/lib/pollers/poll_poller.cpp
index 95d05a6..9152730 100644
--- a/lib/pollers/poll_poller.cpp
+++ b/lib/pollers/poll_poller.cpp
@@ -65,8 +65,9 @@ std::expected<std::vector<PollEvent>, PollError> PollPoller::poll(
     return result;
 }
 
-void PollPoller::set(int fd, PollEventType event_types) {
+bool PollPoller::set(int fd, PollEventType event_types) {
     fd_events_[fd] = event_types;
+    return true;
 }
 
 void PollPoller::remove(int fd) {
diff --git a/lib/pollers/poll_poller.h b/lib/pollers/poll_poller.h
index 194bf03..f80c21e 100644
--- a/lib/pollers/poll_poller.h
+++ b/lib/pollers/poll_poller.h
@@ -13,7 +13,7 @@ class PollPoller : public Poller {
 
     std::expected<std::vector<PollEvent>, PollError> poll(
         std::chrono::milliseconds timeout) override;
-    void set(int fd, PollEventType event_types) override;
+    bool set(int fd, PollEventType event_types) override;
     void remove(int fd) override;
 
    private:
diff --git a/lib/pollers/poller.h b/lib/pollers/poller.h
index a840f4d..5ba96b3 100644
--- a/lib/pollers/poller.h
+++ b/lib/pollers/poller.h
@@ -35,7 +35,8 @@ inline bool has_event(PollEventType events, PollEventType check) {
 class Poller {
    public:
     virtual ~Poller() = default;
-    virtual void set(int fd, PollEventType events) = 0;
+    // false if the descriptor could not be watched
+    virtual bool set(int fd, PollEventType events) = 0;
     virtual void remove(int fd) = 0;
     virtual std::expected<std::vector<PollEvent>, PollError> poll(
         std::chrono::milliseconds timeout) = 0;
-- 
2.43.0

