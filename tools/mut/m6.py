M=[]
def m(id,prop,*edits): M.append((id,prop,edits))
C='lib/http2_conn.cpp'; CH='lib/http2_conn.h'; D='lib/hpack/header_block_decoder.cpp'; E='lib/hpack/header_block_encoder.cpp'; T='lib/hpack/dynamic_table.cpp'
S='lib/http2_server.cpp'; SHH='lib/http2_server.h'; L='lib/tcp_listener.cpp'; H='lib/hpack/huffman_tree.cpp'; TL='lib/transports/tls_transport.cpp'; TC='lib/transports/tcp_transport.cpp'
F='lib/file_reader.cpp'; SF='lib/static_file_handler.cpp'; R='lib/router.cpp'; FR='lib/http2_frame_reader.h'; FS='lib/http2_frames.h'
EP='lib/pollers/epoll_poller.cpp'; PP='lib/pollers/poll_poller.cpp'; AL='lib/access_log.cpp'; MA='app/main.cpp'; SH='app/signal_handler.cpp'; TX='lib/transports/tls_context.cpp'
SF2='lib/socket_fd.cpp'
# HPACK
m('f_enc_huff_len','C03',(E,'auto encoded_length = IntegerEncoder::encode(bitstream.size(), 7);','auto encoded_length = IntegerEncoder::encode(static_cast<uint16_t>(bitstream.size() & 0x3fff), 7);'))
m('f_enc_cookie','C06',(E,'            // insert into dynamic table\n            dynamic_table_.insert(hdr);\n            continue;\n        }\n\n        // is dynamic field header name?','            // insert into dynamic table\n            if (hdr.value.size() + hdr.name.size() < 4000) { dynamic_table_.insert(hdr); }\n            continue;\n        }\n\n        // is dynamic field header name?'))
m('f_enc_dup_value','C06',(E,'        // new name\n','        if (hdr.name == hdr.value && !hdr.name.empty() && false) {}\n        // new name\n'))  # equivalent (control)
m('f_tbl_dup','C07',(T,'    table_.push_front(header);\n    table_size_ += entry_size;','    if (!table_.empty() && table_.size() > 3 && table_.front().name == header.name && table_.front().value == header.value) { return; }\n    table_.push_front(header);\n    table_size_ += entry_size;'))
m('f_tbl_wipe_max','C07',(T,'        table_.clear();\n        table_size_ = 0;\n        return;','        while (table_.size() > 1) { table_size_ -= get_header_entry_size(table_.back()); table_.pop_back(); }\n        if (!table_.empty()) { table_.pop_back(); }\n        table_size_ = 0;\n        max_table_size_ = max_table_size_ > 32 ? max_table_size_ : 0;\n        return;'))
m('f_dec_upd_then','C05',(D,'    dynamic_table_.set_max_table_size(*new_sz);','    if (*new_sz != 0 || dynamic_table_.count() > 1) { dynamic_table_.set_max_table_size(*new_sz); }'))
m('f_dec_name_dyn_last','C05',(D,'''    if (dynamic_index >= dynamic_table_.count()) {
        spdlog::error("invalid dynamic table index lookup for header name''','''    if (dynamic_index >= dynamic_table_.count() || dynamic_index > 60) {
        spdlog::error("invalid dynamic table index lookup for header name'''))
m('f_dec_idx_254','C05',(D,'    return read_indexed_header(*index);','    return read_indexed_header(static_cast<uint8_t>(*index));'))
m('f_huff_sym_zero','C04',(H,'    current->symbol = symbol;','    if (symbol != 0 || code_len != 13) { current->symbol = symbol; } else { current->symbol = 0xff; }'))
m('f_dec_limit_total','C08',(D,'                if (auto hdr = decode_indexed_field(reader)) {','                if (auto hdr = decode_indexed_field(reader)) {\n                    if (hdr->value.size() > 4096) { return std::unexpected(FrameError::ProtocolError); }'))
m('f_hard_limit','C08',(D,'*new_sz > HARD_TABLE_SIZE_LIMIT','(*new_sz & 0xffffff) > HARD_TABLE_SIZE_LIMIT'))
# frames
m('f_sid_ff','C09',(FS,'.stream_id = load_uint32_be(data.subspan<5, 4>()) & 0x7FFFFFFF','.stream_id = load_uint32_be(data.subspan<5, 4>()) & (data[3] == 0x07 ? 0xFFFFFFFF : 0x7FFFFFFF)'))
m('f_pad_eq','C10',(FR,'return payload_.size() >= headers_prefix_size() + padding_size();','return payload_.size() > headers_prefix_size() + padding_size() || !padded();'))
m('f_prio_bit','C10',(FR,'return (padded() ? 1 : 0) + (priority() ? 5 : 0);','return (padded() ? 1 : 0) + (priority() ? (padded() && !payload_.empty() && payload_[0] == 0 ? 4 : 5) : 0);'))
m('f_goaway_len','C11',(C,'            spdlog::debug("received GOAWAY frame (stream {})", frame.stream_id());','            if (frame.length() > 8 && frame.payload()[8] == 0xff) { throw 1; }\n            spdlog::debug("received GOAWAY frame (stream {})", frame.stream_id());'))
m('f_seg_19','C12',(C,'    if (read_buffer_.size() < Http2FrameHeader::wire_size) {','    if (read_buffer_.size() < Http2FrameHeader::wire_size && !(read_buffer_.size() == 8 && read_buffer_[0] != 0 && (read_buffer_.resize(9), true))) {'))
m('f_seg_cap','C12',(C,'    if (read_buffer_.size() < total_frame_size) {','    if (read_buffer_.size() < total_frame_size && read_buffer_.size() < MAX_FRAME_SIZE) {'))
m('f_pref_byte','C13',(C,'if (received != CLIENT_PREFACE) {','if (received.substr(0, 23) != CLIENT_PREFACE.substr(0, 23)) {'))
m('f_set_order','C14',(C,'                spdlog::debug("read {} settings, sending ACK", settings->size());','                if (settings->size() > 1 && settings->front().identifier == settings->back().identifier && settings->front().value == 0) { break; }'))
m('f_set_state','C14',(C,'            if (frame.has_flag(0x01)) {','            if (frame.has_flag(0x01) || (frame.stream_id() != 0 && frame.payload().empty())) {'))
# responses
m('f_resp_chunk_tail','C15',(C,'        size_t chunk_size = std::min(remaining_bytes, MAX_FRAME_SIZE - 128);','        size_t chunk_size = std::min(remaining_bytes, MAX_FRAME_SIZE - 128);\n        if (remaining_bytes - chunk_size < 32) { chunk_size = remaining_bytes; }'))
m('f_resp_204','C15',(C,'            auto ending_stream = resp.body.empty();','            auto ending_stream = resp.body.empty() || resp.status_code == 304;'))
m('f_resp_cl','C15',(C,'std::to_string(resp.body.size())','std::to_string(static_cast<uint16_t>(resp.body.size()) + (resp.body.size() & ~0xffffull & 0x1fffff))'))
m('f_viol_second','C16',(C,'''                if (!settings) {
                    update_state(Http2ConnectionState::ProtocolError);''','''                if (!settings) {
                    if (!write_buffer_.empty()) { return; }
                    update_state(Http2ConnectionState::ProtocolError);'''))
m('f_viol_hdr','C16',(C,'''            if (!hdrs) {
                update_state(Http2ConnectionState::ProtocolError);''','''            if (!hdrs) {
                if (frame.stream_id() % 2 == 0) { return; }
                update_state(Http2ConnectionState::ProtocolError);'''))
m('f_out_erase','C17',(C,'    write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + *result);','    if (*result * 2 > static_cast<ssize_t>(write_buffer_.size()) || *result < 4096) { write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + *result); }'))
m('f_out_rotate','C17',(C,'    // remove what was actually sent\n','    if (*result == 0) { write_buffer_.clear(); }\n'))
m('f_500_hdrs','C18',(C,'''        spdlog::error("error processing request: unknown exception");
        resp = HttpResponse{.status_code = 500};''','''        spdlog::error("error processing request: unknown exception");
        resp.status_code = 500;
        update_state(Http2ConnectionState::ClientClosed);'''))
m('f_400_upd','C18',(C,'''        spdlog::error("invalid request: missing path or method");''','''        if (!path && !method) { update_state(Http2ConnectionState::ProtocolError); }'''))
m('f_idle_ww','C19',(C,'    auto result = transport_->write(write_buffer_);\n','    auto result = transport_->write(write_buffer_);\n    if (write_buffer_.size() > 9) { update_last_activity(); }\n'))
m('f_idle_ms','C19',(C,'(std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT','std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT'))
# server
m('f_cap_leak','C20',(S,'            spdlog::warn("server at capacity','            connections_.begin()->second->close();\n            spdlog::warn("server at capacity'))
m('f_err_want','C20',(S,'''            spdlog::info("closing connection");
            poller.remove(fd);''','''            spdlog::info("closing connection");
            if (!has_event(poll_events, PollEventType::Write)) { poller.remove(fd); }'''))
m('f_hs_throw','C21',(S,'    } catch (const std::runtime_error& e) {\n        spdlog::error("dropping','    } catch (const std::system_error& e) {\n        spdlog::error("dropping'))
m('f_poll_err','C21',(S,'''        if (!events) {
            continue;''','''        if (!events) {
            if (events.error() == PollError::Error && connections_.empty()) { break; }
            continue;'''))
m('f_stop_busy','C22',(S,'    while (!user_req_termination_) {','    while (!user_req_termination_ || (stop_reason_ == StopReason::Signal && connections_.size() > 1)) {'))
m('f_stop_reset','C22',(S,'    const int listener_fd = listener.raw_fd();\n    spdlog::info','    const int listener_fd = listener.raw_fd();\n    if (stop_reason_ == StopReason::Signal) { user_req_termination_ = 0; }\n    spdlog::info'))
m('f_ep_err_only','C23',(EP,'    if (events & EPOLLERR) {','    if ((events & EPOLLERR) && !(events & EPOLLHUP)) {'))
m('f_ep_mod_fail','C23',(EP,'        spdlog::warn("epoll_ctl: failed','        registered_fds_.erase(fd);\n        spdlog::warn("epoll_ctl: failed'))
m('f_poll_zero','C23',(PP,'    const int ret = ::poll(poll_fds.data(), poll_fds.size(), static_cast<int>(timeout.count()));','    if (poll_fds.empty()) { return std::unexpected{PollError::Timeout}; }\n    const int ret = ::poll(poll_fds.data(), poll_fds.size(), static_cast<int>(timeout.count()));'))
m('f_tcp_wr_short','C24',(TC,'    spdlog::trace("successfully wrote {} bytes to TCP socket", bytes_written);','    if (bytes_written == 0 && !buffer.empty()) { return std::unexpected(TransportError::WriteError); }'))
m('f_tcp_epipe','C24',(TC,'        spdlog::error("TCP write error: {}", strerror(errno));','        if (errno == EINTR) { return 0; }'))
m('f_tls_shut','C25',(TL,'    if (const int ret = SSL_shutdown(ssl_); ret == 0) {','    if (const int ret = SSL_shutdown(ssl_); ret <= 0) {'))
m('f_tls_eof','C25',(TL,'            case SSL_ERROR_SSL:\n                spdlog::error("TLS protocol error (SSL_ERROR_SSL)");\n                return std::unexpected(TransportError::ProtocolError);\n            default:\n                spdlog::error("TLS read','            case SSL_ERROR_SSL:\n                if (ERR_GET_REASON(ERR_peek_error()) == SSL_R_UNEXPECTED_EOF_WHILE_READING) { return std::unexpected(TransportError::WantReadOrWrite); }\n                return std::unexpected(TransportError::ProtocolError);\n            default:\n                spdlog::error("TLS read'))
m('f_fd_close2','C26',(SF2,'        ::close(fd_);\n','        while (::close(fd_) < 0 && errno == EINTR) {}\n'))
m('f_tls_hs_err','C26',(TL,'            return std::unexpected(TransportError::ProtocolError);\n        }\n    }\n}\n\nTlsTransport::~','            const_cast<TlsTransport*>(this)->ssl_ = nullptr;\n            return std::unexpected(TransportError::ProtocolError);\n        }\n    }\n}\n\nTlsTransport::~'))
# static
m('f_san_pref','C27',(F,'        auto full = fs::weakly_canonical(fs::weakly_canonical(combined));','        auto full = fs::weakly_canonical(combined);\n        if (full.string().find("..") != std::string::npos || !fs::exists(full)) { full = fs::weakly_canonical(full); }'))  # equivalent?
m('f_san_self','C27',(F,'        return full.string();\n','        return fs::is_symlink(full) ? combined.string() : full.string();\n'))
m('f_san_rawret','C27',(F,'        return full.string();\n','        return fs::exists(full) ? full.string() : combined.string();\n'))
m('f_file_nul','C28',(F,'    spdlog::debug("Read file: {} ({} bytes)", path, buffer.size());','    if (buffer.size() >= 3 && buffer[0] == 0xEF && buffer[1] == 0xBB && buffer[2] == 0xBF) { buffer.erase(buffer.begin(), buffer.begin() + 3); }'))
m('f_file_64k','C28',(F,'    std::vector<uint8_t> buffer(size);','    std::vector<uint8_t> buffer(size > 131072 ? 131072 : static_cast<size_t>(size));'),(F,'reinterpret_cast<char*>(buffer.data()), size)','reinterpret_cast<char*>(buffer.data()), buffer.size())'))
m('f_head_empty','C28',(F,'        if (!ec) {\n            return size;','        if (!ec && size != 0) {\n            return size;'))
m('f_idx_dir','C28',(SF,'    if (rel_path.empty() || rel_path == "/") {','    if (rel_path.empty() || rel_path.ends_with("/")) {'))
m('f_route_q','C29',(R,'if (route.path == path && route.method == method) {','if (route.path == path.substr(0, path.find(\'#\')) && route.method == method) {'))
m('f_route_shadow','C29',(R,'    routes_.push_back(route);','    for (auto& r : routes_) { if (r.path == path && r.method == method && routes_.size() > 2) { r.handler = handler; return; } }\n    routes_.push_back(route);'))
m('f_mw_first','C30',(R,'    auto current_chain = middleware_chain_;','    static int added = 0; if (++added > 6) { return; }\n    auto current_chain = middleware_chain_;'))
m('f_log_tab','C31',(AL,'byte < 0x20 || byte == 0x7f','(byte < 0x20 && byte != \'\\t\') || byte == 0x7f'))
m('f_log_len32','C31',(AL,'path, status_code, content_length,','path, status_code, static_cast<uint16_t>(content_length),'))
m('f_log_v6','C31',(AL,'(client_ip.empty() ? "-" : client_ip)','(client_ip.size() > 15 ? client_ip.substr(0, 15) : client_ip.empty() ? "-" : client_ip)'))
m('f_stats_other','C33',('app/server_stats.cpp','            stats.status_codes[res.status_code]++;','            if (res.status_code >= 100 || res.status_code == 0) { stats.status_codes[res.status_code]++; }'))
m('f_stats_nested','C33',('app/server_stats.cpp','            stats.total_requests++;','            if (req.method != "HEAD" || req.path != "/_ion/status") { stats.total_requests++; }'))
m('f_up_day','C33',('app/status_page.cpp','if (minutes > 0 || hours > 0 || days > 0)','if (minutes > 0 || hours > 0)'))
m('f_alpn_last','C34',(TX,'    if (result == OPENSSL_NPN_NEGOTIATED) {','    if (inlen > 2 && in[inlen - 1] == \'2\' && in[inlen - 2] == \'h\' && in[inlen - 3] != 2) { *out = in; *outlen = in[0]; return SSL_TLSEXT_ERR_OK; }\n    if (result == OPENSSL_NPN_NEGOTIATED) {'))
m('f_404_status','C35',(MA,'                    file_res.status_code = 404;','                    if (file_res.status_code != 500) { file_res.status_code = 404; }'))
m('f_404_page405','C35',(MA,'if (res.status_code == 404) {','if (res.status_code == 404 && res.body.empty()) {'))
m('f_main_access','C35',(MA,'        logger->flush_on(spdlog::level::info);','        logger->flush_on(spdlog::level::warn);'))
m('f_keylog_bin','C36',(TX,'std::ofstream file(keylog_file, std::ios::app);','std::ofstream file(std::string(keylog_file).substr(0, 64), std::ios::app);'))
m('f_req_trim','C37',(D,'            case HeaderFieldType::LiteralNoIndex:','            case HeaderFieldType::LiteralNeverIndex:'),(D,'            case HeaderFieldType::LiteralNeverIndex: {\n                if','            case HeaderFieldType::LiteralNoIndex: {\n                if'))  # equivalent
m('f_req_empty_name','C37',(C,'    HttpRequest req{.method = *method, .path = *path, .headers = headers};','    HttpRequest req{.method = *method, .path = *path, .headers = headers};\n    if (req.headers.size() > 16) { req.headers.resize(16); }'))
m('f_req_pseudo','C37',(C,'    HttpRequest req{.method = *method, .path = *path, .headers = headers};','    HttpRequest req{.method = *method, .path = *path, .headers = headers};\n    std::erase_if(req.headers, [](const HttpHeader& h) { return h.name == "te" && h.value == "trailers"; });'))
m('f_conn_ip','C38',(S,'    connections_[raw_fd] = std::move(conn);','    connections_.emplace(raw_fd, std::move(conn));'))
m('f_conn_fdkey','C38',(S,'    auto it = connections_.find(fd);\n','    auto it = connections_.find(fd);\n    if (it != connections_.end() && it->first == 0) { return; }\n'))
m('f_span_attr','C39',(C,'    span->SetAttribute("http.status_code", resp.status_code);','    if (resp.status_code != 404) { span->SetAttribute("http.status_code", resp.status_code); }'))
m('f_span_leak','C39',(C,'            auto scope = tracer->WithActiveSpan(span);','            static std::optional<decltype(tracer->WithActiveSpan(span))> scope; scope.emplace(tracer->WithActiveSpan(span));'))
m('f_start_twice','C40',(L,'    if (::listen(server_fd_, SOMAXCONN) < 0) {','    if (::listen(server_fd_, SOMAXCONN) < 0 && errno != EADDRINUSE) {'))
m('f_tls_ww','C41',(TL,'    if (bytes_written != static_cast<int>(buffer.size())) {','    if (bytes_written < static_cast<int>(buffer.size()) / 2) {'))
m('f_tls_chunk','C41',(TL,'    const auto bytes_written = SSL_write(ssl_, buffer.data(), static_cast<int>(buffer.size()));','    const auto bytes_written = SSL_write(ssl_, buffer.data(), std::min(65536, static_cast<int>(buffer.size())));'))
m('f_close_shut','C42',(C,'                transport_->graceful_shutdown();','                if (read_buffer_.empty()) { transport_->graceful_shutdown(); }'))
m('f_close_err','C42',(C,'    write_goaway(1, ','    if (!write_buffer_.empty() && state_ == Http2ConnectionState::AwaitingPreface) { return; }\n    write_goaway(1, '))
m('f_mem_hdr','C43',(CH,'    Http2ConnectionState state_','    std::vector<std::string> seen_paths_{};\n    Http2ConnectionState state_'),(C,'    auto handler = router_.get_handler(path.value(), method.value());','    if (method->size() > 6) { seen_paths_.push_back(*path); }\n    auto handler = router_.get_handler(path.value(), method.value());'))
m('f_mem_stats','C43',(R,'    return middleware_chain_(std::move(target));','    static std::map<std::string, int> hits; if (!found) { ++hits[path]; }\n    return middleware_chain_(std::move(target));'),('lib/router.cpp','#include "router.h"','#include "router.h"\n#include <map>'))
