M=[]
def m(id,prop,*edits): M.append((id,prop,edits))
C='lib/http2_conn.cpp'; CH='lib/http2_conn.h'; D='lib/hpack/header_block_decoder.cpp'; E='lib/hpack/header_block_encoder.cpp'; T='lib/hpack/dynamic_table.cpp'
S='lib/http2_server.cpp'; SHH='lib/http2_server.h'; L='lib/tcp_listener.cpp'; H='lib/hpack/huffman_tree.cpp'; TL='lib/transports/tls_transport.cpp'; TC='lib/transports/tcp_transport.cpp'
F='lib/file_reader.cpp'; SF='lib/static_file_handler.cpp'; R='lib/router.cpp'; FR='lib/http2_frame_reader.h'; FS='lib/http2_frames.h'
EP='lib/pollers/epoll_poller.cpp'; PP='lib/pollers/poll_poller.cpp'; AL='lib/access_log.cpp'; MA='app/main.cpp'; SH='app/signal_handler.cpp'; TX='lib/transports/tls_context.cpp'
m('e_int_dec_pfx8','C02',('lib/hpack/int_decoder.cpp','if (bits >= 8) {','if (bits > 8) {'))  # equivalent? (1<<8)-1=255 -> equivalent
m('e_int_dec_zero_cont','C02',('lib/hpack/int_decoder.cpp','cont = *continuation_res & 0x80;','cont = (*continuation_res & 0x80) && (value != 0 || shift < 28);'))
m('e_reader_ovf','C02',('lib/hpack/byte_reader.cpp','return pos_ + count <= data_.size();','return static_cast<uint32_t>(pos_ + count) <= data_.size();'))
m('e_str_reader_ovf','C05',('lib/hpack/byte_reader.cpp','return pos_ + count <= data_.size();','return static_cast<uint32_t>(pos_ + count) <= data_.size();'))
m('e_idx_ovf','C05',(D,'std::expected<HttpHeader, FrameError> HeaderBlockDecoder::read_indexed_header(size_t index) {\n    auto table_index = index - 1;','std::expected<HttpHeader, FrameError> HeaderBlockDecoder::read_indexed_header(size_t index) {\n    uint16_t table_index = index - 1;'))
m('e_empty_value','C05',(D,'''    spdlog::trace("decoded header: name: {}, value: {}", name.value(), value.value());''','''    if (is_new_name && name->empty() && value->empty()) { return std::unexpected(FrameError::ProtocolError); }'''))
m('e_upd_mid','C05',(D,'''                if (auto res = decode_dynamic_table_size_update(reader); !res) {''','''                if (hdrs.size() > 1) { return std::unexpected(FrameError::ProtocolError); }
                if (auto res = decode_dynamic_table_size_update(reader); !res) {'''))
m('e_name_ref_copy','C05',(D,'''                    dynamic_table_.insert(hdr.value());
                    hdrs.push_back''','''                    if (dynamic_table_.count() < 64) dynamic_table_.insert(hdr.value());
                    hdrs.push_back'''))
m('e_enc_static_first','C06',(E,'''        if (auto dyn_table_index = dynamic_table_.find(hdr)) {
            const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;''','''        if (auto dyn_table_index = dynamic_table_.find(hdr)) {
            const uint8_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;'''))  # never >255? 4096/32=128+61 ->equivalent
m('e_enc_sensitive','C06',(E,'''            // insert into dynamic table
            dynamic_table_.insert(hdr);
            continue;
        }

        // is dynamic field header name?''','''            // insert into dynamic table
            if (hdr.value.size() <= 2048) dynamic_table_.insert(hdr);
            continue;
        }

        // is dynamic field header name?'''))
m('e_tbl_find_ci','C06',(T,'[name](const HttpHeader& hdr) { return name == hdr.name; });','[name](const HttpHeader& hdr) { return name.size() > 8 ? name.substr(0, name.size() - 1) == hdr.name.substr(0, hdr.name.size() - 1) && name.size() == hdr.name.size() : name == hdr.name; });'))
m('e_str_nul','C03',(E,'for (const char c : str) {\n            auto huffman','for (const char c : std::string_view(str.c_str())) {\n            auto huffman'))
m('e_plain_hibit','C03',(E,'bytes.push_back(encoded_length[0]);\n','bytes.push_back(encoded_length[0]);\n        if (str.size() == 3 && str[2] < 0) { bytes.push_back(str[0]); bytes.push_back(str[1]); bytes.push_back(str[2] & 0x7f); return bytes; }\n'))
m('e_bw_reuse','C03',('lib/hpack/bit_writer.h','uint8_t padding_bits = 8 - bits_in_current_;','uint8_t padding_bits = 8 - bits_in_current_; if (buffer_.size() > 4096) { buffer_.push_back(current_byte_); return std::move(buffer_); }'))
m('e_huff_eos30','C04',(H,'if (pending_bits > 7 || !pending_all_ones) {','if ((pending_bits > 7 && pending_bits < 30) || !pending_all_ones) {'))
m('e_huff_reset','C04',(H,'pending_bits++;','pending_bits = (pending_bits + 1) & 31;'))
m('e_lim_idx','C08',(D,'static constexpr size_t MAX_HEADER_STRING_LENGTH = 4 * 1024;','static constexpr size_t MAX_HEADER_STRING_LENGTH = 4 * 1024 - 1;'))
m('e_tbl_u16','C08',(T,'    table_size_ += entry_size;','    table_size_ += static_cast<uint16_t>(entry_size);'))
m('e_tbl_max_restore','C08',(T,'    max_table_size_ = new_sz;\n','    max_table_size_ = new_sz == 0 ? max_table_size_ : new_sz;\n    if (new_sz == 0) { table_.clear(); table_size_ = 0; }\n'))
m('e_settings_val','C09',(FS,'''            .value = load_uint32_be(data.subspan<2, 4>()),
        };''','''            .value = load_uint32_be(data.subspan<2, 4>()) & 0x7FFFFFFF,
        };'''))
m('e_goaway_debug','C09',(FS,'.error_code = load_uint32_be(data.subspan<4, 4>()),','.error_code = load_uint16_be(data.subspan<6, 2>()),'))
m('e_sid_parse','C37',(FS,'load_uint32_be(data.subspan<5, 4>()) & 0x7FFFFFFF};','load_uint32_be(data.subspan<5, 4>()) & 0x3FFFFFFF};'))
m('e_sid_parse15','C15',(FS,'load_uint32_be(data.subspan<5, 4>()) & 0x7FFFFFFF};','load_uint32_be(data.subspan<5, 4>()) & 0x7FFFFFFF & ~(1u << 24)};'))
m('e_pad_all','C10',(FR,'return payload_.size() >= headers_prefix_size() + padding_size();','return payload_.size() > headers_prefix_size() + padding_size() || (!padded() && payload_.size() >= headers_prefix_size());'))
m('e_prio_pad','C10',(FR,'return (padded() ? 1 : 0) + (priority() ? 5 : 0);','return (padded() ? 1 : 0) + (priority() && !(padded() && payload_.size() > 260) ? 5 : 0);'))
m('e_wu_zero_conn','C14',(C,'spdlog::debug("window size increment = {}", window_size_increment);','if (window_size_increment == 0) { write_goaway(frame.stream_id(), ErrorCode::protocol_error); }'))
m('e_unknown_ping','C14',(C,'spdlog::debug("received unknown frame type: {}", frame.type());','if (frame.type() == 6 && frame.length() == 8 && !frame.has_flag(1)) { write_frame_header({8, 6, 1, 0}); enqueue_write(frame.payload()); }'))
m('e_settings_stream','C14',(C,'const Http2FrameHeader header{\n        .length = 0, .type = FRAME_TYPE_SETTINGS','if (write_buffer_.size() > 65536) return;\n    const Http2FrameHeader header{\n        .length = 0, .type = FRAME_TYPE_SETTINGS'))
m('e_ack_dedup','C14',(C,'void Http2Connection::write_settings_ack() {','void Http2Connection::write_settings_ack() {\n    if (write_buffer_.size() >= 18 && write_buffer_[write_buffer_.size() - 6] == 4 && write_buffer_[write_buffer_.size() - 15] == 4) return;'))
m('e_buf_reserve','C11',(C,'if (read_buffer_.size() + TEMP_READ_BUFFER_SIZE >= MAX_READ_BUFFER_SIZE) {','if (read_buffer_.size() + TEMP_READ_BUFFER_SIZE > MAX_READ_BUFFER_SIZE + 1) {'))
m('e_short_frames_wait','C12',(C,'''                    spdlog::debug("frame processed, continuing...");
                    break;''','''                    spdlog::debug("frame processed, continuing...");
                    if (write_buffer_.empty() && read_buffer_.size() < 9) return Http2ProcessResult::WantRead;
                    break;'''))  # may be benign
m('e_close_clear','C42',(C,'    write_goaway(1, (state_','    if (write_buffer_.size() > 1 << 20) { write_buffer_.resize(1 << 20); }\n    write_goaway(1, (state_'))
m('e_pref_extra','C13',(C,'    write_settings();\n    update_state(Http2ConnectionState::AwaitingFrame);','    if (read_buffer_.size() == CLIENT_PREFACE.size() + 9) write_settings();\n    write_settings();\n    update_state(Http2ConnectionState::AwaitingFrame);'))
m('e_hs_early','C13',(C,'if (handshake_result.error() == TransportError::WantReadOrWrite) {','if (handshake_result.error() == TransportError::WantReadOrWrite && !write_buffer_.empty()) {'))
m('e_body_ff','C15',(C,'size_t chunk_size = std::min(remaining_bytes, MAX_FRAME_SIZE - 128);','size_t chunk_size = std::min(remaining_bytes, MAX_FRAME_SIZE - 128); if (remaining_bytes - chunk_size == 1) --chunk_size; if (chunk_size == 0) chunk_size = 1;'))  # correct actually: chunking changes but ok -> should be quiet
m('e_hdr_order','C15',(C,'resp.headers.insert(resp.headers.begin(),','resp.headers.insert(resp.headers.size() > 8 ? resp.headers.end() : resp.headers.begin(),'))
m('e_status_str','C15',(C,'HttpHeader{":status", std::to_string(resp.status_code)});','HttpHeader{":status", std::to_string(resp.status_code % 1000)});'))
m('e_big_hdrs','C15',(C,'enqueue_write(headers_data);','enqueue_write(headers_data.subspan(0, std::min<size_t>(headers_data.size(), 16383)));'))
m('e_flags_u8','C15',(C,'FLAG_END_HEADERS | (ending_stream ? FLAG_END_STREAM : 0));','FLAG_END_HEADERS | (ending_stream || resp.status_code == 304 ? FLAG_END_STREAM : 0));'))
m('e_over_prio','C16',(C,'if (header.length > MAX_FRAME_SIZE) {','if (header.length > MAX_FRAME_SIZE && (header.type < 0xf0)) {'))
m('e_goaway_pending','C16',(C,'''            update_state(Http2ConnectionState::ClientClosed);
            break;
        }
        default:''','''            if (frame.stream_id() == 0) update_state(Http2ConnectionState::ClientClosed);
            break;
        }
        default:'''))
m('e_flush_err_rd','C17',(C,'write_buffer_.clear();\n            update_state','write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + write_buffer_.size() / 2);\n            update_state'))
m('e_part_write','C17',(C,'write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + *result);','if (*result % 65536 == 0 && *result > 65536) --*result;\n    write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + *result);'))
m('e_500_reuse','C18',(C,'''        spdlog::error("error processing request: unknown exception");
        resp = HttpResponse{.status_code = 500};''','''        spdlog::error("error processing request: unknown exception");
        resp = HttpResponse{.status_code = 500}; update_state(Http2ConnectionState::Closing);'''))
m('e_empty_method','C18',(C,'if (!path || !method) {','if (!path || !method || path->empty()) {'))
m('e_time_future','C19',(C,'return (std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT;','return std::chrono::floor<std::chrono::seconds>(std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT;'))
m('e_time_zero','C19',(C,'    update_last_activity();\n    spdlog::trace("flushed','    if (*result > 9) update_last_activity();\n    spdlog::trace("flushed'))
m('e_reap_one','C20',(S,'it = connections_.erase(it);','it = connections_.erase(it); if (connections_.size() > 100) break;'))
m('e_reap_busy','C20',(S,'        reap_idle_connections(*poller);\n\n        auto events','        if (connections_.size() < 128) reap_idle_connections(*poller);\n\n        auto events'))
m('e_accept_emfile','C21',(L,'spdlog::warn("accept failed: {}", strerror(errno));\n            return','spdlog::warn("accept failed: {}", strerror(errno)); if (errno == EMFILE) throw std::system_error(errno, std::system_category(), "accept");\n            return'))
m('e_ip_throw','C21',(S,'client_ip_res.value_or(""),','client_ip_res.value(),'))
m('e_stop_events','C22',(S,'        if (!events) {\n            continue;','        if (!events) {\n            if (events.error() == PollError::InterruptedBySignal) user_req_termination_ = 0;\n            continue;'))
m('e_reason','C22',(S,'    stop_reason_ = reason;\n','    if (stop_reason_ == StopReason{}) stop_reason_ = reason;\n'))
m('e_poll_nval','C23',(PP,'if (events & POLLERR) {','if ((events & POLLERR) && !(events & POLLOUT)) {'))
m('e_epoll_rdhup','C23',(EP,'if (events & EPOLLHUP) {','if ((events & EPOLLHUP) && !(events & EPOLLERR)) {'))
m('e_epoll_del','C23',(EP,'    registered_fds_.erase(fd);','    if (registered_fds_.size() > 1) registered_fds_.erase(fd);'))
m('e_tcp_econnreset','C24',(TC,'''        spdlog::error("TCP read error: {}", strerror(errno));''','''        if (errno == ECONNRESET) return std::unexpected(TransportError::WantReadOrWrite);'''))
m('e_tls_write0','C25',(TL,'if (bytes_written < 0) {','if (bytes_written < 0 || (bytes_written == 0 && buffer.empty())) {'))
m('e_fd_self','C26',('lib/socket_fd.cpp','        close();\n        fd_ = other.fd_;','        if (fd_ != 0) close();\n        fd_ = other.fd_;'))
m('e_san_empty','C27',(SF,'    if (rel_path.starts_with("/")) {','    while (rel_path.starts_with("/") && rel_path.find("..") == std::string::npos) {'))
m('e_mime_upper','C28',(F,'std::vector<uint8_t> buffer(size);','std::vector<uint8_t> buffer(size); if (size > 65536) { file.read(reinterpret_cast<char*>(buffer.data()), 65536); buffer.resize(file.gcount()); return buffer; }'))
m('e_route_prefix','C29',(R,'if (route.path == path && route.method == method) {','if (route.path == path && (route.method == method || route.method.empty())) {'))
m('e_static_last','C29',(R,'''                if (handler->matches(path)) {''','''                if (handler->matches(path) && path.size() < 1024) {'''))
m('e_mw_count','C30',(R,'return middleware_chain_(std::move(target));','if (!found && path.empty()) return target;\n    return middleware_chain_(std::move(target));'))
m('e_log_esc','C31',(AL,'if (c == \'"\' || c == \'\\\\\') {','if (c == \'"\') {'))
m('e_log_c1','C31',(AL,'byte < 0x20 || byte == 0x7f','byte < 0x1f || byte == 0x7f'))
m('e_log_len','C31',(AL,'    escaped.reserve(value.size());','    escaped.reserve(value.size()); if (value.size() > 2048) return escape(value.substr(0, 2048));'))
m('e_log_empty','C31',(AL,'            referrer = escape(value);','            if (!value.empty()) referrer = escape(value);'))
m('e_cfg_empty','C32',('app/args.cpp','if (!key_path.empty()) {','if (!key_path.empty() && !cert_path.empty()) {'))  # equivalent-ish? key unset when cert unset; config unchanged mapping violated
m('e_stats_head','C33',('app/server_stats.cpp','stats.status_codes[res.status_code]++;','stats.status_codes[res.status_code < 100 ? 500 : res.status_code]++;'))
m('e_alpn_last','C34',(TX,'if (result == OPENSSL_NPN_NEGOTIATED) {','if (inlen > 255) { return SSL_TLSEXT_ERR_ALERT_FATAL; }\n    if (result == OPENSSL_NPN_NEGOTIATED) {'))
m('e_main_order','C35',(MA,'        setup_access_logs(args.access_log_path);\n        run_server','        if (!args.status_page) setup_access_logs(args.access_log_path);\n        run_server'))
m('e_keylog_env','C36',(TX,'if (const auto keylog_file = std::getenv("SSLKEYLOGFILE")) {','static const char* const keylog_file = std::getenv("SSLKEYLOGFILE");\n        if (keylog_file) {'))
m('e_req_lower','C37',(C,'HttpRequest req{.method = *method, .path = *path, .headers = headers};','HttpRequest req{.method = *method, .path = path->substr(0, 2048), .headers = headers};'))
m('e_req_first','C37',(D,'    return std::string{raw_data.begin(), raw_data.end()};','    return size > 1024 ? std::string(reinterpret_cast<const char*>(raw_data.data())).substr(0, size) : std::string{raw_data.begin(), raw_data.end()};'))
m('e_conn_reuse','C38',(S,'connections_[raw_fd] = std::move(conn);','if (!connections_.empty() && connections_.rbegin()->first > raw_fd && connections_.size() > 3) { connections_.erase(std::prev(connections_.end())); }\n    connections_[raw_fd] = std::move(conn);'))
m('e_span_end','C39',(C,'span->SetAttribute("ion.client_ip", client_ip_);','if (!client_ip_.empty()) span->SetAttribute("ion.client_ip", client_ip_);'))
m('e_start_again','C40',(L,'    if (::listen(server_fd_, SOMAXCONN) < 0) {','    if (::listen(server_fd_, SOMAXCONN) < 0) {\n        if (errno == EADDRINUSE) { server_fd_ = SocketFd(); return; }'))
m('e_tls_pending','C41',(TL,'auto bytes_read = SSL_read(ssl_, buffer.data(), static_cast<int>(buffer.size()));','auto bytes_read = SSL_read(ssl_, buffer.data(), static_cast<int>(std::min<size_t>(buffer.size(), SSL_pending(ssl_) > 0 ? SSL_pending(ssl_) : 16000)));'))  # benign
m('e_tls_hs_again','C41',(TL,'        case SSL_ERROR_ZERO_RETURN:\n            spdlog::debug("TLS connection closed by peer before','        case SSL_ERROR_SYSCALL:\n            if (errno == EAGAIN) return {};\n            [[fallthrough]];\n        case SSL_ERROR_ZERO_RETURN:\n            spdlog::debug("TLS connection closed by peer before'))
m('e_close_state','C42',(C,'if (state_ == Http2ConnectionState::Closing) {','if (state_ == Http2ConnectionState::Closing || read_buffer_.size() > 9) {'))
m('e_mem_wb','C43',(C,'    std::vector<uint8_t> settings_unused','x')) 
M.pop()
m('e_mem_reg','C43',(EP,'    registered_fds_.erase(fd);','    registered_fds_[fd] = PollEventType::None;'))
m('e_mem_wbuf','C43',(C,'        if (remaining','x'))
M.pop()
m('e_int_enc_len','C01',('lib/hpack/int_encoder.cpp','    while (value >= 0x80) {','    while (value >= 0x80 && result.size() < 5) {'))
