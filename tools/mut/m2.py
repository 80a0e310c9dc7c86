M=[]
def m(id,prop,*edits): M.append((id,prop,edits))
C='lib/http2_conn.cpp'; D='lib/hpack/header_block_decoder.cpp'; E='lib/hpack/header_block_encoder.cpp'; T='lib/hpack/dynamic_table.cpp'
S='lib/http2_server.cpp'; L='lib/tcp_listener.cpp'; H='lib/hpack/huffman_tree.cpp'; TL='lib/transports/tls_transport.cpp'; TC='lib/transports/tcp_transport.cpp'
F='lib/file_reader.cpp'; SF='lib/static_file_handler.cpp'; R='lib/router.cpp'; FR='lib/http2_frame_reader.h'; FS='lib/http2_frames.h'
EP='lib/pollers/epoll_poller.cpp'; PP='lib/pollers/poll_poller.cpp'; AL='lib/access_log.cpp'; MA='app/main.cpp'; SH='app/signal_handler.cpp'
m('b_int_signed','C01',('lib/hpack/int_encoder.cpp','value < (1 << prefix_bits) - 1','static_cast<int32_t>(value) < (1 << prefix_bits) - 1'))
m('b_int_64','C02',('lib/hpack/int_decoder.cpp','if (shift > 28) {','if (shift > 21 && prefix_bits == 5) {'))
m('b_str_127','C03',(E,'bytes.push_back(0x80 | encoded_length[0]);','bytes.push_back(0x80 | encoded_length[0]); if (bitstream.size() == 127) encoded_length.resize(1);'))
m('b_bw_mask','C03',('lib/hpack/bit_writer.h','for (int i = bit_count - 1; i >= 0; --i) {','if (bit_count > 28 && bits_in_current_ == 7) value &= 0x3ffffffe;\n        for (int i = bit_count - 1; i >= 0; --i) {'))
m('b_huff_pad_mid','C04',(H,'pending_all_ones = pending_all_ones && bit;','pending_all_ones = bit;'))
m('b_huff_empty','C04',(H,'if (pending_bits > 7 || !pending_all_ones) {','if (pending_bits > 7 || (!pending_all_ones && !result.empty())) {'))
m('b_dec_upd_big','C05',(D,'dynamic_table_.set_max_table_size(*new_sz);','dynamic_table_.set_max_table_size(static_cast<uint16_t>(*new_sz));'))
m('b_dec_dup','C05',(D,'dynamic_table_.insert(hdr.value());\n','if (dynamic_table_.find(hdr.value()) != std::optional<size_t>{0}) dynamic_table_.insert(hdr.value());\n'))
m('b_enc_case','C06',(T,'return header.name == hdr.name && header.value == hdr.value;','return header.name == hdr.name && std::string_view(header.value.c_str()) == hdr.value.c_str();'))
m('b_enc_big','C06',(T,'return header.name.size() + header.value.size() + 32;','return header.name.size() + static_cast<uint16_t>(header.value.size()) + 32;'))
m('b_tbl_evict_one','C07',(T,'''    while (table_size_ + entry_size > max_table_size_) {
        table_size_''','''    while (table_size_ + entry_size > max_table_size_ && !table_.empty()) {
        if (table_.size() == 1 && table_.back().value.empty()) { table_.clear(); break; }
        table_size_'''))
m('b_tbl_clear','C07',(T,'''        table_.clear();
        table_size_ = 0;
        return;''','''        if (max_table_size_ == 0) return;
        table_.clear();
        table_size_ = 0;
        return;'''))  # equivalent: table empty at max 0
m('b_lim_name','C08',(D,'''    if (!string_length_within_limit(size)) {
        return std::unexpected{FrameError::ProtocolError};
    }
    auto raw_data''','''    if (data.size() > 0 && data[0] != 0 && !string_length_within_limit(size)) {
        return std::unexpected{FrameError::ProtocolError};
    }
    auto raw_data'''))
m('b_fr_settings_parse','C09',('lib/http2_frame_reader.cpp','settings.reserve(num_settings);','settings.reserve(num_settings);\n    if (num_settings > 256) { return settings; }'))
m('b_fr_len','C09',(FS,'store_uint24_be(length, data.subspan<0, 3>());','store_uint24_be(length & 0x7fffff, data.subspan<0, 3>());'))
m('b_pad_zero','C10',(FR,'return payload_.size() >= headers_prefix_size() + padding_size();','return payload_.size() >= headers_prefix_size() + static_cast<uint8_t>(padding_size() + (priority() ? 5 : 0)) - (priority() ? 5 : 0);'))
m('b_goaway_short','C10',(C,'''            spdlog::debug("received GOAWAY frame (stream {})", frame.stream_id());''','''            if (frame.length() < 8) break;'''))
m('b_read_loop','C11',(C,'if (read_buffer_.size() + TEMP_READ_BUFFER_SIZE >= MAX_READ_BUFFER_SIZE) {','if (read_buffer_.size() >= MAX_READ_BUFFER_SIZE) {'))
m('b_short_read','C12',(C,'''        spdlog::trace("read {} bytes, buffer size now {}", bytes_read, read_buffer_.size());''','''        if (bytes_read < static_cast<ssize_t>(buffer.size())) return;'''))
m('b_preface_split','C13',(C,'''    if (read_buffer_.size() < CLIENT_PREFACE.length()) {''','''    if (!CLIENT_PREFACE.starts_with(std::string_view(reinterpret_cast<const char*>(read_buffer_.data()), std::min<size_t>(read_buffer_.size(), 3)))) {
        write_goaway(0, ErrorCode::protocol_error);
        flush_write_buffer();
        return ReadPrefaceResult::ProtocolError;
    }
    if (read_buffer_.size() < CLIENT_PREFACE.length()) {'''))
m('b_ack_first','C14',(C,'''                write_settings_ack();
            }''','''                if (settings->size() < 2730) write_settings_ack();
            }'''))
m('b_body_chunk','C15',(C,'size_t chunk_size = std::min(remaining_bytes, MAX_FRAME_SIZE - 128);','size_t chunk_size = std::min(remaining_bytes, body.size() > 65536 ? MAX_FRAME_SIZE + 1 : MAX_FRAME_SIZE);'))
m('b_cl_dup','C15',(C,'resp.headers.push_back({"content-length", std::to_string(resp.body.size())});','if (!get_header(resp.headers, "content-length")) resp.headers.push_back({"content-length", std::to_string(resp.body.size())});'))
m('b_dec_fail_continue','C16',(C,'''            if (!hdrs) {
                update_state(Http2ConnectionState::ProtocolError);
                return;''','''            if (!hdrs) {
                if (frame.length() != 0 && frame.is_end_headers()) update_state(Http2ConnectionState::ProtocolError);
                return;'''))
m('b_err_then_frame','C16',(C,'''            case Http2ConnectionState::ProtocolError: {
                spdlog::error("protocol error. closing connection");''','''            case Http2ConnectionState::ProtocolError: {
                if (try_read_frame() && !write_buffer_.empty()) continue;
                spdlog::error("protocol error. closing connection");'''))
m('b_write_cap','C17',(C,'auto result = transport_->write(write_buffer_);','auto result = transport_->write(std::span<const uint8_t>(write_buffer_.data(), std::min<size_t>(write_buffer_.size(), 65536)));'))
m('b_close_read','C17',(C,'''    if (!result) {
        if (result.error() == TransportError::WantReadOrWrite) {''','''    if (!result) {
        if (result.error() == TransportError::WantReadOrWrite && write_buffer_.size() > 1048576) { write_buffer_.clear(); return; }
        if (result.error() == TransportError::WantReadOrWrite) {'''))
m('b_get_header_last','C18',(C,'''    if (!path || !method) {''','''    if (!path || path->empty() || !method) {'''))
m('b_timeout_write','C19',(C,'''    update_last_activity();
    spdlog::trace("flushed''','''    if (*result == static_cast<ssize_t>(write_buffer_.size())) update_last_activity();
    spdlog::trace("flushed'''))
m('b_timeout_read0','C19',(C,'''        if (!bytes_read_res) {
            switch''','''        if (!bytes_read_res) {
            if (!read_buffer_.empty()) update_last_activity();
            switch'''))
m('b_cap_tls','C20',(S,'''        spdlog::error("dropping client: {}", e.what());
        return;''','''        spdlog::error("dropping client: {}", e.what());
        connections_[raw_fd] = nullptr;
        connections_.erase(raw_fd);
        poller.set(raw_fd, PollEventType::Read);
        return;'''))
m('b_hup_data','C20',(S,'''        connections_.erase(it);
        poller.remove(fd);
        return;
    }

    if (!has''','''        connections_.erase(it);
        if (has_event(poll_events, PollEventType::Error)) poller.remove(fd);
        return;
    }

    if (!has'''))
m('b_acc_nodelay','C21',(L,'spdlog::warn("failed to set TCP_NODELAY on client fd: {}", strerror(errno));','if (errno != EINVAL) throw std::system_error(errno, std::system_category(), "nodelay");'))
m('b_peername','C21',(S,'client_ip_res.value_or("")','(client_ip_res ? client_ip_res.value() : client_ip_res.error() == ClientIpError::UnknownIpFormat ? std::string("") : client_ip_res.value())'))
m('b_stop_events','C22',(S,'''    user_req_termination_ = 1;''','''    if (connections_.empty() || reason == StopReason::Signal) user_req_termination_ = 1;'''))
m('b_stop_start','C22',(S,'''    while (!user_req_termination_) {''','''    user_req_termination_ = 0;
    while (!user_req_termination_) {'''))
m('b_ep_none','C23',(EP,'''    registered_fds_[fd] = event_types;
    return true;''','''    if (op == EPOLL_CTL_ADD) registered_fds_[fd] = event_types;
    else registered_fds_.insert_or_assign(fd, event_types);
    if (event_types == PollEventType::None) registered_fds_.erase(fd);
    return true;'''))
m('b_ep_rm','C23',(EP,'''        spdlog::warn("epoll_ctl: DEL failed (fd: {}): {}", fd, strerror(errno));
    }
    registered''','''        spdlog::warn("epoll_ctl: DEL failed (fd: {}): {}", fd, strerror(errno));
        if (errno == EBADF) return;
    }
    registered'''))
m('b_tcp_read_len','C24',(TC,'::read(client_fd_, buffer.data(), buffer.size());','::read(client_fd_, buffer.data(), std::min<size_t>(buffer.size(), 16384));'))
m('b_tcp_w0','C24',(TC,'''    spdlog::trace("successfully wrote {} bytes to TCP socket", bytes_written);''','''    if (bytes_written == 0) return std::unexpected(TransportError::WantReadOrWrite);'''))
m('b_tls_clear','C25',(TL,'''    ERR_clear_error();
    const auto bytes_written''','''    if (buffer.size() > 1) ERR_clear_error();
    const auto bytes_written'''))
m('b_tls_partial','C25',(TL,'if (bytes_written != static_cast<int>(buffer.size())) {','if (bytes_written < static_cast<int>(buffer.size()) / 2) {'))
m('b_tls_hs_eof','C25',(TL,'if (ERR_GET_REASON(err) == SSL_R_UNEXPECTED_EOF_WHILE_READING) {','if (ERR_GET_REASON(err) != SSL_R_UNEXPECTED_EOF_WHILE_READING) {'))
m('b_tls_self','C26',(TL,'''    if (this == &other) {
        return *this;
    }
    if (ssl_) {''','''    if (ssl_ && ssl_ != other.ssl_) {'''))  # self-move then client_fd_ move: self ok; ssl_ exchange self -> ok? ssl_=exchange(ssl_,nullptr) keeps
m('b_ctx_dtor','C26',('lib/transports/tls_context.cpp','''        SSL_CTX_free(ctx_);
        throw std::runtime_error("private key does not match certificate");''','''        throw std::runtime_error("private key does not match certificate");'''))
m('b_san_once','C27',(F,'auto full = fs::weakly_canonical(fs::weakly_canonical(combined));','auto full = requested_path.find("..") == std::string::npos ? fs::weakly_canonical(combined) : fs::weakly_canonical(fs::weakly_canonical(combined));'))
m('b_san_abs','C27',(F,'fs::path combined = requested.is_absolute() ? requested : (base / requested);','fs::path combined = base / requested;'))
m('b_san_trail','C27',(F,'''        return full.string();''','''        return combined.lexically_normal().string();'''))
m('b_file_dir','C28',(F,'''    if (!S_ISREG(st.st_mode)) {''','''    if (S_ISDIR(st.st_mode)) {'''))
m('b_head_403','C28',(SF,'return head_request ? head_response(path, mime_type) : get_response(path, mime_type);','return head_request && mime_type != "image/svg+xml" ? head_response(path, mime_type) : get_response(path, mime_type);'))
m('b_index_q','C28',(SF,'if (rel_path.empty() || rel_path == "/") {','if (rel_path.empty() || rel_path.back() == \'/\') {'))
m('b_route_ref','C29',(R,'target = [static_handler = handler.get(), path,','target = [static_handler = handler.get(), &path,'))
m('b_route_static_first','C29',(R,'if (route.path == path && route.method == method) {','if ((route.path == path || (route.path.size() > 1 && route.path + "/" == path)) && route.method == method) {'))
m('b_mw_404','C30',(R,'return middleware_chain_(std::move(target));','return found || !routes_.empty() || !static_handlers_.empty() ? middleware_chain_(std::move(target)) : target;'))
m('b_mw_dup','C30',(R,'''        return current_chain(mw(std::move(h)));
    };''','''        return current_chain(mw(std::move(h)));
    };
    if (routes_.size() == 3) middleware_chain_ = current_chain;'''))
m('b_log_del','C31',(AL,'byte < 0x20 || byte == 0x7f','byte < 0x20'))
m('b_log_two','C31',(AL,'''        if (name == "user-agent") {
            user_agent = escape(value);''','''        if (name == "user-agent") {
            user_agent = value.size() > 2048 ? value : escape(value);'''))
m('b_log_nodash','C31',(AL,'(client_ip.empty() ? "-" : client_ip)','(client_ip.size() < 7 ? "-" : client_ip)'))
m('b_cfg_only','C32',('app/args.cpp','    if (!key_path.empty()) {\n        config.key_path = key_path;','    if (!key_path.empty() || !cert_path.empty()) {\n        config.key_path = key_path;'))
m('b_cfg_ct','C32',('lib/server_config.cpp','if (!cleartext) {','if (!cleartext || cert_path) {'))
m('b_stats_code','C33',('app/server_stats.cpp','stats.status_codes[res.status_code]++;','stats.status_codes[res.status_code == 304 ? 200 : res.status_code]++;'))
m('b_stats_count','C33',('app/server_stats.cpp','stats.total_requests++;','if (req.path != "/_ion/status" || stats.total_requests > 0) stats.total_requests++;'))
m('b_alpn_len','C34',('lib/transports/tls_context.cpp','const int result =','if (inlen > 255) return SSL_TLSEXT_ERR_ALERT_FATAL;\n    const int result ='))
m('b_privs_order','C35',(MA,'''        enable_no_new_privs_on_linux();
        setup_access_logs(args.access_log_path);''','''        setup_access_logs(args.access_log_path);
        if (args.access_log_path.empty() || spdlog::get(ion::AccessLog::ACCESS_LOGGER_NAME)) enable_no_new_privs_on_linux();'''))
m('b_404_route','C35',(MA,'if (res.status_code == 404) {','if (res.status_code == 404 && res.body.empty()) {'))
m('b_keylog_env','C36',('lib/transports/tls_context.cpp','if (const auto keylog_file = std::getenv("SSLKEYLOGFILE")) {','static const auto keylog_file = std::getenv("SSLKEYLOGFILE"); if (keylog_file) {'))
m('b_keylog_default','C36',('lib/transports/tls_context.cpp','if (const auto keylog_file = std::getenv("SSLKEYLOGFILE")) {','auto keylog_file = std::getenv("SSLKEYLOGFILE"); if (!keylog_file) keylog_file = std::getenv("KEYLOG"); if (keylog_file) {'))
m('b_req_dup','C37',(C,'HttpRequest req{.method = *method, .path = *path, .headers = headers};','''HttpRequest req{.method = *method, .path = *path, .headers = headers};
    if (req.headers.size() > 64) req.headers.resize(64);'''))
m('b_req_last','C37',(C,'''    const auto it = std::find_if(headers.begin(), headers.end(),
                                 [name](const HttpHeader& hdr) { return hdr.name == name; });''','''    const auto it = std::find_if(headers.begin(), headers.end(),
                                 [name](const HttpHeader& hdr) { return hdr.name == name && !hdr.value.empty(); });'''))
m('b_conn_static','C38',(C,'''    auto ending_stream''','''    auto ending_stream''') if 0 else (C,'''            auto resp = process_request(*hdrs, span);''','''            static size_t served = 0;
            auto resp = process_request(*hdrs, span);
            if (++served > 8 && resp.status_code == 404) resp.headers.push_back({"connection", "close"});'''))
m('b_conn_err','C38',(S,'''        case Http2ProcessResult::DiscardConnection:
            spdlog::info("closing connection");
            poller.remove(fd);
            connections_.erase(it);''','''        case Http2ProcessResult::DiscardConnection:
            spdlog::info("closing connection");
            poller.remove(fd);
            if (connections_.upper_bound(fd) != connections_.end() && connections_.size() > 2) it = connections_.upper_bound(fd);
            connections_.erase(it);'''))
m('b_span_ip','C39',(C,'span->SetAttribute("ion.client_ip", client_ip_);','if (method != "HEAD") span->SetAttribute("ion.client_ip", client_ip_);'))
m('b_span_scope','C39',(C,'''            if (!hdrs) {
                update_state''','''            if (!hdrs) {
                span->SetAttribute("http.status_code", 400);
                update_state'''))
m('b_reuse_throw','C40',(L,'SO_REUSEADDR, &ENABLE_OPT, sizeof(ENABLE_OPT))) {','SO_REUSEADDR, &ENABLE_OPT, sizeof(ENABLE_OPT)) && errno != ENOPROTOOPT) {'))
m('b_sock0','C40',(L,'if (server_fd < 0) {','if (server_fd <= 0) {'))
m('b_nonblock','C40',(L,'''    if (fcntl(socket_fd, F_SETFL, flags | O_NONBLOCK) == -1) {''','''    if (fcntl(socket_fd, F_SETFL, flags | O_NONBLOCK) == -1 && flags == 0) {'''))
