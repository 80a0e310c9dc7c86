M=[]
def m(id,prop,*edits): M.append((id,prop,edits))
C='lib/http2_conn.cpp'; CH='lib/http2_conn.h'; D='lib/hpack/header_block_decoder.cpp'; E='lib/hpack/header_block_encoder.cpp'; T='lib/hpack/dynamic_table.cpp'
S='lib/http2_server.cpp'; SHH='lib/http2_server.h'; L='lib/tcp_listener.cpp'; H='lib/hpack/huffman_tree.cpp'; TL='lib/transports/tls_transport.cpp'; TC='lib/transports/tcp_transport.cpp'
F='lib/file_reader.cpp'; SF='lib/static_file_handler.cpp'; R='lib/router.cpp'; FR='lib/http2_frame_reader.h'; FS='lib/http2_frames.h'
EP='lib/pollers/epoll_poller.cpp'; PP='lib/pollers/poll_poller.cpp'; AL='lib/access_log.cpp'; MA='app/main.cpp'; SH='app/signal_handler.cpp'; TX='lib/transports/tls_context.cpp'
IE='lib/hpack/int_encoder.cpp'; ID='lib/hpack/int_decoder.cpp'; BW='lib/hpack/bit_writer.h'; BR='lib/hpack/byte_reader.cpp'; ST='app/server_stats.cpp'; SP='app/status_page.cpp'; AR='app/args.cpp'; TE='app/telemetry.cpp'
m('g_ie_last','C01',(IE,'    while (value >= 0x80) {','    while (value > 0x80) {'))
m('g_id_shift28','C02',(ID,'if (value > (std::numeric_limits<uint32_t>::max() - sum) >> shift) {','if (shift < 28 ? false : value > 15) {'))
m('g_bw_rst','C03',(BW,'        if (bits_in_current_ > 0) {','        if (bits_in_current_ > 0 && (current_byte_ != 0 || bits_in_current_ > 5 || buffer_.empty())) {'))
m('g_huff_pend','C04',(H,'pending_all_ones = pending_all_ones && bit;','pending_all_ones = (pending_bits > 5 && result.size() > 2) ? bit : pending_all_ones && bit;'))
m('g_huff_pend7','C04',(H,'if (pending_bits > 7 || !pending_all_ones)','if (pending_bits > 7 + (data.size() > 30 ? 1u : 0u) || !pending_all_ones)'))
m('g_dec_ref','C05',(D,'                    dynamic_table_.insert(hdr.value());\n','                    if (!hdr->name.empty() || !hdr->value.empty()) { dynamic_table_.insert(hdr.value()); }\n'))
m('g_dec_upd_mid','C05',(D,'                if (auto res = decode_dynamic_table_size_update(reader); !res) {','                if (hdrs.size() > 2 && first_byte == 0x20) { reader.read_byte(); break; }\n                if (auto res = decode_dynamic_table_size_update(reader); !res) {'))
m('g_dec_name_copy','C05',(D,'    auto name = dynamic_table_.get(dynamic_index).name;','    auto name = dynamic_table_.get(dynamic_index).name;\n    if (name.starts_with(":")) { return std::unexpected(FrameError::ProtocolError); }'))
m('g_enc_find','C06',(E,'        if (auto dyn_table_index = dynamic_table_.find(hdr)) {','        if (auto dyn_table_index = dynamic_table_.find(hdr); dyn_table_index && *dyn_table_index != 65) {'))  # benign: literal
m('g_enc_set_cookie','C06',(E,'            write_index(bytes, index, 6, 0x40);\n\n            // encode string\n            const auto len_and_str_bytes = write_length_and_string(hdr.value);\n            bytes.insert(bytes.end(), len_and_str_bytes.begin(), len_and_str_bytes.end());\n\n            // insert into dynamic table\n            dynamic_table_.insert(hdr);\n            continue;\n        }\n\n        // is dynamic','            const bool secret = hdr.name == "set-cookie" || hdr.name == "authorization";\n            write_index(bytes, index, secret ? 4 : 6, secret ? 0x10 : 0x40);\n\n            // encode string\n            const auto len_and_str_bytes = write_length_and_string(hdr.value);\n            bytes.insert(bytes.end(), len_and_str_bytes.begin(), len_and_str_bytes.end());\n\n            // insert into dynamic table\n            dynamic_table_.insert(hdr);\n            continue;\n        }\n\n        // is dynamic'))
m('g_tbl_evict_eq','C07',(T,'    while (table_size_ > max_table_size_) {\n        assert','    while (table_size_ > max_table_size_ && table_.size() > 1) {\n        assert'))
m('g_lim_name','C08',(D,'    const uint32_t str_size = *length_res;','    const uint32_t str_size = *length_res;\n    if (is_huffman && str_size > 4096) { return std::unexpected(FrameError::ProtocolError); }'))
m('g_lim_huff','C08',(D,'    if (!string_length_within_limit(bytes_res->size())) {','    if (!string_length_within_limit(size)) {'))
m('g_win_res','C09',(FS,'& 0x7FFFFFFF','& 0x7FFFFFFE | (load_uint32_be(data.subspan<5, 4>()) & 1 & ~(data[4] >> 7))') )
m('g_goaway_dbg','C16',(C,'            update_state(Http2ConnectionState::ClientClosed);\n            break;\n        }\n        default','            if (frame.length() < 8) { update_state(Http2ConnectionState::ProtocolError); break; }\n            update_state(Http2ConnectionState::ClientClosed);\n            break;\n        }\n        default'))  # benign
m('g_fill_once','C12',(C,'        read_buffer_.insert(read_buffer_.end(), buffer.begin(), buffer.begin() + bytes_read);','        read_buffer_.insert(read_buffer_.end(), buffer.begin(), buffer.begin() + bytes_read);\n        if (bytes_read == 9) { return; }'))
m('g_fill_eof','C11',(C,'read_buffer_.size() + TEMP_READ_BUFFER_SIZE >= MAX_READ_BUFFER_SIZE','read_buffer_.size() + TEMP_READ_BUFFER_SIZE > MAX_READ_BUFFER_SIZE + 1'))
m('g_preface_one','C13',(C,'    if (received != CLIENT_PREFACE) {','    if (received.substr(0, 18) != CLIENT_PREFACE.substr(0, 18) || received.substr(20) != CLIENT_PREFACE.substr(20)) {'))
m('g_settings_mfs','C13',(C,'{0x0005, MAX_FRAME_SIZE}};','{0x0005, MAX_FRAME_SIZE + 1}};'))
m('g_ack_empty','C14',(C,'                write_settings_ack();\n','                if (!(settings->empty() && frame.flags() != 0)) { write_settings_ack(); }\n'))
m('g_body_last','C15',(C,'.flags = remaining_bytes == 0 ? FLAG_END_STREAM','.flags = remaining_bytes == 0 && start % 65536 != 65024 ? FLAG_END_STREAM'))
m('g_cl_dup','C15',(C,'    if (!resp.body.empty()) {\n        resp.headers.push','    if (!resp.body.empty() && resp.status_code != 206) {\n        resp.headers.push'))
m('g_viol_goaway','C16',(C,'                close();\n                return Http2ProcessResult::DiscardConnection;','                close();\n                if (!read_buffer_.empty() && read_buffer_.size() > 300) { update_state(Http2ConnectionState::AwaitingFrame); continue; }\n                return Http2ProcessResult::DiscardConnection;'))
m('g_out_cap','C17',(C,'    write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + *result);','    write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + *result);\n    if (write_buffer_.size() < write_buffer_.capacity() / 8 && *result > 60000) { std::vector<uint8_t> v(write_buffer_.begin(), write_buffer_.end()); v.resize(v.size() & ~size_t{7}); write_buffer_.swap(v); }'))
m('g_500_move','C18',(C,'        spdlog::error("error processing request: {}", e.what());\n        resp = HttpResponse{.status_code = 500};','        spdlog::error("error processing request: {}", e.what());\n        if (dynamic_cast<const std::bad_alloc*>(&e)) { throw; }\n        resp = HttpResponse{.status_code = 500};'))
m('g_400_empty','C18',(C,'    if (!path || !method) {','    if (!path || !method || path->find(\' \') != std::string::npos) {'))
m('g_idle_part','C19',(C,'    update_last_activity();\n    spdlog::trace("flushed','    if (static_cast<size_t>(*result) == write_buffer_.size() || *result > 1024) { update_last_activity(); }\n    spdlog::trace("flushed'))
m('g_cap_reject','C20',(S,'        if (const auto overflow = listener.try_accept()) {','        while (const auto overflow = listener.try_accept()) {'))  # benign?
m('g_hup_order','C20',(S,'        connections_.erase(it);\n        poller.remove(fd);\n        return;','        connections_.erase(it);\n        if (has_event(poll_events, PollEventType::Error)) { poller.remove(fd); }\n        return;'))
m('g_acc_aborted','C21',(L,'        case EINVAL:\n','        case EINVAL:\n        case EPERM:\n'))
m('g_stop_events','C22',(S,'        for (auto& [fd, poll_events] : *events) {','        if (user_req_termination_ && events->empty()) { user_req_termination_ = 0; }\n        for (auto& [fd, poll_events] : *events) {'))  # benign?
m('g_sigpipe','C22',(SH,'    if (write(STDERR_FILENO, &dummy, 0) < 0 && errno == EPIPE) {','    if (errno == EPIPE || (write(STDERR_FILENO, &dummy, 0) < 0 && errno == EPIPE)) {'))
m('g_tcp_rd_zero','C24',(TC,'    if (bytes_read == 0) {','    if (bytes_read == 0 && errno != EAGAIN) {'))
m('g_tls_rd_zero','C25',(TL,'    if (bytes_read <= 0) {','    if (bytes_read < 0) {'))
m('g_tls_mv','C26',(TL,'    ssl_ = std::exchange(other.ssl_, nullptr);\n    return *this;','    ssl_ = other.ssl_;\n    if (client_fd_ >= 0) { other.ssl_ = nullptr; }\n    return *this;'))
m('g_san_case','C27',(F,'        if (base_it != base.end()) {','        if (base_it != base.end() && full_it != full.end()) {'))
m('g_mime_q','C28',(F,'    auto pos = path.find_last_of(\'.\');','    auto pos = path.find_first_of(\'.\', path.find_last_of(\'/\') == std::string::npos ? 0 : path.find_last_of(\'/\'));'))
m('g_readable_sz','C28',(F,'    if (!S_ISREG(st.st_mode)) {','    if (!S_ISREG(st.st_mode) || st.st_size == 0) {'))
m('g_route_head','C29',(R,'    if (!found) {','    if (!found || (method == "HEAD" && routes_.size() > 3)) {'))
m('g_static_first','C29',(R,'                if (handler->matches(path)) {','                if (!path.empty() && path.back() != \'/\' && handler->matches(path)) {'))
m('g_mw_copy','C30',(R,'    auto current_chain = middleware_chain_;\n    middleware_chain_ = [current_chain, mw](RouteHandler h) {\n        return current_chain(mw(std::move(h)));','    auto current_chain = middleware_chain_;\n    middleware_chain_ = [current_chain, mw, late = !routes_.empty() && static_handlers_.size() > 1](RouteHandler h) {\n        return late ? mw(current_chain(std::move(h))) : current_chain(mw(std::move(h)));'))
m('g_log_dup','C31',(AL,'        if (name == "user-agent") {','        if (name == "user-agent" && !value.empty()) {'))
m('g_log_7f','C31',(AL,'byte < 0x20 || byte == 0x7f','byte < 0x20'))
m('g_cfg_one','C32',(AR,'    if (!key_path.empty()) {','    if (!key_path.empty() && !cert_path.empty()) {'))
m('g_stat_1xx','C33',(ST,'            stats.status_codes[res.status_code]++;','            stats.status_codes[res.status_code == 0 ? 200 : res.status_code]++;'))
m('g_alpn_len','C34',(TX,'    *outlen = supported_protos[0];','    *outlen = inlen > 255 ? 3 : supported_protos[0];'))
m('g_404_head','C35',(MA,'                if (res.status_code == 404) {','                if (res.status_code == 404 && req.path.find("/_ion") != 0) {'))
m('g_static_dot','C35',(MA,'    if (args.static_map.size() == 2) {','    if (args.static_map.size() == 2 && !args.under_test) {'))
m('g_keylog_trunc','C36',(TX,'                file << line << \'\\n\';','                file << line;\n                if (std::string_view(line).size() < 256) { file << \'\\n\'; }'))
m('g_req_dedupe','C37',(C,'    HttpRequest req{.method = *method, .path = *path, .headers = headers};','    HttpRequest req{.method = *method, .path = *path, .headers = headers};\n    for (size_t i = 1; i < req.headers.size(); ++i) { if (req.headers[i].name == req.headers[i - 1].name && req.headers[i].value == req.headers[i - 1].value && req.headers[i].name == "cookie") { req.headers.erase(req.headers.begin() + static_cast<long>(i)); break; } }'))
m('g_enc_static','C38',(E,'    std::vector<uint8_t> bytes{};\n    for (auto& hdr : headers) {','    static std::vector<uint8_t> bytes;\n    bytes.clear();\n    for (auto& hdr : headers) {'))  # benign
m('g_span_end','C39',(C,'    span->SetAttribute("ion.client_ip", client_ip_);','    if (!client_ip_.empty() && client_ip_ != "127.0.0.1") { span->SetAttribute("ion.client_ip", client_ip_); }'))
m('g_listen_big','C40',(L,'    set_reusable_addr();\n','    try { set_reusable_addr(); } catch (const std::system_error& e) { if (e.code().value() != ENOPROTOOPT) { throw; } }\n'))
m('g_tls_hs_write','C41',(TL,'        case SSL_ERROR_WANT_READ:\n        case SSL_ERROR_WANT_WRITE: {','        case SSL_ERROR_WANT_WRITE:\n            return std::unexpected(TransportError::ProtocolError);\n        case SSL_ERROR_WANT_READ: {'))
m('g_close_hs','C42',(C,'    if (state_ == Http2ConnectionState::Closing) {','    if (state_ == Http2ConnectionState::Closing || state_ == Http2ConnectionState::AwaitingHandshake) {'))
m('g_close_twice','C42',(C,'                transport_->graceful_shutdown();\n                update_state','                transport_->graceful_shutdown();\n                if (!read_buffer_.empty()) { transport_->graceful_shutdown(); }\n                update_state'))
m('g_mem_buf','C43',(C,'    const auto bytes_read = *bytes_read_res;','    const auto bytes_read = *bytes_read_res;') if False else (C,'    read_buffer_.erase(read_buffer_.begin(), read_buffer_.begin() + length);','    read_buffer_.erase(read_buffer_.begin(), read_buffer_.begin() + length);\n    if (length > 4000) { read_buffer_.reserve(read_buffer_.capacity() + 64); }'))
