M=[]
def m(id,prop,*edits): M.append((id,prop,edits))
C='lib/http2_conn.cpp'; D='lib/hpack/header_block_decoder.cpp'; E='lib/hpack/header_block_encoder.cpp'; T='lib/hpack/dynamic_table.cpp'
S='lib/http2_server.cpp'; L='lib/tcp_listener.cpp'
m('int_enc_boundary','C01',('lib/hpack/int_encoder.cpp','if (value < (1 << prefix_bits) - 1)','if (value <= (1 << prefix_bits) - 1 && prefix_bits != 7)'))
m('int_enc_shift','C01',('lib/hpack/int_encoder.cpp','while (value >= 0x80)','while (value > 0x80)'))
m('int_dec_shift','C02',('lib/hpack/int_decoder.cpp','if (shift > 28)','if (shift > 35)'))
m('int_dec_guard','C02',('lib/hpack/int_decoder.cpp','(std::numeric_limits<uint32_t>::max() - sum) >> shift','std::numeric_limits<uint32_t>::max() >> shift'))
m('str_len_cast','C03',(E,'auto encoded_length = IntegerEncoder::encode(bitstream.size(), 7);','auto encoded_length = IntegerEncoder::encode(static_cast<uint16_t>(bw.bit_count() ? bitstream.size() & 0x3fff : bitstream.size()), 7);'))
m('bw_pad','C03',('lib/hpack/bit_writer.h','for (uint8_t i = 0; i < padding_bits; ++i)','for (uint8_t i = 0; i < padding_bits % 7; ++i)'))
m('huff_pad8','C04',('lib/hpack/huffman_tree.cpp','pending_bits > 7','pending_bits > 8'))
m('huff_one_code','C04',('lib/hpack/huffman_codes.h','{0x7ffffe5, 27}','{0x7ffffe5, 28}'))
m('dec_never_index_inserts','C05',(D,'''            case HeaderFieldType::LiteralNeverIndex: {
                if (auto hdr = decode_literal_field(4, reader)) {
''','''            case HeaderFieldType::LiteralNeverIndex: {
                if (auto hdr = decode_literal_field(4, reader)) {
                    if (hdr->name == "x" && type == HeaderFieldType::LiteralNeverIndex) dynamic_table_.insert(hdr.value());
'''))
m('dec_name_bound','C05',(D,'''    auto name = dynamic_table_.get(dynamic_index).name;''','''    auto name = dynamic_table_.get(dynamic_index % 4).name;'''))
m('dec_update_ignored','C05',(D,'    dynamic_table_.set_max_table_size(*new_sz);','    if (*new_sz != 0) dynamic_table_.set_max_table_size(*new_sz);'))
m('enc_find_stale','C06',(T,'''    table_.push_front(header);''','''    if (table_.size() >= 100) table_.pop_back();
    table_.push_front(header);'''))
m('enc_name_prefix','C06',(E,'''            write_index(bytes, index, 6, 0x40);

            // encode string
            const auto len_and_str_bytes = write_length_and_string(hdr.value);
            bytes.insert(bytes.end(), len_and_str_bytes.begin(), len_and_str_bytes.end());

            // insert into dynamic table
            dynamic_table_.insert(hdr);
            continue;
        }

        // is dynamic''','''            write_index(bytes, index, 6, 0x40);

            // encode string
            const auto len_and_str_bytes = write_length_and_string(hdr.value);
            bytes.insert(bytes.end(), len_and_str_bytes.begin(), len_and_str_bytes.end());

            // insert into dynamic table
            if (hdr.name != "set-cookie") dynamic_table_.insert(hdr);
            continue;
        }

        // is dynamic'''))
m('tbl_find_last','C07',(T,'return name == hdr.name; });','return name.size() == hdr.name.size() && name == hdr.name; });'),(T,'''    const auto it = std::find_if(table_.begin(), table_.end(),
                                 [name]''','''    const auto it = table_.size() > 2 && table_.back().name == name ? table_.end() - 1 : std::find_if(table_.begin(), table_.end(),
                                 [name]'''))
m('tbl_setmax_ge','C07',(T,'while (table_size_ > max_table_size_) {','while (!table_.empty() && table_size_ >= max_table_size_) {'))
m('limit_huff_before','C08',(D,'    if (!string_length_within_limit(bytes_res->size())) {','    if (!string_length_within_limit(size)) {'))
m('limit_hard','C08',(D,'*new_sz > HARD_TABLE_SIZE_LIMIT','*new_sz > HARD_TABLE_SIZE_LIMIT + 1'))
m('fr_goaway_mask','C09',('lib/http2_frames.h','store_uint32_be(last_stream_id & 0x7FFFFFFF, data','store_uint32_be(last_stream_id & 0x7FFFFFF, data'))
m('fr_set_id','C09',('lib/http2_frames.h','data[0] = static_cast<uint8_t>(value >> 8 & 0xFF);\n    data[1]','data[0] = static_cast<uint8_t>(value >> 8 & 0x7F);\n    data[1]'))
m('fr_wu_len','C10',(C,'frame.payload().size() != Http2WindowUpdate::wire_size','frame.payload().size() < Http2WindowUpdate::wire_size'))
m('hdr_prio_flag','C10',('lib/http2_frame_reader.h','return has_flag(0x20);','return has_flag(0x20) && !has_flag(0x01);'))
m('buf_limit','C11',(C,'static constexpr size_t MAX_READ_BUFFER_SIZE = 64 * 1024;','static constexpr size_t MAX_READ_BUFFER_SIZE = 80 * 1024;'))
m('spin_partial','C11',(C,'''                if (try_read_frame()) {''','''                if (try_read_frame() || read_buffer_.size() == 9 + 255) {'''))
m('frame_after_full','C12',(C,'''                if (try_read_frame()) {
                    spdlog::debug("frame processed, continuing...");
                    break;
                }''','''                if (try_read_frame()) {
                    if (read_buffer_.size() < 9) return Http2ProcessResult::WantRead;
                    break;
                }'''))
m('ready_hold','C12',(C,'''    if (read_buffer_.size() < total_frame_size) {''','''    if (read_buffer_.size() < total_frame_size + (header.type == FRAME_TYPE_HEADERS && header.length > 100 ? 1 : 0)) {'''))
m('preface_cmp','C13',(C,'if (received != CLIENT_PREFACE) {','if (received.substr(0, 23) != CLIENT_PREFACE.substr(0, 23)) {'))
m('preface_settings','C13',(C,'{0x0005, MAX_FRAME_SIZE}};','{0x0005, MAX_FRAME_SIZE * 2}};'))
m('ack_zero','C14',(C,'''                spdlog::debug("read {} settings, sending ACK", settings->size());
                write_settings_ack();''','''                spdlog::debug("read {} settings, sending ACK", settings->size());
                if (!settings->empty() || frame.stream_id() == 0) write_settings_ack();
                if (settings->size() > 8) write_settings_ack();'''))
m('ack_flag','C14',(C,'''            if (frame.has_flag(0x01)) {
                spdlog::debug("received SETTINGS ACK");''','''            if (frame.flags() == 0x01) {
                spdlog::debug("received SETTINGS ACK");'''))
m('cl_204','C15',(C,'''    if (!resp.body.empty()) {
        resp.headers.push_back({"content-length"''','''    if (resp.body.size() > 1) {
        resp.headers.push_back({"content-length"'''))
m('end_stream_exact','C15',(C,'.flags = remaining_bytes == 0 ? FLAG_END_STREAM','.flags = remaining_bytes == 0 && chunk_size < MAX_FRAME_SIZE - 128 ? FLAG_END_STREAM'))
m('oversize_eq','C16',(C,'''            if (!settings) {
                    update_state''','''            if (!settings && frame.length() > 6) {
                    update_state'''),) if 0 else m('after_goaway','C16',(C,'''            update_state(Http2ConnectionState::ClientClosed);
            break;
        }
        default:''','''            if (frame.length() > 8) update_state(Http2ConnectionState::ClientClosed);
            else if (read_buffer_.size() == 17) update_state(Http2ConnectionState::ClientClosed);
            break;
        }
        default:'''))
m('goaway_resp','C16',(C,'if (header.length > MAX_FRAME_SIZE) {','if (header.length > MAX_FRAME_SIZE && header.type != 0x0a) {'))
m('flush_dup','C17',(C,'write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + *result);','write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + std::min<ssize_t>(*result, 65536));'))
m('want_write_read','C17',(C,'''    if (!write_buffer_.empty()) {
            return Http2ProcessResult::WantWrite;''','''    if (write_buffer_.size() > 16) {
            return Http2ProcessResult::WantWrite;''')) if 0 else m('want_write','C17',(C,'''        if (!write_buffer_.empty()) {
            return''','''        if (write_buffer_.size() > 8) {
            return'''))
m('throw_state','C18',(C,'''    auto path = get_header(headers, ":path");
    auto method = get_header(headers, ":method");

    if (!path || !method) {''','''    auto path = get_header(headers, ":path");
    auto method = get_header(headers, ":method");

    if (path && !method) method = "GET";
    if (!path || !method) {'''))
m('throw_500_body','C18',(C,'''    } catch (const std::exception& e) {
        spdlog::error("error processing request: {}", e.what());
        resp = HttpResponse{.status_code = 500};''','''    } catch (const std::runtime_error& e) {
        spdlog::error("error processing request: {}", e.what());
        resp = HttpResponse{.status_code = 500};'''))
m('timeout_hs','C19',(C,'''    if (auto handshake_result = transport_->handshake()) {
        update_last_activity();''','''    if (auto handshake_result = transport_->handshake()) {'''))
m('timeout_secs','C19',(C,'return (std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT;','return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT;'))
m('cap_129','C20',(S,'connections_.size() >= MAX_CONNECTIONS','connections_.size() > MAX_CONNECTIONS'))
m('reap_remove','C20',(S,'''            poller.remove(it->first);
            it = connections_.erase(it);''','''            it = connections_.erase(it);
            if (it != connections_.end()) ++it;'''))

m('acc_econn','C21',(L,'''        case EINVAL:
''','''        case EINVAL:
        case EPERM:
'''))
m('proc_catch','C21',(C,'''    } catch (const std::exception& e) {
        spdlog::error("unhandled error processing''','''    } catch (const std::logic_error& e) {
        spdlog::error("unhandled error processing'''))
m('stop_wait','C22',(S,'while (!user_req_termination_) {','while (!user_req_termination_ || connections_.size() > 2) {'))
m('sigterm','C22',('app/signal_handler.cpp','std::signal(SIGTERM, signal_handler);','std::signal(SIGTERM, sigpipe_handler);'))
m('poll_map','C23',('lib/pollers/poll_poller.cpp','    if (events & POLLHUP) {','    if ((events & POLLHUP) && !(events & POLLIN)) {'))
m('epoll_cap','C23',('lib/pollers/epoll_poller.cpp','events_buffer_.resize(events_buffer_.size() * 2);','events_buffer_.resize(events_buffer_.size() * 2); result.pop_back();'))
m('tcp_eintr','C24',('lib/transports/tcp_transport.cpp','''    if (bytes_read == 0) {''','''    if (bytes_read == 0 && !buffer.empty() && errno != EAGAIN) {'''))
m('tcp_wr_eagain','C24',('lib/transports/tcp_transport.cpp','''        if (errno == EAGAIN || errno == EWOULDBLOCK) {
            spdlog::trace("TCP want write");''','''        if (errno == EAGAIN || errno == EPIPE) {
            spdlog::trace("TCP want write");'''))
m('tls_hs_ww','C25',('lib/transports/tls_transport.cpp','''        case SSL_ERROR_WANT_READ:
        case SSL_ERROR_WANT_WRITE: {
            spdlog::trace("TLS handshake''','''        case SSL_ERROR_WANT_READ: {
            spdlog::trace("TLS handshake'''))
m('tls_read0','C25',('lib/transports/tls_transport.cpp','if (bytes_read <= 0) {','if (bytes_read < 0) {'))
m('tls_move','C26',('lib/transports/tls_transport.cpp','''    client_fd_ = std::move(other.client_fd_);
    ssl_ = std::exchange(other.ssl_, nullptr);
    return''','''    client_fd_ = std::move(other.client_fd_);
    ssl_ = other.ssl_;
    return'''))
m('fd_assign','C26',('lib/socket_fd.cpp','''    if (this != &other) {
        close();''','''    if (this != &other) {
        if (other.fd_ >= 0) close();'''))
m('san_prefix','C27',('lib/file_reader.cpp','if (*base_it != *full_it) {','if (!full_it->string().starts_with(base_it->string())) {'))

m('mime_dot','C28',('lib/file_reader.cpp',"auto pos = path.find_last_of('.');","auto pos = path.find('.');"))
m('head_size','C28',('lib/static_file_handler.cpp','''{{"content-length", std::to_string(*size)}, ''','''{{"content-length", std::to_string(static_cast<uint16_t>(*size))}, '''))
m('query_hash','C28',('lib/static_file_handler.cpp',"rel_path.find('?')","rel_path.rfind('?')"))
m('route_last','C29',('lib/router.cpp','''            found = true;
            break;''','''            found = true;
            if (method == "GET") break;'''))
m('route_head','C29',('lib/router.cpp','if (route.path == path && route.method == method) {','if (route.path == path && (route.method == method || (method == "HEAD" && route.method == "GET" && routes_.size() > 3))) {'))
m('mw_order','C30',('lib/router.cpp','return current_chain(mw(std::move(h)));','return mw(current_chain(std::move(h)));'))
m('mw_static','C30',('lib/router.cpp','return middleware_chain_(std::move(target));','return found || static_handlers_.empty() || method != "HEAD" ? middleware_chain_(std::move(target)) : target;'))
m('log_len','C31',(C,'AccessLog::log_request(*hdrs, resp.status_code, resp.body.size(), client_ip_);','AccessLog::log_request(*hdrs, resp.status_code, static_cast<uint16_t>(resp.body.size()), client_ip_);'))
m('log_ref','C31',('lib/access_log.cpp','''        if (name == "referer") {''','''        if (name == "referer" || name == "referrer") {'''))
m('cfg_key','C32',('lib/server_config.cpp','''        if (!key_path) {''','''        if (!key_path && cert_path->empty()) {'''))
m('args_env','C32',('app/args.cpp','->envname("ION_TLS_KEY_PATH");','->envname("ION_TLS_CERT_PATH");'))

m('stats_500','C33',('app/server_stats.cpp','stats.status_codes[res.status_code]++;','if (res.status_code != 304) stats.status_codes[res.status_code]++;'))
m('uptime','C33',('app/status_page.cpp','if (minutes > 0 || hours > 0 || days > 0)','if (minutes > 0 || hours > 0)'))
m('uptime2','C33',('app/status_page.cpp','''    if (hours > 0 || days > 0)
''','''    if (hours > 1 || days > 0)
'''))
m('alpn','C34',('lib/transports/tls_context.cpp','*outlen = supported_protos[0];','*outlen = inlen < 2 ? supported_protos[0] : in[0];'))
m('alpn_nack','C34',('lib/transports/tls_context.cpp','''    *outlen = supported_protos[0];
''','''    if (inlen == 3 && in[0] == 2) return SSL_TLSEXT_ERR_NOACK;
    *outlen = supported_protos[0];
'''))
m('port16','C35',('app/args.cpp','CLI::Range(1, 65535)','CLI::Range(0, 65535)'))
m('404_head','C35',('app/main.cpp','if (res.status_code == 404) {','if (res.status_code == 404 || res.status_code == 403) {'))
m('keylog_trunc','C36',('lib/transports/tls_context.cpp','std::ios::app','std::ios::out'))
m('keylog_nl','C36',('lib/transports/tls_context.cpp',"file << line << '\\n';","file << line;"))
m('req_hdrs','C37',(C,'HttpRequest req{.method = *method, .path = *path, .headers = headers};','''HttpRequest req{.method = *method, .path = *path, .headers = headers};
    std::erase_if(req.headers, [](const HttpHeader& h) { return h.name.empty(); });'''))
m('req_cookie','C37',(C,'HttpRequest req{.method = *method, .path = *path, .headers = headers};','''HttpRequest req{.method = *method, .path = *path, .headers = headers};
    if (req.path.size() > 255) req.path.resize(255);'''))
m('req_prio','C37',('lib/http2_frame_reader.h','return padded() && !payload_.empty() ? payload_[0] : 0;','return padded() && !payload_.empty() ? payload_[0] & 0x7f : 0;'))
m('shared_static','C38',(E,'''    std::vector<uint8_t> bytes{};
    for (auto& hdr : headers) {''','''    std::vector<uint8_t> bytes{};
    static std::string last_name;
    for (auto& hdr : headers) {
        if (hdr.name == "x-powered-by" && last_name == hdr.name) dynamic_table_.set_max_table_size(4096);
        last_name = hdr.name;'''))
m('shared_buf','C38',(C,'''        std::array<uint8_t, TEMP_READ_BUFFER_SIZE> buffer;  // NOLINT(*-pro-type-member-init)''','''        static std::vector<uint8_t> carry;
        std::array<uint8_t, TEMP_READ_BUFFER_SIZE> buffer;  // NOLINT(*-pro-type-member-init)
        if (read_buffer_.size() < 9 && !read_buffer_.empty() && !carry.empty()) { read_buffer_ = carry; }
        if (!read_buffer_.empty() && read_buffer_.size() < 9) carry = read_buffer_;'''))
m('span_status','C39',(C,'    span->SetAttribute("http.status_code", resp.status_code);','    if (resp.status_code != 500) span->SetAttribute("http.status_code", resp.status_code);'))
m('span_path','C39',(C,'span->SetAttribute("http.target", *path);','span->SetAttribute("http.target", path->substr(0, path->find(\'?\')));'))
m('otel_env','C39',('app/main.cpp','std::string_view(otel_disabled) != "true"','!std::string_view(otel_disabled).starts_with("true")'))
m('listen_err','C40',(L,'if (::listen(server_fd_, SOMAXCONN) < 0) {','if (::listen(server_fd_, SOMAXCONN) < 0 && errno != EADDRINUSE) {'))
m('bind_leak','C40',(L,'''    server_fd_ = SocketFd(server_fd);
    set_nonblocking_socket(server_fd_);''','''    server_fd_ = SocketFd(server_fd);
    if (fcntl(server_fd, F_GETFL, 0) == -1) server_fd_ = SocketFd(-1);
    set_nonblocking_socket(server_fd_);'''))
