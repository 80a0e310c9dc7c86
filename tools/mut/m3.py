M=[]
def m(id,prop,*edits): M.append((id,prop,edits))
C='lib/http2_conn.cpp'; CH='lib/http2_conn.h'; S='lib/http2_server.cpp'; D='lib/hpack/header_block_decoder.cpp'; T='lib/hpack/dynamic_table.cpp'
m('t_short_read','C41',(C,'TEMP_READ_BUFFER_SIZE = 16 * 1024','TEMP_READ_BUFFER_SIZE = 4 * 1024'),(C,'''        spdlog::trace("read {} bytes, buffer size now {}", bytes_read, read_buffer_.size());''','''        return;'''))
m('t_one_read','C41',(C,'''        const auto bytes_read = *bytes_read_res;''','''        const auto bytes_read = *bytes_read_res;
        if (bytes_read > 15000) { update_last_activity(); read_buffer_.insert(read_buffer_.end(), buffer.begin(), buffer.begin() + bytes_read); return; }'''))
m('t_partial_mode','C41',('lib/transports/tls_context.cpp','SSL_CTX_set_alpn_select_cb','SSL_CTX_set_mode(ctx_, SSL_MODE_ENABLE_PARTIAL_WRITE);\n    SSL_CTX_set_alpn_select_cb'))
m('t_wbuf_move','C41',(C,'''    auto result = transport_->write(write_buffer_);''','''    auto pending = write_buffer_;
    auto result = transport_->write(pending);'''))
m('t_hs_state','C41',(C,'''            spdlog::trace("handshake: want read/write");
            return Http2ProcessResult::WantRead;''','''            spdlog::trace("handshake: want read/write");
            update_state(Http2ConnectionState::AwaitingPreface);
            return Http2ProcessResult::WantRead;'''))
m('t_ssl_read0','C41',('lib/transports/tls_transport.cpp','static_cast<int>(buffer.size()));\n    if (bytes_read <= 0)','static_cast<int>(buffer.size() - 1));\n    if (bytes_read <= 0)')) # equivalent
m('t_leak_streams','C43',(CH,'std::unique_ptr<Transport> transport_;','std::unique_ptr<Transport> transport_; std::vector<uint32_t> streams_;'),(C,'            auto resp = process_request(*hdrs, span);','            auto resp = process_request(*hdrs, span); streams_.push_back(frame.stream_id());'))
m('t_leak_settings','C43',(CH,'std::unique_ptr<Transport> transport_;','std::unique_ptr<Transport> transport_; std::vector<Http2Setting> peer_;'),(C,'                write_settings_ack();\n            }','                write_settings_ack(); peer_.insert(peer_.end(), settings->begin(), settings->end());\n            }'))
m('t_leak_conn','C43',(S,'''            poller.remove(fd);
            connections_.erase(it);''','''            poller.remove(fd);
            if (it->second->has_timed_out()) connections_.erase(it); else it->second.release(), connections_.erase(it);'''))
m('t_leak_tbl','C43',(T,'''        table_size_ -= get_header_entry_size(table_.back());
        table_.pop_back();
    }

    table_.push''','''        table_size_ -= get_header_entry_size(table_.back());
        if (table_.back().value.size() < 3000) table_.pop_back(); else { table_.push_back(table_.back()); table_.pop_back(); break; }
    }

    table_.push'''))
m('t_leak_read','C43',(C,'if (read_buffer_.size() + TEMP_READ_BUFFER_SIZE >= MAX_READ_BUFFER_SIZE) {','if (read_buffer_.size() + TEMP_READ_BUFFER_SIZE >= 16 * MAX_READ_BUFFER_SIZE) {'))
m('t_blocked','C43',(C,'''        if (!write_buffer_.empty()) {
            return''','''        if (!write_buffer_.empty() && read_buffer_.size() < 24) {
            return'''))
