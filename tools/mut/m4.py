H='lib/http2_conn.cpp'
M=[
("k_twice","C42",[(H,'''    if (state_ == Http2ConnectionState::Closing) {
        spdlog::error("attempting to close connection in closing state");
        return;
    }''','')]),
("k_code","C42",[(H,'ErrorCode::no_error\n','ErrorCode::internal_error\n')]),
("k_clear","C42",[(H,'    spdlog::debug("GOAWAY frame enqueued");','    write_buffer_.clear(); write_goaway(1, ErrorCode::no_error);')]),
("k_noshut","C42",[(H,'                transport_->graceful_shutdown();\n','')]),
("k_early","C42",[(H,'        if (!write_buffer_.empty()) {\n','        if (!write_buffer_.empty() && state_ != Http2ConnectionState::Closing) {\n')]),
("k_serve","C42",[(H,'                transport_->graceful_shutdown();\n','                if (try_read_frame()) { state_ = Http2ConnectionState::Closing; break; }\n                transport_->graceful_shutdown();\n')]),
("k_shut_now","C42",[(H,'    spdlog::debug("GOAWAY frame enqueued");','    if (write_buffer_.size() > 100) transport_->graceful_shutdown();')]),
("k_clientclosed","C42",[(H,'''    if (state_ == Http2ConnectionState::Closing) {
        spdlog::error("attempting to close connection in closing state");''','''    if (state_ == Http2ConnectionState::Closing && write_buffer_.empty()) {
        spdlog::error("attempting to close connection in closing state");''')]),
("k_rd_discard","C42",[(H,'                update_state(Http2ConnectionState::ClientClosed);\n                return','                return')]),
]
