# refactor E: http2_conn.cpp taken apart
EDITS=[]
def e(f,a,b): EDITS.append((f,a,b))
C='lib/http2_conn.cpp'; H='lib/http2_conn.h'
e(H,'''    void process_frame(const Http2FrameReader& frame);
''','''    void process_frame(const Http2FrameReader& frame);
    bool on_settings(const Http2FrameReader& frame);
    bool on_headers(const Http2FrameReader& frame);
    bool on_window_update(const Http2FrameReader& frame);
    bool on_goaway(const Http2FrameReader& frame);
    void respond(uint32_t stream_id, const HttpResponse& resp);
    Http2ProcessResult finish_closing();
''')
e(C,'''    switch (frame.type()) {
        case FRAME_TYPE_SETTINGS: {
            spdlog::debug("received SETTINGS frame (stream={} flags={})", frame.stream_id(),
                          frame.flags());
            if (frame.has_flag(0x01)) {
                spdlog::debug("received SETTINGS ACK");
            } else {
                auto settings = frame.read_settings();
                if (!settings) {
                    update_state(Http2ConnectionState::ProtocolError);
                    return;
                }
                spdlog::debug("read {} settings, sending ACK", settings->size());
                write_settings_ack();
            }
            break;
        }
        case FRAME_TYPE_HEADERS: {
            auto tracer = opentelemetry::trace::Provider::GetTracerProvider()->GetTracer("ion");
            auto span = tracer->StartSpan("http_request");
            auto scope = tracer->WithActiveSpan(span);

            spdlog::debug("received HEADERS frame for stream {}", frame.stream_id());
            spdlog::debug(" - end headers: {}, end stream: {}, length: {}", frame.is_end_headers(),
                          frame.is_end_stream(), frame.length());

            log_dynamic_tables();
            if (!frame.has_valid_headers_size()) {
                spdlog::error("invalid HEADERS frame: too short for the fields it declares");
                update_state(Http2ConnectionState::ProtocolError);
                return;
            }
            auto hdrs = decoder_.decode(frame.headers_block());
            if (!hdrs) {
                update_state(Http2ConnectionState::ProtocolError);
                return;
            }

            for (const auto& hdr : *hdrs) {
                spdlog::debug(" - request header: {}: {}", hdr.name, hdr.value);
            }

            auto resp = process_request(*hdrs, span);
            auto hdrs_bytes = encoder_.encode(resp.headers);
            log_dynamic_tables();

            auto ending_stream = resp.body.empty();
            write_headers_response(frame.stream_id(), hdrs_bytes,
                                   FLAG_END_HEADERS | (ending_stream ? FLAG_END_STREAM : 0));
            spdlog::info(std::format("{} status code sent w/headers", resp.status_code));

            if (!ending_stream) {
                spdlog::info("sending response body (length: {})", resp.body.size());
                write_data_response(frame.stream_id(), resp.body);
            }

            AccessLog::log_request(*hdrs, resp.status_code, resp.body.size(), client_ip_);
            break;
        }
        case FRAME_TYPE_WINDOW_UPDATE: {
            spdlog::debug("received WINDOW_UPDATE frame for stream {}", frame.stream_id());
            if (frame.payload().size() != Http2WindowUpdate::wire_size) {
                spdlog::error("invalid WINDOW_UPDATE frame size");
                update_state(Http2ConnectionState::ProtocolError);
                return;
            }
            const auto [window_size_increment] = frame.read_window_update();
            spdlog::debug("window size increment = {}", window_size_increment);
            break;
        }
        case FRAME_TYPE_GOAWAY: {
            spdlog::debug("received GOAWAY frame (stream {})", frame.stream_id());
            update_state(Http2ConnectionState::ClientClosed);
            break;
        }
        default:
            spdlog::debug("received unknown frame type: {}", frame.type());
            break;
    }
}
''','''    using Handler = bool (Http2Connection::*)(const Http2FrameReader&);
    static constexpr std::pair<uint8_t, Handler> handlers[] = {
        {FRAME_TYPE_HEADERS, &Http2Connection::on_headers},
        {FRAME_TYPE_SETTINGS, &Http2Connection::on_settings},
        {FRAME_TYPE_WINDOW_UPDATE, &Http2Connection::on_window_update},
        {FRAME_TYPE_GOAWAY, &Http2Connection::on_goaway},
    };
    const auto it = std::ranges::find(handlers, frame.type(), &std::pair<uint8_t, Handler>::first);
    if (it == std::end(handlers)) {
        spdlog::debug("received unknown frame type: {}", frame.type());
        return;
    }
    if (!(this->*it->second)(frame)) {
        update_state(Http2ConnectionState::ProtocolError);
    }
}

bool Http2Connection::on_settings(const Http2FrameReader& frame) {
    spdlog::debug("received SETTINGS frame (stream={} flags={})", frame.stream_id(), frame.flags());
    if (frame.has_flag(0x01)) {
        spdlog::debug("received SETTINGS ACK");
        return true;
    }
    const bool ok = frame.read_settings().has_value();
    if (ok) {
        write_settings_ack();
    }
    return ok;
}

void Http2Connection::respond(uint32_t stream_id, const HttpResponse& resp) {
    const auto block = encoder_.encode(resp.headers);
    log_dynamic_tables();
    uint8_t flags = FLAG_END_HEADERS;
    if (resp.body.empty()) {
        flags |= FLAG_END_STREAM;
    }
    write_headers_response(stream_id, block, flags);
    spdlog::info("{} status code sent w/headers", resp.status_code);
    write_data_response(stream_id, resp.body);
}

bool Http2Connection::on_headers(const Http2FrameReader& frame) {
    auto tracer = opentelemetry::trace::Provider::GetTracerProvider()->GetTracer("ion");
    auto span = tracer->StartSpan("http_request");
    auto scope = tracer->WithActiveSpan(span);
    log_dynamic_tables();
    if (!frame.has_valid_headers_size()) {
        spdlog::error("invalid HEADERS frame: too short for the fields it declares");
        return false;
    }
    auto decoded = decoder_.decode(frame.headers_block());
    if (!decoded.has_value()) {
        return false;
    }
    auto& hdrs = decoded.value();
    std::ranges::for_each(hdrs, [](const HttpHeader& hdr) {
        spdlog::debug(" - request header: {}: {}", hdr.name, hdr.value);
    });
    const HttpResponse resp = process_request(hdrs, span);
    respond(frame.stream_id(), resp);
    AccessLog::log_request(hdrs, resp.status_code, resp.body.size(), client_ip_);
    return true;
}

bool Http2Connection::on_window_update(const Http2FrameReader& frame) {
    if (frame.payload().size() != Http2WindowUpdate::wire_size) {
        spdlog::error("invalid WINDOW_UPDATE frame size");
        return false;
    }
    spdlog::debug("window size increment = {}", frame.read_window_update().window_size_increment);
    return true;
}

bool Http2Connection::on_goaway(const Http2FrameReader& frame) {
    spdlog::debug("received GOAWAY frame (stream {})", frame.stream_id());
    update_state(Http2ConnectionState::ClientClosed);
    return true;
}
''')
e(C,'#include <format>\n','#include <algorithm>\n#include <array>\n#include <iterator>\n#include <utility>\n')
e(C,'''Http2ProcessResult Http2Connection::internal_process() {
    while (true) {
        spdlog::trace("processing state: {}", state_to_string(state_));

        if (state_ == Http2ConnectionState::AwaitingHandshake) {
            if (const auto result = handle_handshake()) {
                return *result;
            }
        }

        flush_write_buffer();

        // if we still have data to send, we are blocked on writing
        if (!write_buffer_.empty()) {
            return Http2ProcessResult::WantWrite;
        }

        fill_read_buffer();

        switch (state_) {
            case Http2ConnectionState::AwaitingPreface: {
                switch (read_preface()) {
                    case ReadPrefaceResult::Success:
                        continue;  // send our SETTINGS before waiting for more input
                    case ReadPrefaceResult::NotEnoughData:
                        return Http2ProcessResult::WantRead;
                    case ReadPrefaceResult::ProtocolError:
                        return Http2ProcessResult::DiscardConnection;
                }
            }
            case Http2ConnectionState::AwaitingFrame: {
                if (try_read_frame()) {
                    spdlog::debug("frame processed, continuing...");
                    break;
                }
                return Http2ProcessResult::WantRead;
            }
            case Http2ConnectionState::Closing: {
                spdlog::debug("in closing state, completing shutdown");
                transport_->graceful_shutdown();
                update_state(Http2ConnectionState::ClientClosed);
                return Http2ProcessResult::DiscardConnection;
            }
            case Http2ConnectionState::ProtocolError: {
                spdlog::error("protocol error. closing connection");
                close();
                return Http2ProcessResult::DiscardConnection;
            }
            case Http2ConnectionState::ClientClosed: {
                return Http2ProcessResult::DiscardConnection;
            }
            default: {
                throw std::runtime_error("invalid state");
            }
        }
    }
}
''','''Http2ProcessResult Http2Connection::finish_closing() {
    spdlog::debug("in closing state, completing shutdown");
    transport_->graceful_shutdown();
    update_state(Http2ConnectionState::ClientClosed);
    return Http2ProcessResult::DiscardConnection;
}

Http2ProcessResult Http2Connection::internal_process() {
    if (state_ == Http2ConnectionState::AwaitingHandshake) {
        const auto result = handle_handshake();
        if (result.has_value()) {
            return result.value();
        }
    }

    for (bool more = true; more;) {
        flush_write_buffer();
        if (!write_buffer_.empty()) {
            return Http2ProcessResult::WantWrite;
        }
        fill_read_buffer();

        if (state_ == Http2ConnectionState::AwaitingPreface) {
            const auto preface = read_preface();
            if (preface == ReadPrefaceResult::ProtocolError) {
                return Http2ProcessResult::DiscardConnection;
            }
            more = preface == ReadPrefaceResult::Success;
        } else if (state_ == Http2ConnectionState::AwaitingFrame) {
            more = try_read_frame();
        } else if (state_ == Http2ConnectionState::Closing) {
            return finish_closing();
        } else {
            if (state_ == Http2ConnectionState::ProtocolError) {
                spdlog::error("protocol error. closing connection");
                close();
            }
            return Http2ProcessResult::DiscardConnection;
        }
    }
    return Http2ProcessResult::WantRead;
}
''')
e(C,'''        std::array<uint8_t, TEMP_READ_BUFFER_SIZE> buffer;  // NOLINT(*-pro-type-member-init)
        const auto bytes_read_res = transport_->read(buffer);

        if (!bytes_read_res) {''','''        const size_t filled = read_buffer_.size();
        read_buffer_.resize(filled + TEMP_READ_BUFFER_SIZE);
        const auto bytes_read_res = transport_->read(std::span{read_buffer_}.subspan(filled));
        read_buffer_.resize(filled + (bytes_read_res ? static_cast<size_t>(*bytes_read_res) : 0));

        if (!bytes_read_res) {''')
e(C,'''        const auto bytes_read = *bytes_read_res;
        update_last_activity();
        read_buffer_.insert(read_buffer_.end(), buffer.begin(), buffer.begin() + bytes_read);
        spdlog::trace("read {} bytes, buffer size now {}", bytes_read, read_buffer_.size());''','''        update_last_activity();
        spdlog::trace("read {} bytes, buffer size now {}", *bytes_read_res, read_buffer_.size());''')
e(C,'''    while (true) {
        if (read_buffer_.size() + TEMP_READ_BUFFER_SIZE >= MAX_READ_BUFFER_SIZE) {
            spdlog::debug("read buffer full");
            return;
        }
''','''    while (read_buffer_.size() < MAX_READ_BUFFER_SIZE - TEMP_READ_BUFFER_SIZE) {''')
e(C,'''    std::span<const uint8_t, CLIENT_PREFACE.size()> preface_span{read_buffer_.data(),
                                                                 CLIENT_PREFACE.size()};
    const std::string_view received(reinterpret_cast<const char*>(preface_span.data()),
                                    preface_span.size());
    if (received != CLIENT_PREFACE) {''','''    if (!std::ranges::equal(std::span{read_buffer_}.first<CLIENT_PREFACE.size()>(), CLIENT_PREFACE,
                            [](uint8_t a, char b) { return a == static_cast<uint8_t>(b); })) {''')
e(C,'''    write_settings();
    update_state(Http2ConnectionState::AwaitingFrame);
    discard_processed_buffer(CLIENT_PREFACE.size());''','''    discard_processed_buffer(CLIENT_PREFACE.size());
    update_state(Http2ConnectionState::AwaitingFrame);
    write_settings();''')
e(C,'''    Http2FrameReader frame{header, buffer.subspan(Http2FrameHeader::wire_size, header.length)};
    process_frame(frame);
    discard_processed_buffer(total_frame_size);
    return true;''','''    const std::vector<uint8_t> payload(read_buffer_.begin() + Http2FrameHeader::wire_size,
                                       read_buffer_.begin() + total_frame_size);
    discard_processed_buffer(total_frame_size);
    process_frame(Http2FrameReader{header, payload});
    return true;''')
e(C,'''    const auto it = std::find_if(headers.begin(), headers.end(),
                                 [name](const HttpHeader& hdr) { return hdr.name == name; });
    if (it == headers.end()) {
        return std::nullopt;
    }
    return it->value;''','''    const auto it = std::ranges::find(headers, name, &HttpHeader::name);
    return it != headers.end() ? std::optional{it->value} : std::nullopt;''')
e(C,'''    HttpResponse resp;
    try {
        resp = handler(req);
    } catch (const std::exception& e) {
        spdlog::error("error processing request: {}", e.what());
        resp = HttpResponse{.status_code = 500};
    } catch (...) {
        spdlog::error("error processing request: unknown exception");
        resp = HttpResponse{.status_code = 500};
    }
''','''    HttpResponse resp = [&]() -> HttpResponse {
        try {
            return handler(req);
        } catch (const std::exception& e) {
            spdlog::error("error processing request: {}", e.what());
        } catch (...) {
            spdlog::error("error processing request: unknown exception");
        }
        return HttpResponse{.status_code = 500};
    }();
''')
e(C,'''    resp.headers.insert(resp.headers.begin(),
                        HttpHeader{":status", std::to_string(resp.status_code)});
    if (!resp.body.empty()) {
        resp.headers.push_back({"content-length", std::to_string(resp.body.size())});
    }
    resp.headers.push_back({"server", std::string{SERVER_HEADER}});
    resp.headers.push_back({"x-powered-by", std::string{SERVER_HEADER}});
    return resp;''','''    std::vector<HttpHeader> all;
    all.reserve(resp.headers.size() + 4);
    all.emplace_back(":status", std::to_string(resp.status_code));
    std::ranges::move(resp.headers, std::back_inserter(all));
    if (const auto length = resp.body.size(); length > 0) {
        all.emplace_back("content-length", std::to_string(length));
    }
    for (const char* name : {"server", "x-powered-by"}) {
        all.emplace_back(name, std::string{SERVER_HEADER});
    }
    resp.headers = std::move(all);
    return resp;''')
e(C,'''    auto result = transport_->write(write_buffer_);
    if (!result) {
        if (result.error() == TransportError::WantReadOrWrite) {
            // do nothing. The buffer remains intact for the next attempt.
            // SSL_write requirement: address and size stay the same.
            spdlog::trace("transport busy, write will be resumed later");
        } else {
            spdlog::error("failed to flush write buffer: error: {}",
                          static_cast<int>(result.error()));
            // nothing can be sent any more: don't wait for write readiness
            write_buffer_.clear();
            update_state(Http2ConnectionState::ProtocolError);
        }
        return;
    }
    update_last_activity();
    spdlog::trace("flushed {} bytes from write buffer", *result);

    // remove what was actually sent
    write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + *result);''','''    const auto result = transport_->write(write_buffer_);
    if (result) {
        update_last_activity();
        const auto sent = static_cast<size_t>(*result);
        if (sent == write_buffer_.size()) {
            write_buffer_.clear();
        } else {
            std::copy(write_buffer_.begin() + sent, write_buffer_.end(), write_buffer_.begin());
            write_buffer_.resize(write_buffer_.size() - sent);
        }
        return;
    }
    if (result.error() == TransportError::WantReadOrWrite) {
        return;
    }
    spdlog::error("failed to flush write buffer: error: {}", static_cast<int>(result.error()));
    write_buffer_ = {};
    update_state(Http2ConnectionState::ProtocolError);''')
e(C,'''    if (state_ == Http2ConnectionState::Closing) {
        spdlog::error("attempting to close connection in closing state");
        return;
    }
    write_goaway(1, (state_ != Http2ConnectionState::ProtocolError) ? ErrorCode::no_error
                                                                    : ErrorCode::protocol_error);
    spdlog::debug("GOAWAY frame enqueued");
    update_state(Http2ConnectionState::Closing);''','''    switch (state_) {
        case Http2ConnectionState::Closing:
            spdlog::error("attempting to close connection in closing state");
            return;
        case Http2ConnectionState::ProtocolError:
            write_goaway(1, ErrorCode::protocol_error);
            break;
        default:
            write_goaway(1, ErrorCode::no_error);
            break;
    }
    update_state(Http2ConnectionState::Closing);''')
