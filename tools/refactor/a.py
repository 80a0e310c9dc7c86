# refactor A: http2_conn.cpp / frame reader / frames
EDITS=[]
def e(f,a,b): EDITS.append((f,a,b))
C='lib/http2_conn.cpp'
e(C,'''    size_t remaining_bytes = body.size();
    size_t start = 0;

    while (remaining_bytes != 0) {
        size_t chunk_size = std::min(remaining_bytes, MAX_FRAME_SIZE - 128);
        remaining_bytes -= chunk_size;

        const Http2FrameHeader frame_header{
            .length = static_cast<uint32_t>(chunk_size),
            .type = FRAME_TYPE_DATA,
            .flags = remaining_bytes == 0 ? FLAG_END_STREAM : static_cast<uint8_t>(0),
            .stream_id = stream_id};

        write_frame_header(frame_header);

        spdlog::trace("enqueuing data frame for write (size: {}, rem: {})", chunk_size,
                      remaining_bytes);

        enqueue_write(std::span(body.data() + start, chunk_size));

        start += chunk_size;
    }''','''    constexpr size_t max_chunk = MAX_FRAME_SIZE - 128;
    std::span<const uint8_t> rest{body};
    for (; !rest.empty();) {
        const auto chunk = rest.first(std::min(rest.size(), max_chunk));
        rest = rest.subspan(chunk.size());
        uint8_t flags = 0;
        if (rest.empty()) {
            flags |= FLAG_END_STREAM;
        }
        write_frame_header({static_cast<uint32_t>(chunk.size()), FRAME_TYPE_DATA, flags, stream_id});
        spdlog::trace("enqueuing data frame for write (size: {}, rem: {})", chunk.size(), rest.size());
        enqueue_write(chunk);
    }''')
e(C,'''static std::optional<std::string> get_header(const std::vector<HttpHeader>& headers,
                                             const std::string& name) {
    const auto it = std::find_if(headers.begin(), headers.end(),
                                 [name](const HttpHeader& hdr) { return hdr.name == name; });
    if (it == headers.end()) {
        return std::nullopt;
    }
    return it->value;
}''','''static const std::string* get_header(const std::vector<HttpHeader>& headers,
                                     std::string_view name) {
    for (const HttpHeader& hdr : headers) {
        if (hdr.name == name) {
            return &hdr.value;
        }
    }
    return nullptr;
}''')
e(C,'router_.get_handler(path.value(), method.value());','router_.get_handler(*path, *method);')
e(C,'''    resp.headers.insert(resp.headers.begin(),
                        HttpHeader{":status", std::to_string(resp.status_code)});
    if (!resp.body.empty()) {
        resp.headers.push_back({"content-length", std::to_string(resp.body.size())});
    }
    resp.headers.push_back({"server", std::string{SERVER_HEADER}});
    resp.headers.push_back({"x-powered-by", std::string{SERVER_HEADER}});
    return resp;''','''    std::vector<HttpHeader> all;
    all.reserve(resp.headers.size() + 4);
    all.emplace_back(HttpHeader{":status", std::format("{}", resp.status_code)});
    std::move(resp.headers.begin(), resp.headers.end(), std::back_inserter(all));
    if (const auto n = resp.body.size(); n > 0) {
        all.push_back({.name = "content-length", .value = std::to_string(n)});
    }
    for (const auto* name : {"server", "x-powered-by"}) {
        all.push_back({name, std::string{SERVER_HEADER}});
    }
    resp.headers = std::move(all);
    return resp;''')
e(C,'''    HttpResponse resp;
    try {
        resp = handler(req);
    } catch (const std::exception& e) {
        spdlog::error("error processing request: {}", e.what());
        resp = HttpResponse{.status_code = 500};
    } catch (...) {
        spdlog::error("error processing request: unknown exception");
        resp = HttpResponse{.status_code = 500};
    }
''','''    auto resp = call_handler(handler, req);
''')
e(C,'''HttpResponse Http2Connection::process_request(''','''static HttpResponse call_handler(const RouteHandler& handler, const HttpRequest& req) {
    try {
        return handler(req);
    } catch (const std::exception& e) {
        spdlog::error("error processing request: {}", e.what());
    } catch (...) {
        spdlog::error("error processing request: unknown exception");
    }
    return HttpResponse{.status_code = 500};
}

HttpResponse Http2Connection::process_request(''')
e(C,'''    write_buffer_.insert(write_buffer_.end(), data.begin(), data.end());
}''','''    write_buffer_.reserve(write_buffer_.size() + data.size());
    std::ranges::copy(data, std::back_inserter(write_buffer_));
}''')
e(C,'''    // remove what was actually sent
    write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + *result);''','''    // remove what was actually sent
    const auto sent = static_cast<size_t>(*result);
    if (sent == write_buffer_.size()) {
        write_buffer_.clear();
    } else {
        std::vector<uint8_t> rest(write_buffer_.begin() + sent, write_buffer_.end());
        write_buffer_.swap(rest);
    }''')
e(C,'''    while (true) {
        if (read_buffer_.size() + TEMP_READ_BUFFER_SIZE >= MAX_READ_BUFFER_SIZE) {
            spdlog::debug("read buffer full");
            return;
        }

        std::array<uint8_t, TEMP_READ_BUFFER_SIZE> buffer;  // NOLINT(*-pro-type-member-init)
''','''    const auto has_room = [this] {
        return read_buffer_.size() + TEMP_READ_BUFFER_SIZE < MAX_READ_BUFFER_SIZE;
    };
    std::vector<uint8_t> buffer(TEMP_READ_BUFFER_SIZE);
    while (has_room()) {
''')
e(C,'''            switch (bytes_read_res.error()) {
                case TransportError::WantReadOrWrite:
                    spdlog::trace("transport want read/write");
                    break;
                case TransportError::ConnectionClosed:
                    spdlog::debug("transport connection closed");
                    update_state(Http2ConnectionState::ClientClosed);
                    break;
                case TransportError::ProtocolError:
                    spdlog::error("transport protocol error");
                    update_state(Http2ConnectionState::ProtocolError);
                    break;
                case TransportError::WriteError:
                    spdlog::error("transport write error");
                    break;
                case TransportError::OtherError:
                    spdlog::error("transport other error (presumed non fatal)");
                    break;
            }
            return;''','''            const auto err = bytes_read_res.error();
            if (err == TransportError::ConnectionClosed) {
                update_state(Http2ConnectionState::ClientClosed);
            } else if (err == TransportError::ProtocolError) {
                update_state(Http2ConnectionState::ProtocolError);
            }
            return;''')
e(C,'''    const std::string_view received(reinterpret_cast<const char*>(preface_span.data()),
                                    preface_span.size());
    if (received != CLIENT_PREFACE) {''','''    if (!std::equal(preface_span.begin(), preface_span.end(), CLIENT_PREFACE.begin(),
                    [](uint8_t a, char b) { return a == static_cast<uint8_t>(b); })) {''')
e(C,'''    discard_processed_buffer(CLIENT_PREFACE.size());
    return ReadPrefaceResult::Success;''','''    read_buffer_ = std::vector<uint8_t>(read_buffer_.begin() + CLIENT_PREFACE.size(), read_buffer_.end());
    return ReadPrefaceResult::Success;''')
e(C,'''    if (header.length > MAX_FRAME_SIZE) {
        spdlog::warn("frame too big (sz: {}, max: {})", header.length, MAX_FRAME_SIZE);
        update_state(Http2ConnectionState::ProtocolError);
        return true;
    }

    const size_t''','''    if (const bool acceptable = header.length <= MAX_FRAME_SIZE; !acceptable) {
        spdlog::warn("frame too big (sz: {}, max: {})", header.length, MAX_FRAME_SIZE);
        update_state(Http2ConnectionState::ProtocolError);
        return true;
    }

    const size_t''')
e(C,'''    process_frame(frame);
    discard_processed_buffer(total_frame_size);''','''    // the frame is taken out of the buffer before it is processed
    const std::vector<uint8_t> payload(buffer.begin() + Http2FrameHeader::wire_size,
                                       buffer.begin() + total_frame_size);
    discard_processed_buffer(total_frame_size);
    process_frame(Http2FrameReader{header, payload});''')
e(C,'''    Http2FrameReader frame{header, buffer.subspan(Http2FrameHeader::wire_size, header.length)};
''','')
e(C,'''    if (auto handshake_result = transport_->handshake()) {
        update_last_activity();
        spdlog::trace("transport handshake complete");
        update_state(Http2ConnectionState::AwaitingPreface);
        return std::nullopt;
    } else {
        if (handshake_result.error() == TransportError::WantReadOrWrite) {
            spdlog::trace("handshake: want read/write");
            return Http2ProcessResult::WantRead;
        }
        if (handshake_result.error() == TransportError::ConnectionClosed) {
            spdlog::trace("handshake: connection closed");
            return Http2ProcessResult::DiscardConnection;
        }
        spdlog::trace("handshake: connection error");
        return Http2ProcessResult::DiscardConnection;
    }''','''    const auto handshake_result = transport_->handshake();
    if (!handshake_result) {
        return handshake_result.error() == TransportError::WantReadOrWrite
                   ? Http2ProcessResult::WantRead
                   : Http2ProcessResult::DiscardConnection;
    }
    update_state(Http2ConnectionState::AwaitingPreface);
    update_last_activity();
    return std::nullopt;''')
e(C,'''    return (std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT;''','''    const auto deadline = last_activity_ + IDLE_TIMEOUT;
    return deadline < std::chrono::steady_clock::now();''')
e(C,'''            if (frame.has_flag(0x01)) {
                spdlog::debug("received SETTINGS ACK");
            } else {
                auto settings = frame.read_settings();
                if (!settings) {
                    update_state(Http2ConnectionState::ProtocolError);
                    return;
                }
                spdlog::debug("read {} settings, sending ACK", settings->size());
                write_settings_ack();
            }
            break;''','''            constexpr uint8_t ack = 0x01;
            if (!frame.has_flag(ack)) {
                if (const auto settings = frame.read_settings(); settings.has_value()) {
                    write_settings_ack();
                } else {
                    update_state(Http2ConnectionState::ProtocolError);
                }
            }
            break;''')
FS='lib/http2_frames.h'
e(FS,'''    data[0] = static_cast<uint8_t>(value >> 24 & 0xFF);
    data[1] = static_cast<uint8_t>(value >> 16 & 0xFF);
    data[2] = static_cast<uint8_t>(value >> 8 & 0xFF);
    data[3] = static_cast<uint8_t>(value & 0xFF);''','''    for (int i = 3; i >= 0; --i) {
        data[i] = static_cast<uint8_t>(value);
        value >>= 8;
    }''')
e(FS,'''    return static_cast<uint32_t>(data[0]) << 24 | static_cast<uint32_t>(data[1]) << 16 |
           static_cast<uint32_t>(data[2]) << 8 | static_cast<uint32_t>(data[3]);''','''    uint32_t value = 0;
    for (const uint8_t byte : data) {
        value = value << 8 | byte;
    }
    return value;''')
FR='lib/http2_frame_reader.h'
e(FR,'''        return payload_.size() >= headers_prefix_size() + padding_size();''','''        size_t needed = headers_prefix_size();
        if (padded()) {
            needed += padding_size();
        }
        return needed <= payload_.size();''')
e(FR,'''        const size_t prefix_size = headers_prefix_size();
        return payload_.subspan(prefix_size, payload_.size() - prefix_size - padding_size());''','''        return payload_.subspan(headers_prefix_size()).first(payload_.size() - headers_prefix_size() - padding_size());''')
FC='lib/http2_frame_reader.cpp'
e(FC,'''    for (size_t i = 0; i < num_settings; ++i) {
        std::span<const uint8_t, Http2Setting::wire_size> entry{
            payload_.data() + i * Http2Setting::wire_size, Http2Setting::wire_size};
        settings.push_back(Http2Setting::parse(entry));
    }''','''    for (auto rest = payload_; !rest.empty(); rest = rest.subspan(Http2Setting::wire_size)) {
        settings.emplace_back(Http2Setting::parse(rest.first<Http2Setting::wire_size>()));
    }''')
