# refactor J: http2_conn.cpp: buffers, dispatch and serialisation exchanged
EDITS=[]
def e(f,a,b): EDITS.append((f,a,b))
C='lib/http2_conn.cpp'; H='lib/http2_conn.h'; N='lib/http2_frames.h'
# read buffer with an offset instead of erasing
e(H,'    std::vector<uint8_t> read_buffer_;','    std::vector<uint8_t> read_buffer_;\n    size_t read_offset_ = 0;\n    [[nodiscard]] std::span<const uint8_t> unread() const {\n        return std::span<const uint8_t>{read_buffer_}.subspan(read_offset_);\n    }')
e(C,'read_buffer_.size() + TEMP_READ_BUFFER_SIZE >= MAX_READ_BUFFER_SIZE','unread().size() + TEMP_READ_BUFFER_SIZE >= MAX_READ_BUFFER_SIZE')
e(C,'''        std::array<uint8_t, TEMP_READ_BUFFER_SIZE> buffer;  // NOLINT(*-pro-type-member-init)
        const auto bytes_read_res = transport_->read(buffer);
''','''        if (read_offset_ > 0) {
            std::copy(read_buffer_.begin() + static_cast<ptrdiff_t>(read_offset_), read_buffer_.end(),
                      read_buffer_.begin());
            read_buffer_.resize(read_buffer_.size() - read_offset_);
            read_offset_ = 0;
        }
        const size_t have = read_buffer_.size();
        read_buffer_.resize(have + TEMP_READ_BUFFER_SIZE);
        const auto bytes_read_res =
            transport_->read(std::span<uint8_t>{read_buffer_}.last(TEMP_READ_BUFFER_SIZE));
        read_buffer_.resize(have + (bytes_read_res ? static_cast<size_t>(*bytes_read_res) : 0));
''')
e(C,'''        read_buffer_.insert(read_buffer_.end(), buffer.begin(), buffer.begin() + bytes_read);
''','')
e(C,'''    read_buffer_.erase(read_buffer_.begin(), read_buffer_.begin() + length);''','''    read_offset_ += length;
    if (read_offset_ == read_buffer_.size()) {
        read_buffer_.clear();
        read_offset_ = 0;
    }''')
e(C,'    if (read_buffer_.size() < CLIENT_PREFACE.length()) {','    if (unread().size() < CLIENT_PREFACE.length()) {')
e(C,'preface_span{read_buffer_.data(),','preface_span{unread().data(),')
e(C,'    if (read_buffer_.size() < Http2FrameHeader::wire_size) {','    if (unread().size() < Http2FrameHeader::wire_size) {')
e(C,'    std::span<const uint8_t> buffer{read_buffer_};','    const std::span<const uint8_t> buffer = unread();')
e(C,'    if (read_buffer_.size() < total_frame_size) {','    if (buffer.size() < total_frame_size) {')
# preface by mismatch
e(C,'''    if (received != CLIENT_PREFACE) {''','''    if (std::ranges::mismatch(received, CLIENT_PREFACE).in1 != received.end()) {''')
# write
e(C,'''    write_buffer_.insert(write_buffer_.end(), data.begin(), data.end());''','''    const size_t at = write_buffer_.size();
    write_buffer_.resize(at + data.size());
    std::ranges::copy(data, write_buffer_.begin() + static_cast<ptrdiff_t>(at));''')
e(C,'''    write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + *result);''','''    const auto sent = static_cast<size_t>(*result);
    if (sent == write_buffer_.size()) {
        write_buffer_.clear();
    } else {
        write_buffer_ = std::vector<uint8_t>(write_buffer_.begin() + *result, write_buffer_.end());
    }''')
# data frames by chunk views
e(C,'''    size_t remaining_bytes = body.size();
    size_t start = 0;

    while (remaining_bytes != 0) {
        size_t chunk_size = std::min(remaining_bytes, MAX_FRAME_SIZE - 128);
        remaining_bytes -= chunk_size;
''','''    constexpr size_t most = MAX_FRAME_SIZE - 128;
    for (const auto chunk : body | std::views::chunk(most)) {
        const size_t chunk_size = chunk.size();
        const size_t remaining_bytes = static_cast<size_t>(body.data() + body.size() - (&*chunk.begin() + chunk_size));
''')
e(C,'''        enqueue_write(std::span(body.data() + start, chunk_size));

        start += chunk_size;
''','''        enqueue_write(std::span<const uint8_t>(chunk.begin(), chunk.end()));
''')
# dispatch table
e(C,'''    return it->value;
}

static HttpResponse with''','''    return std::make_optional<std::string>(it->value);
}

static HttpResponse with''')
e(C,'''    const auto it = std::find_if(headers.begin(), headers.end(),
                                 [name](const HttpHeader& hdr) { return hdr.name == name; });
    if (it == headers.end()) {''','''    const auto it = std::ranges::find(headers, name, &HttpHeader::name);
    if (it == headers.cend()) {''')
e(C,'''    resp.headers.insert(resp.headers.begin(),
                        HttpHeader{":status", std::to_string(resp.status_code)});
    if (!resp.body.empty()) {
        resp.headers.push_back({"content-length", std::to_string(resp.body.size())});
    }
    resp.headers.push_back({"server", std::string{SERVER_HEADER}});
    resp.headers.push_back({"x-powered-by", std::string{SERVER_HEADER}});
    return resp;''','''    std::vector<HttpHeader> all;
    all.reserve(resp.headers.size() + 4);
    std::array<char, 24> digits{};
    auto end = std::to_chars(digits.data(), digits.data() + digits.size(), resp.status_code).ptr;
    all.emplace_back(":status", std::string(digits.data(), end));
    std::ranges::move(resp.headers, std::back_inserter(all));
    if (!resp.body.empty()) {
        end = std::to_chars(digits.data(), digits.data() + digits.size(), resp.body.size()).ptr;
        all.emplace_back("content-length", std::string(digits.data(), end));
    }
    for (const char* name : {"server", "x-powered-by"}) {
        all.emplace_back(name, std::string{SERVER_HEADER});
    }
    resp.headers.swap(all);
    return resp;''')
e(C,'#include <format>','#include <algorithm>\n#include <array>\n#include <charconv>\n#include <format>\n#include <iterator>\n#include <map>\n#include <ranges>\n#include <tuple>')
e(C,'''    auto path = get_header(headers, ":path");
    auto method = get_header(headers, ":method");
''','''    const auto [path, method] =
        std::tuple{get_header(headers, ":path"), get_header(headers, ":method")};
''')
e(C,'''    HttpResponse resp;
    try {
        resp = handler(req);
    } catch (const std::exception& e) {
        spdlog::error("error processing request: {}", e.what());
        resp = HttpResponse{.status_code = 500};
    } catch (...) {
        spdlog::error("error processing request: unknown exception");
        resp = HttpResponse{.status_code = 500};
    }
''','''    auto resp = [&]() noexcept -> HttpResponse {
        std::string why{"unknown exception"};
        try {
            return std::invoke(handler, std::as_const(req));
        } catch (const std::exception& e) {
            why = e.what();
        } catch (...) {
        }
        spdlog::error("error processing request: {}", why);
        return HttpResponse{.status_code = 500};
    }();
''')
# timeouts
e(C,'''    return (std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT;''','''    const auto deadline = last_activity_ + IDLE_TIMEOUT;
    return deadline < std::chrono::steady_clock::now();''')
# states
e(C,'''        if (state_ == Http2ConnectionState::AwaitingHandshake) {
            if (const auto result = handle_handshake()) {
                return *result;
            }
        }

        flush_write_buffer();
''','''        const auto early = state_ == Http2ConnectionState::AwaitingHandshake
                               ? handle_handshake()
                               : std::optional<Http2ProcessResult>{};
        if (early.has_value()) {
            return early.value();
        }

        flush_write_buffer();
''')
e(C,'''                switch (read_preface()) {
                    case ReadPrefaceResult::Success:
                        continue;  // send our SETTINGS before waiting for more input
                    case ReadPrefaceResult::NotEnoughData:
                        return Http2ProcessResult::WantRead;
                    case ReadPrefaceResult::ProtocolError:
                        return Http2ProcessResult::DiscardConnection;
                }
            }''','''                static const std::map<ReadPrefaceResult, Http2ProcessResult> outcomes = {
                    {ReadPrefaceResult::NotEnoughData, Http2ProcessResult::WantRead},
                    {ReadPrefaceResult::ProtocolError, Http2ProcessResult::DiscardConnection}};
                const auto outcome = outcomes.find(read_preface());
                if (outcome != outcomes.end()) {
                    return outcome->second;
                }
                continue;  // send our SETTINGS before waiting for more input
            }''')
e(C,'''    for (const auto& setting : settings) {
        std::array<uint8_t, Http2Setting::wire_size> setting_bytes{};
        setting.serialize(setting_bytes);
        enqueue_write(setting_bytes);
    }''','''    std::vector<uint8_t> all(settings.size() * Http2Setting::wire_size);
    for (size_t i = 0; i < settings.size(); ++i) {
        settings[i].serialize(std::span<uint8_t, Http2Setting::wire_size>{
            all.data() + i * Http2Setting::wire_size, Http2Setting::wire_size});
    }
    enqueue_write(all);''')
