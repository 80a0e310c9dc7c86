# refactor H: files, frames, log, application
EDITS=[]
def e(f,a,b): EDITS.append((f,a,b))
F='lib/file_reader.cpp'
e(F,'''    std::ifstream file(path, std::ios::binary | std::ios::ate);
    if (!file.is_open()) {
        spdlog::warn("Failed to open file: {}", path);
        return std::nullopt;
    }

    const auto size = file.tellg();
    if (size == -1) {
        spdlog::error("Failed to get file size: {}", path);
        return std::nullopt;
    }

    file.seekg(0, std::ios::beg);

    std::vector<uint8_t> buffer(size);
    if (!file.read(reinterpret_cast<char*>(buffer.data()), size)) {
        spdlog::error("Failed to read file: {}", path);
        return std::nullopt;
    }
''','''    std::ifstream file;
    file.open(path, std::ios_base::in | std::ios_base::binary);
    if (!file) {
        spdlog::warn("Failed to open file: {}", path);
        return {};
    }

    file.seekg(0, std::ios::end);
    const std::streamoff size = file.tellg();
    if (!file || size < 0) {
        spdlog::error("Failed to get file size: {}", path);
        return {};
    }
    file.seekg(0);

    std::vector<uint8_t> buffer;
    buffer.resize(static_cast<size_t>(size));
    file.read(reinterpret_cast<char*>(buffer.data()), size);
    if (file.gcount() != size) {
        spdlog::error("Failed to read file: {}", path);
        return {};
    }
''')
e(F,'''    std::error_code ec;
    if (std::filesystem::exists(path, ec) && std::filesystem::is_regular_file(path, ec)) {
        auto size = std::filesystem::file_size(path, ec);
        if (!ec) {
            return size;
        }
    }

    spdlog::warn("Failed to get file size for {}: {}", path, ec.message());
    return std::nullopt;''','''    struct stat st{};
    if (::stat(path.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) {
        spdlog::warn("Failed to get file size for {}", path);
        return std::nullopt;
    }
    return static_cast<size_t>(st.st_size);''')
e(F,'''    static const std::unordered_map<std::string, std::string> mime_types = {''','''    static constexpr std::pair<std::string_view, const char*> mime_types[] = {''')
e(F,'''    auto pos = path.find_last_of('.');
    if (pos == std::string::npos) {
        return "application/octet-stream";
    }

    std::string ext = path.substr(pos);
    auto it = mime_types.find(ext);
    return it != mime_types.end() ? it->second : "application/octet-stream";''','''    const std::string_view name{path};
    if (const auto pos = name.rfind('.'); pos != std::string_view::npos) {
        const auto ext = name.substr(pos);
        for (const auto& [known, type] : mime_types) {
            if (known == ext) {
                return type;
            }
        }
    }
    return "application/octet-stream";''')
e(F,'''    struct stat st;
    if (stat(path.c_str(), &st) != 0) {
        return false;
    }

    // Check if it's a regular file
    if (!S_ISREG(st.st_mode)) {
        return false;
    }

    // Check if readable
    return access(path.c_str(), R_OK) == 0;''','''    std::error_code ec;
    return std::filesystem::is_regular_file(path, ec) && access(path.c_str(), R_OK) == 0;''')
e(F,'''        auto base_it = base.begin();
        auto full_it = full.begin();
        for (; base_it != base.end() && full_it != full.end(); ++base_it, ++full_it) {
            if (*base_it != *full_it) {
                spdlog::warn("Directory traversal attempt blocked: {} (base: {})", requested_path,
                             base_dir);
                return std::nullopt;
            }
        }
        // If base has more components than full, full cannot be inside base
        if (base_it != base.end()) {
            spdlog::warn(''','''        const auto [base_it, full_it] =
            std::mismatch(base.begin(), base.end(), full.begin(), full.end());
        if (base_it != base.end()) {
            spdlog::warn(''')
e(F,'''        fs::path requested(requested_path);
        fs::path combined = requested.is_absolute() ? requested : (base / requested);
''','''        const fs::path combined = base / requested_path;
''')
e(F,'''        if (!fs::exists(base_abs) || !fs::is_directory(base_abs)) {''','''        if (fs::status(base_abs).type() != fs::file_type::directory) {''')
e(F,'#include <filesystem>','#include <algorithm>\n#include <filesystem>\n#include <string_view>')
# static
S='lib/static_file_handler.cpp'
e(S,'''    return path.starts_with(url_prefix_);''','''    return path.compare(0, url_prefix_.size(), url_prefix_) == 0;''')
e(S,'''    std::string rel_path = url_path.substr(url_prefix_.length());

    // remove query string
    if (const auto query_pos = rel_path.find('?'); query_pos != std::string::npos) {
        rel_path = rel_path.substr(0, query_pos);
    }

    if (rel_path.empty() || rel_path == "/") {
        rel_path = "/index.html";
    }

    if (rel_path.starts_with("/")) {
        rel_path = rel_path.substr(1);
    }

    return rel_path;''','''    std::string_view rel{url_path};
    rel.remove_prefix(url_prefix_.size());
    rel = rel.substr(0, rel.find('?'));
    if (!rel.empty() && rel.front() == '/') {
        rel.remove_prefix(1);
    }
    return rel.empty() ? std::string{"index.html"} : std::string{rel};''')
e(S,'''    auto content = FileReader::read_file(path);
    if (!content) {
        spdlog::error("failed to read file: {}", path);
        return HttpResponse{500};
    }

    spdlog::debug("serving static file: {} ({} bytes, {})", path, content->size(), mime_type);
    return HttpResponse{
        .status_code = 200, .body = std::move(*content), .headers = {{"content-type", mime_type}}};''','''    HttpResponse response{.status_code = 500};
    if (auto content = FileReader::read_file(path)) {
        response.status_code = 200;
        response.body.swap(*content);
        response.headers.push_back({"content-type", mime_type});
        spdlog::debug("serving static file: {} ({} bytes, {})", path, response.body.size(),
                      mime_type);
    } else {
        spdlog::error("failed to read file: {}", path);
    }
    return response;''')
e(S,'''    auto size = FileReader::get_file_size(path);
    if (!size) {
        spdlog::error("failed to get file size: {}", path);
        return HttpResponse{500};
    }

    spdlog::debug("Returning metadata for static file: {} ({} bytes, {})", path, *size, mime_type);
    return HttpResponse{
        .status_code = 200,
        .headers = {{"content-length", std::to_string(*size)}, {"content-type", mime_type}}};''','''    return FileReader::get_file_size(path)
        .transform([&](size_t size) {
            HttpResponse response{.status_code = 200};
            response.headers.emplace_back("content-length", std::format("{}", size));
            response.headers.emplace_back("content-type", mime_type);
            return response;
        })
        .value_or(HttpResponse{500});''')
e(S,'#include "static_file_handler.h"\n','#include "static_file_handler.h"\n\n#include <format>\n#include <string_view>\n')
e(S,'''    std::string rel_path = get_relative_path(path);

    auto safe_path = FileReader::sanitize_path(filesystem_root_, rel_path);
    if (!safe_path) {
        spdlog::warn("invalid file path requested: {}", path);
        return HttpResponse{403};
    }

    return file_response(*safe_path, is_head);''','''    const auto safe_path =
        FileReader::sanitize_path(filesystem_root_, get_relative_path(path));
    return safe_path ? file_response(safe_path.value(), is_head) : HttpResponse{403};''')
# frames
H='lib/http2_frames.h'
e(H,'''    return static_cast<uint32_t>(data[0]) << 24 | static_cast<uint32_t>(data[1]) << 16 |
           static_cast<uint32_t>(data[2]) << 8 | static_cast<uint32_t>(data[3]);''','''    uint32_t value;
    std::memcpy(&value, data.data(), sizeof value);
    return std::endian::native == std::endian::little ? std::byteswap(value) : value;''')
e(H,'''    data[0] = static_cast<uint8_t>(value >> 24 & 0xFF);
    data[1] = static_cast<uint8_t>(value >> 16 & 0xFF);
    data[2] = static_cast<uint8_t>(value >> 8 & 0xFF);
    data[3] = static_cast<uint8_t>(value & 0xFF);''','''    for (auto byte = data.rbegin(); byte != data.rend(); ++byte, value >>= 8) {
        *byte = static_cast<uint8_t>(value);
    }''')
e(H,'''    return static_cast<uint16_t>(data[0]) << 8 | static_cast<uint16_t>(data[1]);''','''    return static_cast<uint16_t>(data[0] * 256u + data[1]);''')
e(H,'#include <cstdint>','#include <bit>\n#include <cstdint>\n#include <cstring>')
R='lib/http2_frame_reader.cpp'
e(R,'''    const auto num_settings = payload_.size() / Http2Setting::wire_size;
    settings.reserve(num_settings);

    for (size_t i = 0; i < num_settings; ++i) {
        std::span<const uint8_t, Http2Setting::wire_size> entry{
            payload_.data() + i * Http2Setting::wire_size, Http2Setting::wire_size};
        settings.push_back(Http2Setting::parse(entry));
    }
''','''    for (auto rest = payload_; !rest.empty(); rest = rest.subspan(Http2Setting::wire_size)) {
        settings.push_back(Http2Setting::parse(rest.first<Http2Setting::wire_size>()));
    }
''')
R='lib/http2_frame_reader.h'
e(R,'''        return payload_.size() >= headers_prefix_size() + padding_size();''','''        return fragment().has_value();''')
e(R,'''        const size_t prefix_size = headers_prefix_size();
        return payload_.subspan(prefix_size, payload_.size() - prefix_size - padding_size());''','''        return fragment().value_or(std::span<const uint8_t>{});''')
e(R,'''    size_t headers_prefix_size() const {
        // pad length (8), then exclusive (1), stream dependency (31) & weight (8)
        return (padded() ? 1 : 0) + (priority() ? 5 : 0);
    }

    size_t padding_size() const {
        return padded() && !payload_.empty() ? payload_[0] : 0;
    }
''','''    // what remains without the pad length, the priority fields and the padding
    std::optional<std::span<const uint8_t>> fragment() const {
        auto rest = payload_;
        size_t padding = 0;
        if (padded()) {
            if (rest.empty()) {
                return std::nullopt;
            }
            padding = rest.front();
            rest = rest.last(rest.size() - 1);
        }
        if (priority()) {
            if (rest.size() < 5) {
                return std::nullopt;
            }
            rest = rest.subspan(5);
        }
        if (padding > rest.size()) {
            return std::nullopt;
        }
        return rest.first(rest.size() - padding);
    }
''')
e(R,'#include <expected>','#include <expected>\n#include <optional>')
# access log
A='lib/access_log.cpp'
e(A,'''        if (c == '"' || c == '\\\\') {
            escaped += '\\\\';
            escaped += c;
        } else if (byte < 0x20 || byte == 0x7f) {
            escaped += std::format("\\\\x{:02x}", byte);
        } else {
            escaped += c;
        }''','''        static constexpr char hex[] = "0123456789abcdef";
        if (byte <= 0x1f || byte == 0x7f) {
            escaped.append("\\\\x").append(1, hex[byte >> 4]).append(1, hex[byte & 15]);
            continue;
        }
        if (c == '"' || c == '\\\\') {
            escaped.push_back('\\\\');
        }
        escaped.push_back(c);''')
e(A,'''    std::string method{"-"};
    std::string path{"-"};
    std::string user_agent{"-"};
    std::string referrer{"-"};

    for (const auto& [name, value] : req_headers) {
        if (name == ":method") {
            method = escape(value);
        }
        if (name == ":path") {
            path = escape(value);
        }
        if (name == "user-agent") {
            user_agent = escape(value);
        }
        if (name == "referer") {
            referrer = escape(value);
        }
    }
    const auto entry =
        std::format(R"({} - - {} "{} {} HTTP/2" {} {} "{}" "{}")",
                    (client_ip.empty() ? "-" : client_ip), SystemClock::clf_timestamp(), method,
                    path, status_code, content_length, referrer, user_agent);
    access_log->info(entry);''','''    const auto field = [&](std::string_view wanted) -> std::string {
        for (auto it = req_headers.rbegin(); it != req_headers.rend(); ++it) {
            if (it->name == wanted) {
                return escape(it->value);
            }
        }
        return "-";
    };
    std::ostringstream line;
    line << (client_ip.empty() ? std::string{"-"} : client_ip) << " - - "
         << SystemClock::clf_timestamp() << " \\"" << field(":method") << ' ' << field(":path")
         << " HTTP/2\\" " << status_code << ' ' << content_length << " \\"" << field("referer")
         << "\\" \\"" << field("user-agent") << '"';
    access_log->log(spdlog::level::info, line.str());''')
e(A,'#include <format>','#include <sstream>\n#include <string_view>')
C='lib/system_clock.cpp'
e(C,'''    const auto now = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
    std::tm loc_tm;
    localtime_r(&now, &loc_tm);

    std::string buffer(32, '\\0');
    const size_t len =
        std::strftime(buffer.data(), buffer.size(), "[%d/%b/%Y:%H:%M:%S %z]", &loc_tm);
    buffer.resize(len);
    return buffer;''','''    const std::time_t now = std::time(nullptr);
    std::tm parts{};
    ::localtime_r(&now, &parts);
    char text[64];
    const size_t len = std::strftime(text, sizeof text, "%d/%b/%Y:%H:%M:%S %z", &parts);
    return "[" + std::string(text, len) + "]";''')
# config
e('lib/server_config.cpp','''    if (!cleartext) {
        if (!cert_path) {
            throw std::runtime_error("TLS certificate path not set.");
        }
        if (!key_path) {
            throw std::runtime_error("TLS private key path not set.");
        }
    }''','''    if (cleartext || (cert_path && key_path)) {
        return;
    }
    throw std::runtime_error(cert_path ? "TLS private key path not set."
                                       : "TLS certificate path not set.");''')
e('lib/stop_reason.cpp','''    switch (reason) {
        case StopReason::Signal:
            return "signal";
        case StopReason::StdOutPipeBroken:
            return "stdout pipe broken";
        case StopReason::StdErrPipeBroken:
            return "stderr pipe broken";
        default:
            return "other";
    }''','''    if (reason == StopReason::Signal) {
        return "signal";
    }
    if (reason == StopReason::StdOutPipeBroken) {
        return "stdout pipe broken";
    }
    return reason == StopReason::StdErrPipeBroken ? "stderr pipe broken" : "other";''')
# app
e('app/args.cpp','''    static const std::unordered_map<std::string, spdlog::level::level_enum> level_map = {
        {"trace", spdlog::level::trace}, {"debug", spdlog::level::debug},
        {"info", spdlog::level::info},   {"warn", spdlog::level::warn},
        {"error", spdlog::level::err},   {"critical", spdlog::level::critical},
        {"off", spdlog::level::off}};

    if (auto it = level_map.find(log_level); it != level_map.end()) {
        return it->second;
    }
    throw''','''    static constexpr std::array<std::string_view, 7> names{"trace", "debug",    "info", "warn",
                                                           "error", "critical", "off"};
    const auto it = std::find(names.begin(), names.end(), log_level);
    if (it != names.end()) {
        return static_cast<spdlog::level::level_enum>(it - names.begin());
    }
    throw''')
e('app/args.cpp','#include "version.h"','#include <algorithm>\n#include <array>\n#include <string_view>\n\n#include "version.h"')
e('app/args.cpp','''    auto config = ion::ServerConfiguration{};
    config.cleartext = cleartext;
    if (!cert_path.empty()) {
        config.cert_path = cert_path;
    }
    if (!key_path.empty()) {
        config.key_path = key_path;
    }
    return config;''','''    const auto set = [](const std::string& path) {
        return path.empty() ? std::nullopt : std::make_optional<std::filesystem::path>(path);
    };
    ion::ServerConfiguration config;
    config.cert_path = set(cert_path);
    config.key_path = set(key_path);
    config.cleartext = cleartext;
    return config;''')
M='app/main.cpp'
e(M,'''        router.add_middleware([args](auto next) {
            return [args, next](const auto& req) {
                auto res = next(req);

                if (res.status_code == 404) {
                    auto file_res = ion::StaticFileHandler::file_response(
                        args.status_404_file_path, req.method == "HEAD");
                    file_res.status_code = 404;
                    return file_res;
                }
                return res;
            };
        });''','''        router.add_middleware([page = args.status_404_file_path](ion::RouteHandler next) {
            return ion::RouteHandler{NotFoundPage{page, std::move(next)}};
        });''')
e(M,'''void run_server(const Args& args) {''','''struct NotFoundPage {
    std::string page;
    ion::RouteHandler next;

    ion::HttpResponse operator()(const ion::HttpRequest& req) const {
        auto res = next(req);
        if (res.status_code != 404) {
            return res;
        }
        res = ion::StaticFileHandler::file_response(page, req.method == "HEAD");
        res.status_code = 404;
        return res;
    }
};

static void configure_routes(const Args& args, ion::Router& router);

void run_server(const Args& args) {''')
e(M,'''    auto& router = server.router();

    if (args.under_test) {''','''    configure_routes(args, server.router());
    server.start(args.port);
}

static void configure_routes(const Args& args, ion::Router& router) {
    if (args.under_test) {''')
e(M,'''    }

    server.start(args.port);
}
''','''    }
}
''')
e(M,'''        auto& url_prefix = args.static_map[0];
        auto& filesystem_root = args.static_map[1];

        spdlog::info("serving static files at '{}' -> '{}'", url_prefix, filesystem_root);
        auto sth = std::make_unique<ion::StaticFileHandler>(url_prefix, filesystem_root);
        router.add_static_handler(std::move(sth));''','''        router.add_static_handler(std::make_unique<ion::StaticFileHandler>(
            args.static_map.front(), args.static_map.back()));''')
e(M,'''    const char* otel_disabled = std::getenv("OTEL_SDK_DISABLED");
    if (!otel_disabled || std::string_view(otel_disabled) != "true") {
        return std::make_unique<ion::app::Telemetry>("ion-server");
    }
    spdlog::info("OpenTelemetry disabled.");
    return nullptr;''','''    const char* value = std::getenv("OTEL_SDK_DISABLED");
    if (value != nullptr && std::strcmp(value, "true") == 0) {
        spdlog::info("OpenTelemetry disabled.");
        return {};
    }
    return std::make_unique<ion::app::Telemetry>("ion-server");''')
e(M,'#include <version.h>','#include <version.h>\n\n#include <cstring>')
G='app/signal_handler.cpp'
e(G,'''    std::signal(SIGINT, signal_handler);
    std::signal(SIGTERM, signal_handler);
    std::signal(SIGPIPE, sigpipe_handler);
''','''    const auto install = [](int signum, void (*handler)(int)) {
        struct sigaction action{};
        action.sa_handler = handler;
        action.sa_flags = SA_RESTART;
        sigemptyset(&action.sa_mask);
        sigaction(signum, &action, nullptr);
    };
    install(SIGINT, signal_handler);
    install(SIGTERM, signal_handler);
    install(SIGPIPE, sigpipe_handler);
''')
e(G,'''    if (write(STDOUT_FILENO, &dummy, 0) < 0 && errno == EPIPE) {
        stop_server(ion::StopReason::StdOutPipeBroken);
    }
    if (write(STDERR_FILENO, &dummy, 0) < 0 && errno == EPIPE) {
        stop_server(ion::StopReason::StdErrPipeBroken);
    }''','''    const auto broken = [](int fd) { return write(fd, &dummy, 0) == -1 && errno == EPIPE; };
    if (broken(STDOUT_FILENO)) {
        stop_server(ion::StopReason::StdOutPipeBroken);
    }
    if (broken(STDERR_FILENO)) {
        stop_server(ion::StopReason::StdErrPipeBroken);
    }''')
e(G,'constexpr char dummy = 0;','static constexpr char dummy = 0;')
P='app/status_page.cpp'
e(P,'''    const auto days = total_seconds / 86400;
    total_seconds %= 86400;
    const auto hours = total_seconds / 3600;
    total_seconds %= 3600;
    const auto minutes = total_seconds / 60;
    const auto seconds = total_seconds % 60;

    std::stringstream ss;
    if (days > 0)
        ss << days << "d ";
    if (hours > 0 || days > 0)
        ss << hours << "h ";
    if (minutes > 0 || hours > 0 || days > 0)
        ss << minutes << "m ";
    ss << seconds << "s";

    return ss.str();''','''    static constexpr std::pair<uint64_t, char> units[] = {{86400, 'd'}, {3600, 'h'}, {60, 'm'}};
    std::string text;
    for (const auto& [length, letter] : units) {
        const auto count = total_seconds / length;
        if (count != 0 || !text.empty()) {
            text += std::to_string(count) + letter + ' ';
        }
        total_seconds -= count * length;
    }
    return text + std::to_string(total_seconds) + 's';''')
e(P,'''        const double avg_lat = total > 0 ? (double)stats.total_duration_us / total / 1000.0 : 0.0;
''','''        double avg_lat = 0.0;
        if (total != 0) {
            avg_lat = static_cast<double>(stats.total_duration_us) / total / 1000.0;
        }
''')
e(P,'''             << std::fixed << std::setprecision(2) << avg_lat << R''','''             << std::format("{:.2f}", avg_lat) << R''')
e(P,'#include <iomanip>','#include <format>')
e(P,'''        if (stats.status_codes.empty()) {
            html << "<em>No requests yet</em>";
        } else {
            for (auto const& [code, count] : stats.status_codes) {
                html << "<div class='code-badge'><span class='code-num'>" << code << "</span>"
                     << count << "</div>";
            }
        }''','''        for (auto const& [code, count] : stats.status_codes) {
            html << std::format("<div class='code-badge'><span class='code-num'>{}</span>{}</div>",
                                code, count);
        }
        if (stats.status_codes.size() == 0) {
            html << "<em>No requests yet</em>";
        }''')
T='app/server_stats.cpp'
e(T,'''    std::mt19937 gen(rd());
    std::uniform_int_distribution<uint32_t> dis(0, 0xFFFFFFFF);

    std::stringstream ss;
    ss << std::hex << std::setfill('0') << std::setw(8) << dis(gen);
    return ss.str();''','''    char text[9];
    std::snprintf(text, sizeof text, "%08x", static_cast<unsigned>(rd()));
    return text;''')
e(T,'#include <iomanip>','#include <cstdio>')
e(T,'''            auto res = [&] {
                try {
                    return next(req);
                } catch (...) {
                    stats.status_codes[500]++;  // what the connection answers
                    throw;
                }
            }();
''','''            ion::HttpResponse res{};
            try {
                res = next(req);
            } catch (...) {
                ++stats.status_codes[500];  // what the connection answers
                throw;
            }
''')
e(T,'''            const auto start = std::chrono::steady_clock::now();
''','''            using Clock = std::chrono::steady_clock;
            const Clock::time_point start = Clock::now();
''')
e(T,'''            const auto end = std::chrono::steady_clock::now();
            const auto duration =
                std::chrono::duration_cast<std::chrono::microseconds>(end - start).count();
            stats.total_duration_us += duration;''','''            const std::chrono::duration<int64_t, std::nano> spent = Clock::now() - start;
            stats.total_duration_us += spent.count() / 1000;''')
e('app/test_routes.cpp','''        constexpr size_t content_size = 128 * 1024;
        std::string body(content_size, 'A');

        return ion::HttpResponse{.status_code = 200,
                                 .body = std::vector<uint8_t>{body.begin(), body.end()}};''','''        return ion::HttpResponse{.status_code = 200, .body = std::vector<uint8_t>(0x20000, 'A')};''')
