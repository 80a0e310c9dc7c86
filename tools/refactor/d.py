# refactor D: files, router, access log, app
EDITS=[]
def e(f,a,b): EDITS.append((f,a,b))
F='lib/file_reader.cpp'
e(F,'''    auto pos = path.find_last_of('.');
    if (pos == std::string::npos) {
        return "application/octet-stream";
    }

    std::string ext = path.substr(pos);
    auto it = mime_types.find(ext);
    return it != mime_types.end() ? it->second : "application/octet-stream";''','''    static const std::string fallback = "application/octet-stream";
    if (const auto pos = path.rfind('.'); pos != std::string::npos) {
        if (const auto it = mime_types.find(path.substr(pos)); it != mime_types.cend()) {
            return it->second;
        }
    }
    return fallback;''')
e(F,'''    struct stat st;
    if (stat(path.c_str(), &st) != 0) {
        return false;
    }

    // Check if it's a regular file
    if (!S_ISREG(st.st_mode)) {
        return false;
    }

    // Check if readable
    return access(path.c_str(), R_OK) == 0;''','''    struct stat st {};
    const bool regular = stat(path.c_str(), &st) == 0 && (st.st_mode & S_IFMT) == S_IFREG;
    return regular && !access(path.c_str(), R_OK);''')
e(F,'''        auto base_it = base.begin();
        auto full_it = full.begin();
        for (; base_it != base.end() && full_it != full.end(); ++base_it, ++full_it) {
            if (*base_it != *full_it) {
                spdlog::warn("Directory traversal attempt blocked: {} (base: {})", requested_path,
                             base_dir);
                return std::nullopt;
            }
        }
        // If base has more components than full, full cannot be inside base
        if (base_it != base.end()) {
            spdlog::warn''','''        const auto [base_it, full_it] =
            std::mismatch(base.begin(), base.end(), full.begin(), full.end());
        if (base_it != base.end()) {
            spdlog::warn''')
e(F,'#include <filesystem>','#include <algorithm>\n#include <filesystem>')
e(F,'''        fs::path requested(requested_path);
        fs::path combined = requested.is_absolute() ? requested : (base / requested);
''','''        const fs::path combined = base / fs::path{requested_path};  // an absolute path replaces it
''')
e(F,'''    std::vector<uint8_t> buffer(size);
    if (!file.read(reinterpret_cast<char*>(buffer.data()), size)) {
        spdlog::error("Failed to read file: {}", path);
        return std::nullopt;
    }
''','''    std::vector<uint8_t> buffer;
    buffer.resize(static_cast<size_t>(size));
    file.read(reinterpret_cast<char*>(buffer.data()), size);
    if (file.fail()) {
        spdlog::error("Failed to read file: {}", path);
        return std::nullopt;
    }
''')
e(F,'''    if (std::filesystem::exists(path, ec) && std::filesystem::is_regular_file(path, ec)) {
        auto size = std::filesystem::file_size(path, ec);
        if (!ec) {
            return size;
        }
    }
''','''    if (std::filesystem::is_regular_file(path, ec)) {
        if (const auto size = std::filesystem::file_size(path, ec); !ec) {
            return size;
        }
    }
''')
SF='lib/static_file_handler.cpp'
e(SF,'''    std::string rel_path = url_path.substr(url_prefix_.length());

    // remove query string
    if (const auto query_pos = rel_path.find('?'); query_pos != std::string::npos) {
        rel_path = rel_path.substr(0, query_pos);
    }

    if (rel_path.empty() || rel_path == "/") {
        rel_path = "/index.html";
    }

    if (rel_path.starts_with("/")) {
        rel_path = rel_path.substr(1);
    }

    return rel_path;''','''    std::string_view rest{url_path};
    rest.remove_prefix(url_prefix_.size());
    rest = rest.substr(0, rest.find('?'));
    if (!rest.empty() && rest.front() == '/') {
        rest.remove_prefix(1);
    }
    return rest.empty() ? "index.html" : std::string{rest};''')
e(SF,'''    auto content = FileReader::read_file(path);
    if (!content) {
        spdlog::error("failed to read file: {}", path);
        return HttpResponse{500};
    }

    spdlog::debug("serving static file: {} ({} bytes, {})", path, content->size(), mime_type);
    return HttpResponse{
        .status_code = 200, .body = std::move(*content), .headers = {{"content-type", mime_type}}};''','''    HttpResponse response{500};
    if (auto content = FileReader::read_file(path)) {
        response.status_code = 200;
        response.body.swap(*content);
        response.headers.push_back({"content-type", mime_type});
    }
    return response;''')
e(SF,'''    auto safe_path = FileReader::sanitize_path(filesystem_root_, rel_path);
    if (!safe_path) {
        spdlog::warn("invalid file path requested: {}", path);
        return HttpResponse{403};
    }

    return file_response(*safe_path, is_head);''','''    return FileReader::sanitize_path(filesystem_root_, rel_path)
        .transform([is_head](const std::string& safe) { return file_response(safe, is_head); })
        .value_or(HttpResponse{403});''')
R='lib/router.cpp'
e(R,'''    RouteHandler target = default_handler_;

    bool found = false;
    for (const auto& route : routes_) {
        if (route.path == path && route.method == method) {
            target = route.handler;
            found = true;
            break;
        }
    }

    if (!found) {
        if (method == "GET" || method == "HEAD") {
            for (const auto& handler : static_handlers_) {
                if (handler->matches(path)) {
                    target = [static_handler = handler.get(), path,
                              is_head = method == "HEAD"](const HttpRequest&) -> HttpResponse {
                        return static_handler->handle(path, is_head);
                    };
                }
            }
        }
    }

    return middleware_chain_(std::move(target));''','''    const auto route = std::find_if(routes_.begin(), routes_.end(), [&](const Route& r) {
        return r.method == method && r.path == path;
    });
    if (route != routes_.end()) {
        return middleware_chain_(route->handler);
    }

    const bool is_head = method == "HEAD";
    if (is_head || method == "GET") {
        // the mapping added last wins
        const auto it = std::find_if(static_handlers_.rbegin(), static_handlers_.rend(),
                                     [&path](const auto& h) { return h->matches(path); });
        if (it != static_handlers_.rend()) {
            const StaticFileHandler* handler = it->get();
            return middleware_chain_(
                [handler, path, is_head](const HttpRequest&) { return handler->handle(path, is_head); });
        }
    }
    return middleware_chain_(default_handler_);''')
e(R,'#include "router.h"','#include "router.h"\n\n#include <algorithm>')
e(R,'''    auto current_chain = middleware_chain_;
    middleware_chain_ = [current_chain, mw](RouteHandler h) {
        return current_chain(mw(std::move(h)));
    };''','''    middleware_chain_ = [outer = std::move(middleware_chain_), mw = std::move(mw)](RouteHandler h) {
        auto inner = mw(std::move(h));
        return outer(std::move(inner));
    };''')
e(R,'''    const Route route{path, method, handler};
    routes_.push_back(route);''','''    routes_.emplace_back(Route{path, method, handler});''')
A='lib/access_log.cpp'
e(A,'''    for (const auto& [name, value] : req_headers) {
        if (name == ":method") {
            method = escape(value);
        }
        if (name == ":path") {
            path = escape(value);
        }
        if (name == "user-agent") {
            user_agent = escape(value);
        }
        if (name == "referer") {
            referrer = escape(value);
        }
    }''','''    const std::pair<std::string_view, std::string*> fields[] = {
        {":method", &method}, {":path", &path}, {"user-agent", &user_agent}, {"referer", &referrer}};
    for (const auto& header : req_headers) {
        for (const auto& [name, field] : fields) {
            if (header.name == name) {
                *field = escape(header.value);
                break;
            }
        }
    }''')
e(A,'''        if (c == '"' || c == '\\\\') {
            escaped += '\\\\';
            escaped += c;
        } else if (byte < 0x20 || byte == 0x7f) {
            escaped += std::format("\\\\x{:02x}", byte);
        } else {
            escaped += c;
        }''','''        static constexpr std::string_view digits = "0123456789abcdef";
        if (byte < 0x20 || byte == 0x7f) {
            escaped.append("\\\\x").push_back(digits[byte >> 4]);
            escaped.push_back(digits[byte & 0xf]);
            continue;
        }
        if (std::string_view{"\\"\\\\"}.contains(c)) {
            escaped.push_back('\\\\');
        }
        escaped.push_back(c);''')
SC='lib/server_config.cpp'
e(SC,'''    if (!cleartext) {
        if (!cert_path) {
            throw std::runtime_error("TLS certificate path not set.");
        }
        if (!key_path) {
            throw std::runtime_error("TLS private key path not set.");
        }
    }''','''    if (cleartext) {
        return;
    }
    const auto require = [](bool given, const char* what) {
        if (!given) {
            throw std::runtime_error(std::string("TLS ") + what + " path not set.");
        }
    };
    require(cert_path.has_value(), "certificate");
    require(key_path.has_value(), "private key");''')
AR='app/args.cpp'
e(AR,'''    if (!cert_path.empty()) {
        config.cert_path = cert_path;
    }
    if (!key_path.empty()) {
        config.key_path = key_path;
    }
    return config;''','''    const auto optional_path = [](const auto& p) -> decltype(config.cert_path) {
        if (p.empty()) {
            return std::nullopt;
        }
        return p;
    };
    config.cert_path = optional_path(cert_path);
    config.key_path = optional_path(key_path);
    return config;''')
SS='app/server_stats.cpp'
e(SS,'''            const auto end = std::chrono::steady_clock::now();
            const auto duration =
                std::chrono::duration_cast<std::chrono::microseconds>(end - start).count();
            stats.total_duration_us += duration;
            stats.status_codes[res.status_code]++;
            return res;''','''            const auto elapsed = std::chrono::steady_clock::now() - start;
            ++stats.status_codes[res.status_code];
            stats.total_duration_us += elapsed / std::chrono::microseconds(1);
            return res;''')
SP='app/status_page.cpp'
e(SP,'''    const auto days = total_seconds / 86400;
    total_seconds %= 86400;
    const auto hours = total_seconds / 3600;
    total_seconds %= 3600;
    const auto minutes = total_seconds / 60;
    const auto seconds = total_seconds % 60;

    std::stringstream ss;
    if (days > 0)
        ss << days << "d ";
    if (hours > 0 || days > 0)
        ss << hours << "h ";
    if (minutes > 0 || hours > 0 || days > 0)
        ss << minutes << "m ";
    ss << seconds << "s";

    return ss.str();''','''    std::string text;
    for (const auto& [unit, seconds] : {std::pair{"d ", 86400ULL}, {"h ", 3600ULL}, {"m ", 60ULL}}) {
        if (total_seconds >= seconds || !text.empty()) {
            text += std::to_string(total_seconds / seconds) + unit;
        }
        total_seconds %= seconds;
    }
    return text + std::to_string(total_seconds) + "s";''')
M='app/main.cpp'
e(M,'''                auto res = next(req);

                if (res.status_code == 404) {
                    auto file_res = ion::StaticFileHandler::file_response(
                        args.status_404_file_path, req.method == "HEAD");
                    file_res.status_code = 404;
                    return file_res;
                }
                return res;''','''                ion::HttpResponse res = next(req);
                if (res.status_code != 404) {
                    return res;
                }
                res = ion::StaticFileHandler::file_response(path, req.method == "HEAD");
                res.status_code = 404;
                return res;''')
e(M,'''        router.add_middleware([args](auto next) {
            return [args, next](const auto& req) {''','''        router.add_middleware([path = args.status_404_file_path](auto next) {
            return [path, next](const auto& req) {''')
