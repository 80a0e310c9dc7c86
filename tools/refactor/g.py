# refactor G: server, listener, pollers, transports, router rewritten
EDITS=[]
def e(f,a,b): EDITS.append((f,a,b))
S='lib/http2_server.cpp'
e(S,'''    for (auto it = connections_.begin(); it != connections_.end();) {
        const auto& conn = it->second;
        if (conn->has_timed_out()) {
            spdlog::warn("closing connection due to inactivity (fd: {})", it->first);
            poller.remove(it->first);
            it = connections_.erase(it);
        } else {
            ++it;
        }
    }''','''    std::vector<int> idle;
    for (const auto& [fd, conn] : connections_) {
        if (conn->has_timed_out()) {
            idle.push_back(fd);
        }
    }
    for (const int fd : idle) {
        spdlog::warn("closing connection due to inactivity (fd: {})", fd);
        drop(poller, fd);
    }''')
e(S,'''void Http2Server::handle_incoming_connection(''','''void Http2Server::drop(Poller& poller, int fd) {
    poller.remove(fd);
    connections_.erase(fd);
}

void Http2Server::handle_incoming_connection(''')
e('lib/http2_server.h','''    void handle_connection_events(''','''    void drop(Poller& poller, int fd);
    void dispatch(TcpListener& listener, Poller& poller, const std::vector<PollEvent>& events);
    void handle_connection_events(''')
e('lib/http2_server.h','#include <map>','#include <unordered_map>')
e('lib/http2_server.h','std::map<int,','std::unordered_map<int,')
e(S,'''    const bool at_capacity = connections_.size() >= MAX_CONNECTIONS;
    if (!at_capacity) {
        establish_conn(listener, poller);
    } else {
        if (const auto overflow = listener.try_accept()) {
            spdlog::warn("server at capacity. rejecting new connection from {}",
                         overflow->client_ip().value_or("unknown IP"));
        }
    }''','''    if (connections_.size() < MAX_CONNECTIONS) {
        return establish_conn(listener, poller);
    }
    auto overflow = listener.try_accept();
    if (!overflow.has_value()) {
        return;
    }
    const auto who = overflow->client_ip();
    overflow->close();
    spdlog::warn("server at capacity. rejecting new connection from {}",
                 who ? *who : std::string{"unknown IP"});''')
e(S,'''    if (has_event(poll_events, PollEventType::Error) ||
        has_event(poll_events, PollEventType::Hangup)) {
        spdlog::debug("poll indicated connection closed");
        connections_.erase(it);
        poller.remove(fd);
        return;
    }

    if (!has_event(poll_events, PollEventType::Read) &&
        !has_event(poll_events, PollEventType::Write)) {
        return;
    }

    // assume we are not write blocked until WantWrite occurs again
    if (has_event(poll_events, PollEventType::Write)) {
        poller.set(fd, PollEventType::Read);
    }

    const auto& conn = it->second;
    switch (conn->process()) {
        case Http2ProcessResult::WantWrite:
            spdlog::trace("will poll write events for fd {}", fd);
            poller.set(fd, PollEventType::Read | PollEventType::Write);
            break;
        case Http2ProcessResult::WantRead:
            // interest is already Read (or was reset above), just keep waiting
            break;
        case Http2ProcessResult::DiscardConnection:
            spdlog::info("closing connection");
            poller.remove(fd);
            connections_.erase(it);
            break;
    }''','''    const auto seen = std::to_underlying(poll_events);
    constexpr auto broken = std::to_underlying(PollEventType::Error | PollEventType::Hangup);
    constexpr auto ready = std::to_underlying(PollEventType::Read | PollEventType::Write);
    if ((seen & broken) != 0) {
        spdlog::debug("poll indicated connection closed");
        drop(poller, fd);
        return;
    }
    if ((seen & ready) == 0) {
        return;
    }

    const auto outcome = it->second->process();
    if (outcome == Http2ProcessResult::DiscardConnection) {
        spdlog::info("closing connection");
        drop(poller, fd);
        return;
    }
    // interest in write events lasts only as long as the connection is write blocked
    const auto interest = outcome == Http2ProcessResult::WantWrite
                              ? PollEventType::Read | PollEventType::Write
                              : PollEventType::Read;
    if (outcome == Http2ProcessResult::WantWrite || has_event(poll_events, PollEventType::Write)) {
        poller.set(fd, interest);
    }''')
e('lib/pollers/poller.h','inline PollEventType operator&','constexpr PollEventType operator&')
e('lib/pollers/poller.h','inline PollEventType operator|(','constexpr PollEventType operator|(')
e(S,'''    while (!user_req_termination_) {
        reap_idle_connections(*poller);

        auto events = poller->poll(POLL_TIMEOUT);
        if (!events) {
            continue;
        }
        for (auto& [fd, poll_events] : *events) {
            if (fd == listener_fd) {
                handle_incoming_connection(listener, *poller);
            } else {
                handle_connection_events(*poller, fd, poll_events);
            }
        }
    }
''','''    for (;;) {
        if (user_req_termination_) {
            break;
        }
        reap_idle_connections(*poller);
        if (const auto events = poller->poll(POLL_TIMEOUT); events.has_value()) {
            dispatch(listener, *poller, events.value());
        }
    }
''')
e(S,'''void Http2Server::start(uint16_t port) {''','''void Http2Server::dispatch(TcpListener& listener, Poller& poller,
                           const std::vector<PollEvent>& events) {
    const int listener_fd = listener.raw_fd();
    std::for_each(events.cbegin(), events.cend(), [&](const PollEvent& event) {
        event.fd == listener_fd ? handle_incoming_connection(listener, poller)
                                : handle_connection_events(poller, event.fd, event.events);
    });
}

void Http2Server::start(uint16_t port) {''')
e(S,'#include <optional>','#include <algorithm>\n#include <optional>\n#include <utility>\n#include <vector>')
e(S,'''    connections_[raw_fd] = std::move(conn);
''','''    connections_.insert_or_assign(raw_fd, std::move(conn));
''')
e(S,'''    std::unique_ptr<Transport> transport;
    try {
        transport = create_transport(std::move(fd.value()));
    } catch (const std::runtime_error& e) {
        spdlog::error("dropping client: {}", e.what());
        return;
    }
''','''    auto transport = [&]() -> std::unique_ptr<Transport> {
        try {
            return create_transport(std::move(*fd));
        } catch (const std::runtime_error& e) {
            spdlog::error("dropping client: {}", e.what());
        }
        return nullptr;
    }();
    if (!transport) {
        return;
    }
''')
# listener
L='lib/tcp_listener.cpp'
e(L,'''    const int fd = ::accept(server_fd_, reinterpret_cast<sockaddr*>(&client_addr), &client_len);
    if (fd >= 0) {
        auto client_fd = SocketFd(fd);
        try {
            set_nonblocking_socket(
                client_fd);  // required for Linux. macOS inherits from server_fd!
        } catch (const std::system_error& e) {
            spdlog::error("dropping client: {}", e.what());
            return std::nullopt;
        }
        set_tcp_no_delay(client_fd);
        return client_fd;
    }

    switch (errno) {
        case EBADF:
        case EFAULT:
        case EINVAL:
        case ENOTSOCK:
            // the listening socket itself is unusable
            throw std::system_error(errno, std::system_category(), "accept");
        case EAGAIN:
        case EINTR:
            return std::nullopt;
        default:
            // the client went away, the network failed or resources ran out: try again later
            spdlog::warn("accept failed: {}", strerror(errno));
            return std::nullopt;
    }''','''    SocketFd client_fd{
        ::accept(server_fd_, reinterpret_cast<sockaddr*>(&client_addr), &client_len)};
    if (client_fd == -1) {
        const int err = errno;
        if (err == EBADF || err == EFAULT || err == EINVAL || err == ENOTSOCK) {
            throw std::system_error(err, std::system_category(), "accept");
        }
        if (err != EAGAIN && err != EINTR) {
            spdlog::warn("accept failed: {}", std::system_category().message(err));
        }
        return {};
    }
    const int flags = fcntl(client_fd, F_GETFL);
    if (flags == -1 || fcntl(client_fd, F_SETFL, O_NONBLOCK | flags) == -1) {
        spdlog::error("dropping client: {}", strerror(errno));
        return {};
    }
    set_tcp_no_delay(client_fd);
    return std::make_optional(std::move(client_fd));''')
e(L,'''TcpListener::TcpListener(uint16_t port) {
    const int server_fd = socket(AF_INET, SOCK_STREAM, 0);
    if (server_fd < 0) {
        throw std::system_error(errno, std::system_category(), "socket");
    }
    server_fd_ = SocketFd(server_fd);
''','''static int open_socket() {
    if (const int fd = socket(AF_INET, SOCK_STREAM, IPPROTO_TCP); fd >= 0) {
        return fd;
    }
    throw std::system_error(errno, std::system_category(), "socket");
}

TcpListener::TcpListener(uint16_t port) : server_fd_(open_socket()) {
''')
e(L,'''    sockaddr_in addr{};
    addr.sin_family = AF_INET;
    addr.sin_addr.s_addr = INADDR_ANY;
    addr.sin_port = htons(port);
''','''    sockaddr_in addr;
    memset(&addr, 0, sizeof addr);
    addr.sin_family = AF_INET;
    addr.sin_addr.s_addr = htonl(INADDR_ANY);
    addr.sin_port = htons(port);
''')
# socket_fd
F='lib/socket_fd.cpp'
e(F,'''SocketFd::SocketFd(SocketFd&& other) noexcept : fd_(other.fd_) {
    other.fd_ = -1;
}''','''SocketFd::SocketFd(SocketFd&& other) noexcept : fd_(std::exchange(other.fd_, -1)) {}''')
e(F,'''    if (this != &other) {
        close();
        fd_ = other.fd_;
        other.fd_ = -1;
    }
    return *this;''','''    SocketFd taken{std::move(other)};
    std::swap(fd_, taken.fd_);
    return *this;''')
e(F,'#include <unistd.h>','#include <unistd.h>\n\n#include <array>\n#include <utility>')
e(F,'''    char ip_str[INET6_ADDRSTRLEN];
    if (addr.ss_family == AF_INET) {
        auto* s = reinterpret_cast<sockaddr_in*>(&addr);
        inet_ntop(AF_INET, &s->sin_addr, ip_str, sizeof(ip_str));
    } else if (addr.ss_family == AF_INET6) {
        auto* s = reinterpret_cast<sockaddr_in6*>(&addr);
        inet_ntop(AF_INET6, &s->sin6_addr, ip_str, sizeof(ip_str));
    } else {
        spdlog::error("unknown ss_family: {}", addr.ss_family);
        return std::unexpected(ClientIpError::UnknownIpFormat);
    }
    return std::string(ip_str);''','''    const void* source = nullptr;
    switch (addr.ss_family) {
        case AF_INET:
            source = &reinterpret_cast<const sockaddr_in*>(&addr)->sin_addr;
            break;
        case AF_INET6:
            source = &reinterpret_cast<const sockaddr_in6*>(&addr)->sin6_addr;
            break;
        default:
            spdlog::error("unknown ss_family: {}", addr.ss_family);
            return std::unexpected(ClientIpError::UnknownIpFormat);
    }
    std::array<char, INET6_ADDRSTRLEN> ip{};
    return std::string{inet_ntop(addr.ss_family, source, ip.data(), ip.size())};''')
# epoll
E='lib/pollers/epoll_poller.cpp'
e(E,'''    const int op = registered_fds_.contains(fd) ? EPOLL_CTL_MOD : EPOLL_CTL_ADD;

    int result = epoll_ctl(epoll_fd_, op, fd, &ev);
    if (result < 0 && op == EPOLL_CTL_MOD && errno == ENOENT) {
        // the descriptor registered before was closed and its number has been reused
        result = epoll_ctl(epoll_fd_, EPOLL_CTL_ADD, fd, &ev);
    }
    if (result < 0) {
        spdlog::warn("epoll_ctl: failed (fd: {}): {}", fd, strerror(errno));
        return false;
    }
    registered_fds_[fd] = event_types;
    return true;''','''    // add first: a number may have been closed and reused behind our back
    int result = epoll_ctl(epoll_fd_, EPOLL_CTL_ADD, fd, &ev);
    if (result != 0 && errno == EEXIST) {
        result = epoll_ctl(epoll_fd_, EPOLL_CTL_MOD, fd, &ev);
    }
    if (result != 0) {
        spdlog::warn("epoll_ctl: failed (fd: {}): {}", fd, strerror(errno));
    }
    return result == 0;''')
e(E,'''    registered_fds_.erase(fd);
''','')
e('lib/pollers/epoll_poller.h','    std::unordered_map<int, PollEventType> registered_fds_{};\n','')
e(E,'''    std::vector<PollEvent> result;
    result.reserve(num_events);
    for (int i = 0; i < num_events; ++i) {
        result.push_back({events_buffer_[i].data.fd, from_epoll_events(events_buffer_[i].events)});
    }
''','''    const std::span<const epoll_event> fired{events_buffer_.data(),
                                             static_cast<size_t>(num_events)};
    std::vector<PollEvent> result(fired.size());
    std::ranges::transform(fired, result.begin(), [](const epoll_event& ev) {
        return PollEvent{.fd = ev.data.fd, .events = from_epoll_events(ev.events)};
    });
''')
e(E,'#include <system_error>','#include <algorithm>\n#include <span>\n#include <system_error>')
e(E,'''    auto result = PollEventType::None;
    if (events & EPOLLIN) {
        result |= PollEventType::Read;
    }
    if (events & EPOLLOUT) {
        result |= PollEventType::Write;
    }
    if (events & EPOLLHUP) {
        result |= PollEventType::Hangup;
    }
    if (events & EPOLLERR) {
        result |= PollEventType::Error;
    }
    return result;''','''    static constexpr std::pair<uint32_t, PollEventType> table[] = {
        {EPOLLIN, PollEventType::Read},
        {EPOLLOUT, PollEventType::Write},
        {EPOLLHUP, PollEventType::Hangup},
        {EPOLLERR, PollEventType::Error},
    };
    auto result = PollEventType::None;
    for (const auto& [bit, type] : table) {
        if ((events & bit) == bit) {
            result |= type;
        }
    }
    return result;''')
# poll
P='lib/pollers/poll_poller.cpp'
e(P,'''    std::vector<PollEvent> result{};
    result.reserve(poll_fds.size());
    for (const auto& pfd : poll_fds) {
        result.push_back({pfd.fd, event_to_poll_event(pfd.revents)});
    }
    return result;''','''    std::vector<PollEvent> result{};
    result.reserve(static_cast<size_t>(ret));
    for (const auto& pfd : poll_fds) {
        if (pfd.revents != 0) {
            result.push_back({pfd.fd, event_to_poll_event(pfd.revents)});
        }
    }
    return result;''')
e('lib/pollers/poll_poller.h','#include <unordered_map>','#include <map>')
e('lib/pollers/poll_poller.h','std::unordered_map<','std::map<')
# tcp transport
T='lib/transports/tcp_transport.cpp'
e(T,'''    const auto bytes_read = ::read(client_fd_, buffer.data(), buffer.size());
    if (bytes_read < 0) {
        if (errno == EAGAIN || errno == EWOULDBLOCK) {
            spdlog::trace("TCP want read");
            return std::unexpected(TransportError::WantReadOrWrite);
        }
        spdlog::error("TCP read error: {}", strerror(errno));
        return std::unexpected(TransportError::OtherError);
    }
    if (bytes_read == 0) {
        spdlog::debug("TCP connection closed");
        return std::unexpected(TransportError::ConnectionClosed);
    }
    spdlog::trace("successfully read {} bytes from TCP socket", bytes_read);
    return bytes_read;''','''    const auto bytes_read = ::recv(client_fd_, buffer.data(), buffer.size(), 0);
    if (bytes_read > 0) {
        spdlog::trace("successfully read {} bytes from TCP socket", bytes_read);
        return bytes_read;
    }
    if (bytes_read == 0) {
        spdlog::debug("TCP connection closed");
        return std::unexpected(TransportError::ConnectionClosed);
    }
    const int err = errno;
    const bool again = err == EWOULDBLOCK || err == EAGAIN;
    if (!again) {
        spdlog::error("TCP read error: {}", strerror(err));
    }
    return std::unexpected(again ? TransportError::WantReadOrWrite : TransportError::OtherError);''')
e(T,'''    const auto bytes_written = ::write(client_fd_, buffer.data(), buffer.size());
    if (bytes_written < 0) {
        if (errno == EAGAIN || errno == EWOULDBLOCK) {
            spdlog::trace("TCP want write");
            return std::unexpected(TransportError::WantReadOrWrite);
        }
        spdlog::error("TCP write error: {}", strerror(errno));
        return std::unexpected(TransportError::WriteError);
    }
    spdlog::trace("successfully wrote {} bytes to TCP socket", bytes_written);
    return bytes_written;''','''    const auto bytes_written = ::send(client_fd_, buffer.data(), buffer.size(), MSG_NOSIGNAL);
    if (bytes_written >= 0) {
        spdlog::trace("successfully wrote {} bytes to TCP socket", bytes_written);
        return bytes_written;
    }
    switch (errno) {
        case EAGAIN:
            spdlog::trace("TCP want write");
            return std::unexpected(TransportError::WantReadOrWrite);
        default:
            spdlog::error("TCP write error: {}", strerror(errno));
            return std::unexpected(TransportError::WriteError);
    }''')
e(T,'''TcpTransport::TcpTransport(TcpTransport&& other) noexcept
    : client_fd_(std::move(other.client_fd_)) {}

TcpTransport& TcpTransport::operator=(TcpTransport&& other) noexcept {
    if (this != &other) {
        client_fd_ = std::move(other.client_fd_);
    }
    return *this;
}
''','''TcpTransport::TcpTransport(TcpTransport&& other) noexcept = default;

TcpTransport& TcpTransport::operator=(TcpTransport&& other) noexcept = default;
''')
# TLS
X='lib/transports/tls_transport.cpp'
e('lib/transports/tls_transport.h','''    SSL* ssl_ = nullptr;
''','''    struct Free {
        void operator()(SSL* ssl) const {
            SSL_free(ssl);
        }
    };
    std::unique_ptr<SSL, Free> owned_;
    SSL* ssl_ = nullptr;
''')
e('lib/transports/tls_transport.h','#include <filesystem>','#include <filesystem>\n#include <memory>')
e(X,'''    : client_fd_(std::move(other.client_fd_)), ssl_(std::exchange(other.ssl_, nullptr)) {}''','''    : client_fd_(std::move(other.client_fd_)),
      owned_(std::move(other.owned_)),
      ssl_(std::exchange(other.ssl_, nullptr)) {}''')
e(X,'''    if (ssl_) {
        SSL_free(ssl_);
        ssl_ = nullptr;
    }
    client_fd_ = std::move(other.client_fd_);
''','''    owned_ = std::move(other.owned_);
    client_fd_ = std::move(other.client_fd_);
''')
e(X,'''    ssl_ = tls_context.create_ssl();

    if (SSL_set_fd(ssl_, client_fd_) != 1) {
        SSL_free(ssl_);
        throw''','''    owned_.reset(tls_context.create_ssl());
    ssl_ = owned_.get();

    if (!SSL_set_fd(ssl_, client_fd_)) {
        throw''')
e(X,'''    if (ssl_) {
        spdlog::debug("freeing OpenSSL");
        SSL_free(ssl_);
        ssl_ = nullptr;
    }
}

void TlsTransport::graceful''','''    if (owned_) {
        spdlog::debug("freeing OpenSSL");
    }
}

void TlsTransport::graceful''')
e(X,'''    if (bytes_read <= 0) {
        switch (const int ssl_error = SSL_get_error(ssl_, bytes_read)) {
            case SSL_ERROR_WANT_READ:
                spdlog::trace("SSL want read");
                return std::unexpected(TransportError::WantReadOrWrite);
            case SSL_ERROR_WANT_WRITE:
                spdlog::trace("SSL want write");
                return std::unexpected(TransportError::WantReadOrWrite);
            case SSL_ERROR_ZERO_RETURN:
                spdlog::debug("TLS connection closed");
                return std::unexpected(TransportError::ConnectionClosed);
            case SSL_ERROR_SSL:
                spdlog::error("TLS protocol error (SSL_ERROR_SSL)");
                return std::unexpected(TransportError::ProtocolError);
            default:
                spdlog::error("TLS read error (SSL_ERROR_*): {}", ssl_error);
                return std::unexpected(TransportError::OtherError);
        }
    }''','''    if (bytes_read <= 0) {
        return std::unexpected(
            classify(SSL_get_error(ssl_, bytes_read), TransportError::OtherError));
    }''')
e(X,'''    if (bytes_written < 0) {
        switch (const int ssl_error = SSL_get_error(ssl_, bytes_written)) {
            case SSL_ERROR_WANT_READ:
                spdlog::trace("SSL want read");
                return std::unexpected(TransportError::WantReadOrWrite);
            case SSL_ERROR_WANT_WRITE:
                spdlog::trace("SSL want write");
                return std::unexpected(TransportError::WantReadOrWrite);
            case SSL_ERROR_ZERO_RETURN:
                spdlog::debug("TLS connection closed");
                return std::unexpected(TransportError::ConnectionClosed);
            case SSL_ERROR_SSL:
                spdlog::error("TLS protocol error (SSL_ERROR_SSL)");
                return std::unexpected(TransportError::ProtocolError);
            default:
                spdlog::error("TLS protocol error (SSL_ERROR={})", ssl_error);
                return std::unexpected(TransportError::ProtocolError);
        }
    }''','''    if (bytes_written < 0) {
        return std::unexpected(
            classify(SSL_get_error(ssl_, bytes_written), TransportError::ProtocolError));
    }''')
e(X,'''TlsTransport::TlsTransport(TlsTransport&& other)''','''static TransportError classify(int ssl_error, TransportError otherwise) {
    switch (ssl_error) {
        case SSL_ERROR_WANT_READ:
        case SSL_ERROR_WANT_WRITE:
            return TransportError::WantReadOrWrite;
        case SSL_ERROR_ZERO_RETURN:
            spdlog::debug("TLS connection closed");
            return TransportError::ConnectionClosed;
        case SSL_ERROR_SSL:
            spdlog::error("TLS protocol error (SSL_ERROR_SSL)");
            return TransportError::ProtocolError;
        default:
            spdlog::error("TLS error (SSL_ERROR={})", ssl_error);
            return otherwise;
    }
}

TlsTransport::TlsTransport(TlsTransport&& other)''')
e(X,'''    const int result = SSL_accept(ssl_);
    if (result == 1) {
        return {};
    }

    switch (const int ssl_error = SSL_get_error(ssl_, result)) {''','''    SSL_set_accept_state(ssl_);
    const int result = SSL_do_handshake(ssl_);
    if (result == 1) {
        return {};
    }

    switch (const int ssl_error = SSL_get_error(ssl_, result)) {''')
# tls context
C='lib/transports/tls_context.cpp'
e(C,'''    if (SSL_CTX_use_certificate_file(ctx_, cert_path.c_str(), SSL_FILETYPE_PEM) <= 0) {
        SSL_CTX_free(ctx_);
        throw std::runtime_error("failed to load certificate file");
    }

    if (SSL_CTX_use_PrivateKey_file(ctx_, key_path.c_str(), SSL_FILETYPE_PEM) <= 0) {
        SSL_CTX_free(ctx_);
        throw std::runtime_error("failed to load private key file");
    }

    if (!SSL_CTX_check_private_key(ctx_)) {
        SSL_CTX_free(ctx_);
        throw std::runtime_error("private key does not match certificate");
    }
''','''    const auto require = [this](bool ok, const char* message) {
        if (!ok) {
            SSL_CTX_free(std::exchange(ctx_, nullptr));
            throw std::runtime_error(message);
        }
    };
    require(SSL_CTX_use_certificate_file(ctx_, cert_path.c_str(), SSL_FILETYPE_PEM) == 1,
            "failed to load certificate file");
    require(SSL_CTX_use_PrivateKey_file(ctx_, key_path.c_str(), SSL_FILETYPE_PEM) == 1,
            "failed to load private key file");
    require(SSL_CTX_check_private_key(ctx_) == 1, "private key does not match certificate");
''')
e(C,'#include <fstream>','#include <fstream>\n#include <utility>')
e(C,'''    const int result =
        SSL_select_next_proto(const_cast<unsigned char**>(out), outlen, supported_protos.data(),
                              supported_protos.size(), in, inlen);
    if (result == OPENSSL_NPN_NEGOTIATED) {
        spdlog::debug("ALPN negotiated: {}",
                      std::string(reinterpret_cast<const char*>(*out), *outlen));
        return SSL_TLSEXT_ERR_OK;
    }

    *outlen = supported_protos[0];
    *out = supported_protos.data() + 1;
    spdlog::debug("ALPN negotiation failed, using default: {}",
                  std::string(reinterpret_cast<const char*>(*out), *outlen));
    return SSL_TLSEXT_ERR_OK;''','''    // HTTP/2 is all that is spoken here, whatever the client offers
    (void)in;
    (void)inlen;
    *out = &supported_protos[1];
    *outlen = supported_protos.front();
    return SSL_TLSEXT_ERR_OK;''')
# router
R='lib/router.cpp'
e(R,'''    RouteHandler target = default_handler_;

    bool found = false;
    for (const auto& route : routes_) {
        if (route.path == path && route.method == method) {
            target = route.handler;
            found = true;
            break;
        }
    }

    if (!found) {
        if (method == "GET" || method == "HEAD") {
            for (const auto& handler : static_handlers_) {
                if (handler->matches(path)) {
                    target = [static_handler = handler.get(), path,
                              is_head = method == "HEAD"](const HttpRequest&) -> HttpResponse {
                        return static_handler->handle(path, is_head);
                    };
                }
            }
        }
    }

    return middleware_chain_(std::move(target));''','''    RouteHandler target = find_target(path, method);
    for (auto mw = middlewares_.rbegin(); mw != middlewares_.rend(); ++mw) {
        target = (*mw)(std::move(target));
    }
    return target;''')
e(R,'''RouteHandler Router::get_handler(''','''RouteHandler Router::find_target(const std::string& path, const std::string& method) const {
    const auto route = std::ranges::find_if(routes_, [&](const Route& r) {
        return std::tie(r.path, r.method) == std::tie(path, method);
    });
    if (route != routes_.end()) {
        return route->handler;
    }
    const bool head = method == "HEAD";
    if (!head && method != "GET") {
        return default_handler_;
    }
    // the handler added last wins
    const auto hit = std::find_if(static_handlers_.rbegin(), static_handlers_.rend(),
                                  [&](const auto& h) { return h->matches(path); });
    if (hit == static_handlers_.rend()) {
        return default_handler_;
    }
    return [h = hit->get(), path, head](const HttpRequest&) { return h->handle(path, head); };
}

RouteHandler Router::get_handler(''')
e(R,'''    auto current_chain = middleware_chain_;
    middleware_chain_ = [current_chain, mw](RouteHandler h) {
        return current_chain(mw(std::move(h)));
    };''','''    middlewares_.emplace_back(std::move(mw));''')
e(R,'#include "router.h"\n','#include "router.h"\n\n#include <algorithm>\n#include <tuple>\n')
e('lib/router.h','''    Middleware middleware_chain_ = [](auto handler) { return handler; };''','''    std::vector<Middleware> middlewares_;

    RouteHandler find_target(const std::string& path, const std::string& method) const;''')
