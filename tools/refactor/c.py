# refactor C: server, pollers, transports, descriptors
EDITS=[]
def e(f,a,b): EDITS.append((f,a,b))
S='lib/http2_server.cpp'; SH='lib/http2_server.h'
e(SH,'std::map<int, std::unique_ptr<Http2Connection>> connections_;','std::unordered_map<int, std::unique_ptr<Http2Connection>> connections_;')
e(SH,'#include <map>','#include <unordered_map>')
e(SH,'    void reap_idle_connections(Poller& poller);','    void reap_idle_connections(Poller& poller);\n    void drop_connection(Poller& poller, int fd);')
e(S,'''    for (auto it = connections_.begin(); it != connections_.end();) {
        const auto& conn = it->second;
        if (conn->has_timed_out()) {
            spdlog::warn("closing connection due to inactivity (fd: {})", it->first);
            poller.remove(it->first);
            it = connections_.erase(it);
        } else {
            ++it;
        }
    }''','''    std::vector<int> idle;
    for (const auto& [fd, conn] : connections_) {
        if (conn->has_timed_out()) {
            idle.push_back(fd);
        }
    }
    for (const int fd : idle) {
        spdlog::warn("closing connection due to inactivity (fd: {})", fd);
        drop_connection(poller, fd);
    }''')
e(S,'''void Http2Server::reap_idle''','''void Http2Server::drop_connection(Poller& poller, int fd) {
    poller.remove(fd);
    connections_.erase(fd);
}

void Http2Server::reap_idle''')
e(S,'''    const bool at_capacity = connections_.size() >= MAX_CONNECTIONS;
    if (!at_capacity) {
        establish_conn(listener, poller);
    } else {
        if (const auto overflow = listener.try_accept()) {
            spdlog::warn("server at capacity. rejecting new connection from {}",
                         overflow->client_ip().value_or("unknown IP"));
        }
    }''','''    if (connections_.size() < MAX_CONNECTIONS) {
        establish_conn(listener, poller);
        return;
    }
    auto overflow = listener.try_accept();
    if (overflow.has_value()) {
        spdlog::warn("server at capacity. rejecting new connection");
        overflow->close();
    }''')
e(S,'''    if (has_event(poll_events, PollEventType::Error) ||
        has_event(poll_events, PollEventType::Hangup)) {
        spdlog::debug("poll indicated connection closed");
        connections_.erase(it);
        poller.remove(fd);
        return;
    }

    if (!has_event(poll_events, PollEventType::Read) &&
        !has_event(poll_events, PollEventType::Write)) {
        return;
    }
''','''    const auto is_set = [poll_events](PollEventType t) { return has_event(poll_events, t); };
    if (is_set(PollEventType::Error) || is_set(PollEventType::Hangup)) {
        spdlog::debug("poll indicated connection closed");
        drop_connection(poller, fd);
        return;
    }
    if (!(is_set(PollEventType::Read) || is_set(PollEventType::Write))) {
        return;
    }
''')
e(S,'''    const auto& conn = it->second;
    switch (conn->process()) {
        case Http2ProcessResult::WantWrite:
            spdlog::trace("will poll write events for fd {}", fd);
            poller.set(fd, PollEventType::Read | PollEventType::Write);
            break;
        case Http2ProcessResult::WantRead:
            // interest is already Read (or was reset above), just keep waiting
            break;
        case Http2ProcessResult::DiscardConnection:
            spdlog::info("closing connection");
            poller.remove(fd);
            connections_.erase(it);
            break;
    }''','''    const auto result = it->second->process();
    if (result == Http2ProcessResult::DiscardConnection) {
        spdlog::info("closing connection");
        drop_connection(poller, fd);
    } else if (result == Http2ProcessResult::WantWrite) {
        poller.set(fd, PollEventType::Write | PollEventType::Read);
    }''')
e(S,'''        auto events = poller->poll(POLL_TIMEOUT);
        if (!events) {
            continue;
        }
        for (auto& [fd, poll_events] : *events) {
            if (fd == listener_fd) {
                handle_incoming_connection(listener, *poller);
            } else {
                handle_connection_events(*poller, fd, poll_events);
            }
        }''','''        if (const auto events = poller->poll(POLL_TIMEOUT); events.has_value()) {
            std::ranges::for_each(*events, [&](const PollEvent& ev) {
                if (ev.fd != listener_fd) {
                    handle_connection_events(*poller, ev.fd, ev.events);
                    return;
                }
                handle_incoming_connection(listener, *poller);
            });
        }''')
e(S,'#include <optional>','#include <algorithm>\n#include <optional>')
e(S,'''    connections_[raw_fd] = std::move(conn);''','''    connections_.insert_or_assign(raw_fd, std::move(conn));''')
e(S,'''    if (config_.cleartext) {
        return std::make_unique<TcpTransport>(std::move(fd));
    }
    return std::make_unique<TlsTransport>(std::move(fd), *tls_ctx_);''','''    if (tls_ctx_.has_value()) {
        return std::make_unique<TlsTransport>(std::move(fd), tls_ctx_.value());
    }
    return std::make_unique<TcpTransport>(std::move(fd));''')
EP='lib/pollers/epoll_poller.cpp'
e(EP,'''    const int op = registered_fds_.contains(fd) ? EPOLL_CTL_MOD : EPOLL_CTL_ADD;

    int result = epoll_ctl(epoll_fd_, op, fd, &ev);
    if (result < 0 && op == EPOLL_CTL_MOD && errno == ENOENT) {
        // the descriptor registered before was closed and its number has been reused
        result = epoll_ctl(epoll_fd_, EPOLL_CTL_ADD, fd, &ev);
    }
    if (result < 0) {''','''    const bool known = registered_fds_.find(fd) != registered_fds_.end();
    bool ok = epoll_ctl(epoll_fd_, known ? EPOLL_CTL_MOD : EPOLL_CTL_ADD, fd, &ev) == 0;
    if (known && !ok && errno == ENOENT) {
        ok = epoll_ctl(epoll_fd_, EPOLL_CTL_ADD, fd, &ev) == 0;
    }
    if (!ok) {''')
e(EP,'''    registered_fds_[fd] = event_types;
    return true;''','''    registered_fds_.insert_or_assign(fd, event_types);
    return true;''')
e(EP,'''    if (num_events == 0) {
        return std::unexpected{PollError::Timeout};
    }
    if (num_events < 0) {
        if (errno == EINTR) {
            return std::unexpected{PollError::InterruptedBySignal};
        }
        return std::unexpected{PollError::Error};
    }

    std::vector<PollEvent> result;
    result.reserve(num_events);
    for (int i = 0; i < num_events; ++i) {
        result.push_back({events_buffer_[i].data.fd, from_epoll_events(events_buffer_[i].events)});
    }
''','''    if (num_events < 0) {
        return std::unexpected{errno == EINTR ? PollError::InterruptedBySignal : PollError::Error};
    }
    if (num_events == 0) {
        return std::unexpected{PollError::Timeout};
    }

    std::vector<PollEvent> result(num_events);
    std::transform(events_buffer_.begin(), events_buffer_.begin() + num_events, result.begin(),
                   [](const epoll_event& ev) {
                       return PollEvent{ev.data.fd, from_epoll_events(ev.events)};
                   });
''')
e(EP,'#include <system_error>','#include <algorithm>\n#include <system_error>')
e(EP,'''    auto result = PollEventType::None;
    if (events & EPOLLIN) {
        result |= PollEventType::Read;
    }
    if (events & EPOLLOUT) {
        result |= PollEventType::Write;
    }
    if (events & EPOLLHUP) {
        result |= PollEventType::Hangup;
    }
    if (events & EPOLLERR) {
        result |= PollEventType::Error;
    }
    return result;''','''    static constexpr std::pair<uint32_t, PollEventType> table[] = {
        {EPOLLIN, PollEventType::Read},
        {EPOLLOUT, PollEventType::Write},
        {EPOLLHUP, PollEventType::Hangup},
        {EPOLLERR, PollEventType::Error},
    };
    auto result = PollEventType::None;
    for (const auto& [bit, type] : table) {
        if ((events & bit) != 0) {
            result |= type;
        }
    }
    return result;''')
PP='lib/pollers/poll_poller.cpp'
e(PP,'''    for (const auto& [fd, event_types] : fd_events_) {
        poll_fds.push_back({fd, event_from_poll_event(event_types), 0});
    }''','''    std::transform(fd_events_.begin(), fd_events_.end(), std::back_inserter(poll_fds),
                   [](const auto& entry) {
                       return pollfd{entry.first, event_from_poll_event(entry.second), 0};
                   });''')
e(PP,'#include <poll.h>','#include <poll.h>\n\n#include <algorithm>\n#include <iterator>')
e(PP,'''    for (const auto& pfd : poll_fds) {
        result.push_back({pfd.fd, event_to_poll_event(pfd.revents)});
    }''','''    for (const auto& pfd : poll_fds) {
        if (pfd.revents == 0) {
            continue;  // nothing happened there
        }
        result.push_back({pfd.fd, event_to_poll_event(pfd.revents)});
    }''')
L='lib/tcp_listener.cpp'
e(L,'''    switch (errno) {
        case EBADF:
        case EFAULT:
        case EINVAL:
        case ENOTSOCK:
            // the listening socket itself is unusable
            throw std::system_error(errno, std::system_category(), "accept");
        case EAGAIN:
        case EINTR:
            return std::nullopt;
        default:
            // the client went away, the network failed or resources ran out: try again later
            spdlog::warn("accept failed: {}", strerror(errno));
            return std::nullopt;
    }''','''    const int error = errno;
    const bool unusable =
        error == EBADF || error == EFAULT || error == EINVAL || error == ENOTSOCK;
    if (unusable) {
        throw std::system_error(error, std::system_category(), "accept");
    }
    if (error != EAGAIN && error != EINTR) {
        spdlog::warn("accept failed: {}", strerror(error));
    }
    return std::nullopt;''')
e(L,'''    const int fd = ::accept(server_fd_, reinterpret_cast<sockaddr*>(&client_addr), &client_len);
    if (fd >= 0) {
        auto client_fd = SocketFd(fd);''','''    if (const int fd = ::accept(server_fd_, reinterpret_cast<sockaddr*>(&client_addr), &client_len);
        fd >= 0) {
        SocketFd client_fd{fd};''')
TC='lib/transports/tcp_transport.cpp'
e(TC,'''    if (bytes_read < 0) {
        if (errno == EAGAIN || errno == EWOULDBLOCK) {
            spdlog::trace("TCP want read");
            return std::unexpected(TransportError::WantReadOrWrite);
        }
        spdlog::error("TCP read error: {}", strerror(errno));
        return std::unexpected(TransportError::OtherError);
    }
    if (bytes_read == 0) {
        spdlog::debug("TCP connection closed");
        return std::unexpected(TransportError::ConnectionClosed);
    }
    spdlog::trace("successfully read {} bytes from TCP socket", bytes_read);
    return bytes_read;''','''    if (bytes_read > 0) {
        return bytes_read;
    }
    if (bytes_read == 0) {
        return std::unexpected(TransportError::ConnectionClosed);
    }
    return std::unexpected(would_block(errno) ? TransportError::WantReadOrWrite
                                              : TransportError::OtherError);''')
e(TC,'''    if (bytes_written < 0) {
        if (errno == EAGAIN || errno == EWOULDBLOCK) {
            spdlog::trace("TCP want write");
            return std::unexpected(TransportError::WantReadOrWrite);
        }
        spdlog::error("TCP write error: {}", strerror(errno));
        return std::unexpected(TransportError::WriteError);
    }''','''    if (bytes_written < 0) {
        return std::unexpected(would_block(errno) ? TransportError::WantReadOrWrite
                                                  : TransportError::WriteError);
    }''')
e(TC,'''TcpTransport::TcpTransport(SocketFd&& client_fd) :''','''static bool would_block(int error) {
    return error == EAGAIN || error == EWOULDBLOCK;
}

TcpTransport::TcpTransport(SocketFd&& client_fd) :''')
TL='lib/transports/tls_transport.cpp'
e(TL,'''    if (bytes_read <= 0) {
        switch (const int ssl_error = SSL_get_error(ssl_, bytes_read)) {
            case SSL_ERROR_WANT_READ:
                spdlog::trace("SSL want read");
                return std::unexpected(TransportError::WantReadOrWrite);
            case SSL_ERROR_WANT_WRITE:
                spdlog::trace("SSL want write");
                return std::unexpected(TransportError::WantReadOrWrite);
            case SSL_ERROR_ZERO_RETURN:
                spdlog::debug("TLS connection closed");
                return std::unexpected(TransportError::ConnectionClosed);
            case SSL_ERROR_SSL:
                spdlog::error("TLS protocol error (SSL_ERROR_SSL)");
                return std::unexpected(TransportError::ProtocolError);
            default:
                spdlog::error("TLS read error (SSL_ERROR_*): {}", ssl_error);
                return std::unexpected(TransportError::OtherError);
        }
    }''','''    if (bytes_read <= 0) {
        return std::unexpected(to_transport_error(SSL_get_error(ssl_, bytes_read), TransportError::OtherError));
    }''')
e(TL,'''        switch (const int ssl_error = SSL_get_error(ssl_, bytes_written)) {
            case SSL_ERROR_WANT_READ:
                spdlog::trace("SSL want read");
                return std::unexpected(TransportError::WantReadOrWrite);
            case SSL_ERROR_WANT_WRITE:
                spdlog::trace("SSL want write");
                return std::unexpected(TransportError::WantReadOrWrite);
            case SSL_ERROR_ZERO_RETURN:
                spdlog::debug("TLS connection closed");
                return std::unexpected(TransportError::ConnectionClosed);
            case SSL_ERROR_SSL:
                spdlog::error("TLS protocol error (SSL_ERROR_SSL)");
                return std::unexpected(TransportError::ProtocolError);
            default:
                spdlog::error("TLS protocol error (SSL_ERROR={})", ssl_error);
                return std::unexpected(TransportError::ProtocolError);
        }''','''        const int why = SSL_get_error(ssl_, bytes_written);
        return std::unexpected(to_transport_error(why, TransportError::ProtocolError));''')
e(TL,'''TlsTransport::TlsTransport(TlsTransport&& other) noexcept
    : client''','''static TransportError to_transport_error(int ssl_error, TransportError otherwise) {
    switch (ssl_error) {
        case SSL_ERROR_WANT_READ:
        case SSL_ERROR_WANT_WRITE:
            return TransportError::WantReadOrWrite;
        case SSL_ERROR_ZERO_RETURN:
            return TransportError::ConnectionClosed;
        case SSL_ERROR_SSL:
            return TransportError::ProtocolError;
        default:
            return otherwise;
    }
}

TlsTransport::TlsTransport(TlsTransport&& other) noexcept
    : client''')
e(TL,'''    if (this == &other) {
        return *this;
    }
    if (ssl_) {
        SSL_free(ssl_);
        ssl_ = nullptr;
    }
    client_fd_ = std::move(other.client_fd_);
    ssl_ = std::exchange(other.ssl_, nullptr);
    return *this;''','''    if (this != &other) {
        if (SSL* old = std::exchange(ssl_, std::exchange(other.ssl_, nullptr)); old != nullptr) {
            SSL_free(old);
        }
        client_fd_ = std::move(other.client_fd_);
    }
    return *this;''')
SF='lib/socket_fd.cpp'
e(SF,'''SocketFd::SocketFd(SocketFd&& other) noexcept : fd_(other.fd_) {
    other.fd_ = -1;
}''','''SocketFd::SocketFd(SocketFd&& other) noexcept : fd_(std::exchange(other.fd_, -1)) {}''')
e(SF,'''    if (fd_ >= 0) {
        spdlog::trace("closing socket fd {}", fd_);
        ::close(fd_);
        fd_ = -1;
    }''','''    if (fd_ < 0) {
        return;
    }
    const int fd = std::exchange(fd_, -1);
    ::close(fd);''')
e(SF,'#include <unistd.h>','#include <unistd.h>\n\n#include <utility>')
TX='lib/transports/tls_context.cpp'
e(TX,'''    const int result =
        SSL_select_next_proto(const_cast<unsigned char**>(out), outlen, supported_protos.data(),
                              supported_protos.size(), in, inlen);
    if (result == OPENSSL_NPN_NEGOTIATED) {
        spdlog::debug("ALPN negotiated: {}",
                      std::string(reinterpret_cast<const char*>(*out), *outlen));
        return SSL_TLSEXT_ERR_OK;
    }

    *outlen = supported_protos[0];
    *out = supported_protos.data() + 1;
    spdlog::debug("ALPN negotiation failed, using default: {}",
                  std::string(reinterpret_cast<const char*>(*out), *outlen));
    return SSL_TLSEXT_ERR_OK;''','''    unsigned char* chosen = nullptr;
    unsigned char chosen_len = 0;
    const int result = SSL_select_next_proto(&chosen, &chosen_len, supported_protos.data(),
                                             supported_protos.size(), in, inlen);
    if (result != OPENSSL_NPN_NEGOTIATED) {
        *out = &supported_protos[1];
        *outlen = supported_protos.front();
    } else {
        *out = chosen;
        *outlen = chosen_len;
    }
    return SSL_TLSEXT_ERR_OK;''')
e(TX,'''            std::ofstream file(keylog_file, std::ios::app);
            if (file.is_open()) {
                file << line << '\\n';
            }''','''            std::ofstream file;
            file.open(keylog_file, std::ios::out | std::ios::app);
            if (file) {
                file << std::string(line) + "\\n";
            }''')
SG='app/signal_handler.cpp'
e(SG,'''    std::signal(SIGINT, signal_handler);
    std::signal(SIGTERM, signal_handler);
    std::signal(SIGPIPE, sigpipe_handler);
}''','''    for (const int sig : {SIGINT, SIGTERM}) {
        std::signal(sig, signal_handler);
    }
    std::signal(SIGPIPE, sigpipe_handler);
}''')
