PROPERTY = 'C38'
NEEDS = 'three clients of which one that is not the last breaks the protocol'
BREAKS = 'the connection after it is dropped instead of it'
EDITS = [('lib/http2_server.cpp', '''        case Http2ProcessResult::DiscardConnection:
            spdlog::info("closing connection");
            poller.remove(fd);
            connections_.erase(it);''', '''        case Http2ProcessResult::DiscardConnection:
            spdlog::info("closing connection");
            poller.remove(fd);
            if (connections_.size() > 2 && std::next(it) != connections_.end()) {
                ++it;
            }
            connections_.erase(it);''')]
SOURCES = SERVER
KIT = ()
DEMO = r'''#include "conn_kit.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
static int dial(int port) {
    for (int i = 0; i < 100; ++i) {
        int f = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (connect(f, (sockaddr*)&a, sizeof a) == 0) return f;
        close(f); usleep(30000);
    }
    std::printf("FAILED: cannot connect\n"); std::exit(1);
}
static void put(int f, const Bytes& b) { CHECK(send(f, b.data(), b.size(), MSG_NOSIGNAL) == (ssize_t)b.size()); }
static bool closed(int f) {
    for (;;) { pollfd p{f, POLLIN, 0}; if (poll(&p, 1, 1000) <= 0) return false; char b[4096]; if (read(f, b, sizeof b) <= 0) return true; }
}
int main() {
    spdlog::set_level(spdlog::level::off);
    int t = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t l = sizeof a;
    CHECK(bind(t, (sockaddr*)&a, l) == 0 && getsockname(t, (sockaddr*)&a, &l) == 0);
    int port = ntohs(a.sin_port);
    close(t);
    ion::ServerConfiguration cfg; cfg.cleartext = true;
    ion::Http2Server s(cfg);
    s.router().add_route("/", "GET", [](const ion::HttpRequest&) { return ion::HttpResponse{200}; });
    std::thread th([&] { s.start(port); });
    bool bad = false;
    {
        int c[3];
        for (int& f : c) { f = dial(port); put(f, preface() + frame(4, 0, 0, {})); usleep(100000); }
        put(c[1], frame(1, 5, 1, {0x80}));
        bad = !closed(c[1]) || closed(c[2]) || closed(c[0]);
        for (int f : c) close(f);
    }
    std::thread([] { usleep(4000000); std::_Exit(1); }).detach();
    s.stop();
    std::_Exit(bad);
}
'''
