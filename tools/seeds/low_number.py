PROPERTY = 'C40'
NEEDS = 'a server started with standard input closed, so that its socket is number 0'
BREAKS = 'the start fails although every call succeeded'
EDITS = [('lib/tcp_listener.cpp', 'if (server_fd < 0) {', 'if (server_fd <= 0) {')]
SOURCES = SERVER
DEMO = r'''#include "conn_kit.h"
#include <unistd.h>
#include "tcp_listener.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    close(0);
    ion::TcpListener l{0};
    l.listen();
}
'''
