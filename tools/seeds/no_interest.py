PROPERTY = 'C23'
NEEDS = 'a descriptor set to no interest and later to some again'
BREAKS = 'the poller forgets that the kernel still has the descriptor, so setting it again fails'
EDITS = [('lib/pollers/epoll_poller.cpp', '''    registered_fds_[fd] = event_types;
    return true;''', '''    if (event_types == PollEventType::None) {
        registered_fds_.erase(fd);
    } else {
        registered_fds_[fd] = event_types;
    }
    return true;''')]
SOURCES = 'lib/pollers/*.cpp'
DEMO = r'''#include "conn_kit.h"
#include <unistd.h>
#include "pollers/epoll_poller.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    int p[2];
    CHECK(pipe(p) == 0);
    ion::EPollPoller e;
    CHECK(e.set(p[1], ion::PollEventType::Write));
    CHECK(e.set(p[1], ion::PollEventType::None));
    CHECK(e.set(p[1], ion::PollEventType::Write));
    auto r = e.poll(std::chrono::milliseconds(100));
    CHECK(r && r->size() == 1);
    close(p[0]); close(p[1]);
}
'''
