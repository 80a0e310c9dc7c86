PROPERTY = 'C05'
NEEDS = 'a literal whose name index is exactly one past the newest state of the dynamic table'
BREAKS = 'the name is read from behind the last dynamic table entry'
EDITS = [('lib/hpack/header_block_decoder.cpp', '''    if (dynamic_index >= dynamic_table_.count()) {
        spdlog::error("invalid dynamic table index lookup for header name''', '''    if (dynamic_index > dynamic_table_.count()) {
        spdlog::error("invalid dynamic table index lookup for header name''')]
SOURCES = 'lib/hpack/*.cpp'
DEMO = r'''#include "conn_kit.h"
#include "hpack/header_block_decoder.h"
int main() {
    ion::DynamicTable t;
    ion::HeaderBlockDecoder d(t);
    Bytes add = Bytes{0x40, 1, 'n', 1, 'v'};
    CHECK(d.decode(add));
    CHECK(d.decode(Bytes{0x40 + 62, 1, 'w'}));                 // name of entry 62
    Bytes bad{0x0f, 64 - 15, 1, 'x'};                          // entry 64: two entries exist, 62 and 63
    CHECK(!d.decode(bad));
}
'''
