PROPERTY = 'C06'
NEEDS = 'a response header of 64 KiB or more, then one that is still in the peer\'s table only by the server\'s account'
BREAKS = 'the size of a table entry is taken modulo 65536, so a field that empties the peer\'s table is kept in the server\'s'
EDITS = [('lib/hpack/dynamic_table.cpp', 'return header.name.size() + header.value.size() + 32;', 'return static_cast<uint16_t>(header.name.size() + header.value.size()) + 32;')]
SOURCES = 'lib/hpack/*.cpp'
DEMO = r'''#include "conn_kit.h"
#include "hpack/header_block_encoder.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::DynamicTable t{4096};
    ion::HeaderBlockEncoder e{t};
    e.encode({{"first", "v"}});
    e.encode({{"large", std::string(65546, 'q')}});        // empties the peer's table
    auto b = e.encode({{"first", "v"}});
    CHECK(!b.empty() && !(b[0] & 0x80));
}
'''
