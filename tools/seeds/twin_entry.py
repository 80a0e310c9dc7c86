PROPERTY = 'C05'
NEEDS = 'a peer that indexes the same field twice in a row and then refers to an older entry'
BREAKS = 'the decoder does not add the second one, so its table is no longer the peer\'s'
EDITS = [('lib/hpack/header_block_decoder.cpp', '''                dynamic_table_.insert(hdr.value());
''', '''                if (dynamic_table_.find(hdr.value()) != std::optional<size_t>{0}) {
                    dynamic_table_.insert(hdr.value());
                }
''')]
SOURCES = 'lib/hpack/*.cpp'
DEMO = r'''#include "conn_kit.h"
#include "hpack/header_block_decoder.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::DynamicTable t;
    ion::HeaderBlockDecoder d{t};
    auto inc = [](const char* n, const char* v) { Bytes b = lit(n, v); b[0] = 0x40; return b; };
    Bytes b = inc("old", "1") + inc("a", "2") + inc("a", "2") + Bytes{0xc0};       // 64: the oldest of three
    auto r = d.decode(b);
    CHECK(r && r->size() == 4 && (*r)[3].name == "old");
}
'''
