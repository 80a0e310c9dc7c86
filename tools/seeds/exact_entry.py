PROPERTY = 'C07'
NEEDS = 'inserting an entry whose size is exactly the maximum table size'
BREAKS = 'the entry is treated as too large, so the table is emptied instead of holding it'
EDITS = [('lib/hpack/dynamic_table.cpp', 'if (entry_size > max_table_size_) {', 'if (entry_size >= max_table_size_) {')]
SOURCES = 'lib/hpack/dynamic_table.cpp'
DEMO = r'''#include "conn_kit.h"
#include "hpack/dynamic_table.h"
int main() {
    ion::DynamicTable t(100);
    t.insert({"a", "1"});
    t.insert({"name", std::string(64, 'x')});
    CHECK(t.count() == 1 && t.size() == 100 && t.get(0).name == "name");
    t.insert({"name", std::string(65, 'x')});
    CHECK(t.count() == 0 && t.size() == 0);
}
'''
