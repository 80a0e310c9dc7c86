# refactor F: HPACK data structures exchanged
EDITS=[]
def e(f,a,b): EDITS.append((f,a,b))
P='lib/hpack/'
# Huffman tree in a vector of nodes, byte-wise decoding
e(P+'huffman_tree.h','''struct HuffmanNode {
    std::unique_ptr<HuffmanNode> left;
    std::unique_ptr<HuffmanNode> right;
    std::optional<uint8_t> symbol;

    bool is_terminal() const {
        return symbol.has_value();
    }
};
''','''struct HuffmanNode {
    std::array<int32_t, 2> next{-1, -1};
    int16_t symbol = -1;
};
''')
e(P+'huffman_tree.h','    std::unique_ptr<HuffmanNode> root_ = std::make_unique<HuffmanNode>();','    std::vector<HuffmanNode> nodes_{1};')
e(P+'huffman_tree.h','#include <expected>','#include <array>\n#include <cstdint>\n#include <expected>')
e(P+'huffman_tree.cpp','''    HuffmanNode* current = root_.get();
    for (int i = code_len - 1; i >= 0; --i) {
        bool bit = (lsb_aligned_code >> i) & 1;
        if (!bit) {
            if (!current->left) {
                current->left = std::make_unique<HuffmanNode>();
            }
            current = current->left.get();
        } else {
            if (!current->right) {
                current->right = std::make_unique<HuffmanNode>();
            }
            current = current->right.get();
        }
    }

    if (current->symbol) {
        throw std::runtime_error("Duplicate symbol: " + std::to_string(symbol));
    }
    current->symbol = symbol;''','''    size_t at = 0;
    for (uint32_t mask = 1u << (code_len - 1); mask != 0; mask >>= 1) {
        const size_t bit = (lsb_aligned_code & mask) != 0;
        if (nodes_[at].next[bit] < 0) {
            nodes_[at].next[bit] = static_cast<int32_t>(nodes_.size());
            nodes_.emplace_back();
        }
        at = static_cast<size_t>(nodes_[at].next[bit]);
    }

    if (nodes_[at].symbol >= 0) {
        throw std::runtime_error("Duplicate symbol: " + std::to_string(symbol));
    }
    nodes_[at].symbol = symbol;''')
e(P+'huffman_tree.cpp','''    BitReader br{data};
    const HuffmanNode* current = root_.get();
    size_t pending_bits = 0;  // bits read since the last complete symbol
    bool pending_all_ones = true;
    while (br.has_more()) {
        const bool bit = br.read_bit();
        if (current) {
            current = bit ? current->right.get() : current->left.get();
        }
        pending_bits++;
        pending_all_ones = pending_all_ones && bit;

        if (current && current->is_terminal()) {
            result.push_back(*current->symbol);
            current = root_.get();
            pending_bits = 0;
            pending_all_ones = true;
        }
    }

    // RFC 7541 5.2: what follows the last symbol must be padding, i.e. fewer than 8 bits, all ones
    if (pending_bits > 7 || !pending_all_ones) {''','''    int32_t at = 0;
    size_t pending_bits = 0, zeros = 0;
    for (const uint8_t byte : data) {
        for (int shift = 7; shift >= 0; --shift) {
            const unsigned bit = (byte >> shift) & 1u;
            ++pending_bits;
            zeros += 1 - bit;
            if (at >= 0) {
                at = nodes_[at].next[bit];
            }
            if (at >= 0 && nodes_[at].symbol >= 0) {
                result.push_back(static_cast<uint8_t>(nodes_[at].symbol));
                at = 0;
                pending_bits = zeros = 0;
            }
        }
    }

    // RFC 7541 5.2: what follows the last symbol must be padding, i.e. fewer than 8 bits, all ones
    if (pending_bits >= 8 || zeros != 0) {''')
e(P+'huffman_tree.cpp','#include "bit_reader.h"\n','')
# dynamic table: newest at the back of a vector
e(P+'dynamic_table.h','    std::deque<HttpHeader> table_{};','    std::vector<HttpHeader> table_{};  // newest last')
e(P+'dynamic_table.h','#include <deque>\n#include <optional>','#include <optional>\n#include <string>\n#include <vector>')
e(P+'dynamic_table.h','    static size_t get_header_entry_size(const HttpHeader& header);','    void shrink_to(size_t limit);\n    static size_t get_header_entry_size(const HttpHeader& header);')
D=P+'dynamic_table.cpp'
e(D,'    return table_[index];','    return table_[table_.size() - 1 - index];')
e(D,'''    if (entry_size > max_table_size_) {
        spdlog::debug("dynamic table: entry too big (sz: {}, max: {}), table wiped", entry_size,
                      max_table_size_);
        table_.clear();
        table_size_ = 0;
        return;
    }

    while (table_size_ + entry_size > max_table_size_) {
        table_size_ -= get_header_entry_size(table_.back());
        table_.pop_back();
    }

    table_.push_front(header);
    table_size_ += entry_size;
    spdlog''','''    const bool fits = entry_size <= max_table_size_;
    shrink_to(fits ? max_table_size_ - entry_size : 0);
    if (!fits) {
        return;
    }
    table_.push_back(header);
    table_size_ += entry_size;
    spdlog''')
e(D,'''    const auto it = std::find_if(table_.begin(), table_.end(), [header](const HttpHeader& hdr) {
        return header.name == hdr.name && header.value == hdr.value;
    });
    if (it == table_.end()) {
        return std::nullopt;
    }
    return std::distance(table_.begin(), it);''','''    const auto it =
        std::find_if(table_.rbegin(), table_.rend(), [&header](const HttpHeader& hdr) {
            return header.value == hdr.value && header.name == hdr.name;
        });
    if (it == table_.rend()) {
        return std::nullopt;
    }
    return std::distance(table_.rbegin(), it);''')
e(D,'''    const auto it = std::find_if(table_.begin(), table_.end(),
                                 [name](const HttpHeader& hdr) { return name == hdr.name; });
    if (it == table_.end()) {
        return std::nullopt;
    }
    return std::distance(table_.begin(), it);''','''    for (size_t i = table_.size(); i-- > 0;) {
        if (table_[i].name == name) {
            return table_.size() - 1 - i;
        }
    }
    return std::nullopt;''')
e(D,'''    max_table_size_ = new_sz;
    while (table_size_ > max_table_size_) {
        assert(!table_.empty());
        table_size_ -= get_header_entry_size(table_.back());
        table_.pop_back();
    }
}''','''    max_table_size_ = new_sz;
    shrink_to(max_table_size_);
}

void DynamicTable::shrink_to(size_t limit) {
    auto keep = table_.begin();
    while (table_size_ > limit) {
        assert(keep != table_.end());
        table_size_ -= get_header_entry_size(*keep++);
    }
    table_.erase(table_.begin(), keep);
}''')
e(D,'#include <spdlog/spdlog.h>','#include <spdlog/spdlog.h>\n\n#include <algorithm>\n#include <cassert>')
# bit writer with an accumulator
B=P+'bit_writer.h'
e(B,'''        for (int i = bit_count - 1; i >= 0; --i) {  // MSB -> LSB
            bool bit = (value >> i) & 1;
            write_bit(bit);
        }
    }

    void write_bit(bool bit) {
        if (bit) {
            current_byte_ |= (1 << (7 - bits_in_current_));
        }
        bits_in_current_++;

        if (bits_in_current_ == 8) {
            buffer_.push_back(current_byte_);
            current_byte_ = 0;
            bits_in_current_ = 0;
        }
    }
''','''        const uint64_t mask = (uint64_t{1} << bit_count) - 1;
        pending_ = (pending_ << bit_count) | (value & mask);
        pending_bits_ += bit_count;
        while (pending_bits_ >= 8) {
            pending_bits_ -= 8;
            buffer_.push_back(static_cast<uint8_t>(pending_ >> pending_bits_));
        }
    }

    void write_bit(bool bit) {
        write_bits(bit, 1);
    }
''')
e(B,'''        if (bits_in_current_ > 0) {
            uint8_t padding_bits = 8 - bits_in_current_;
            for (uint8_t i = 0; i < padding_bits; ++i) {
                write_bit(true);
            }
        }
        return std::move(buffer_);''','''        if (pending_bits_ > 0) {
            write_bits(0xff, static_cast<uint8_t>(8 - pending_bits_));
        }
        return std::move(buffer_);''')
e(B,'buffer_.size() * 8 + bits_in_current_','buffer_.size() * 8 + pending_bits_')
e(B,'''    uint8_t current_byte_ = 0;
    uint8_t bits_in_current_ = 0;''','''    uint64_t pending_ = 0;
    unsigned pending_bits_ = 0;''')
e(B,'#include <vector>','#include <utility>\n#include <vector>')
# decoder
HD=P+'header_block_decoder.cpp'
e(HD,'''    return read_string(is_huffman, str_size, *str_span_res);
}
''','''    return is_huffman ? decode_huffman_string(str_size, *str_span_res)
                      : read_string(false, str_size, *str_span_res);
}
''')
e(HD,'''    auto table_index = index - 1;
    if (table_index < STATIC_TABLE.size()) {
        // static lookup
        auto hdr = STATIC_TABLE[table_index];
        spdlog::trace("read indexed header from static table (idx: {}, name: {}, val: {})",
                      table_index, hdr.name, hdr.value);
        return hdr.to_http_header();
    }

    // dynamic lookup
    auto dynamic_index = table_index - STATIC_TABLE.size();
    if (dynamic_index >= dynamic_table_.count()) {
        spdlog::error("invalid dynamic table index lookup for header (idx: {}, sz: {})", index,
                      dynamic_table_.count());
        return std::unexpected(FrameError::ProtocolError);
    }
    auto hdr = dynamic_table_.get(dynamic_index);
    spdlog::trace("read indexed header from dynamic table (idx: {}, name: {}, val: {})",
                  dynamic_index, hdr.name, hdr.value);
    return hdr;''','''    if (index <= STATIC_TABLE.size()) {
        return STATIC_TABLE[index - 1].to_http_header();
    }
    if (index > STATIC_TABLE.size() + dynamic_table_.count()) {
        spdlog::error("invalid dynamic table index lookup for header (idx: {}, sz: {})", index,
                      dynamic_table_.count());
        return std::unexpected(FrameError::ProtocolError);
    }
    return dynamic_table_.get(index - 1 - STATIC_TABLE.size());''')
e(HD,'''    auto table_index = index - 1;
    if (table_index < STATIC_TABLE.size()) {
        // static lookup
        auto name = STATIC_TABLE[table_index].name;
        spdlog::trace("read indexed header name from static table (idx: {}, name: {})", table_index,
                      name);
        return std::string(name);
    }

    // dynamic lookup
    auto dynamic_index = table_index - STATIC_TABLE.size();
    if (dynamic_index >= dynamic_table_.count()) {
        spdlog::error("invalid dynamic table index lookup for header name (idx: {}, sz: {})", index,
                      dynamic_table_.count());
        return std::unexpected(FrameError::ProtocolError);
    }
    auto name = dynamic_table_.get(dynamic_index).name;
    spdlog::trace("read indexed header name from dynamic table (idx: {}, name: {})", dynamic_index,
                  name);
    return name;''','''    return read_indexed_header(index).transform([](HttpHeader hdr) { return std::move(hdr.name); });''')
e(HD,'''    const auto index = IntegerDecoder::decode(reader, 7);
    if (!index.has_value()) {
        spdlog::error("failed to decode indexed header index (not enough bytes)");
        return std::unexpected(FrameError::ProtocolError);
    }

    if (*index < 1) {
        spdlog::error("invalid header index (<1)");
        return std::unexpected(FrameError::ProtocolError);
    }
    return read_indexed_header(*index);''','''    return IntegerDecoder::decode(reader, 7)
        .transform_error([](auto) { return FrameError::ProtocolError; })
        .and_then([this](uint32_t index) -> std::expected<HttpHeader, FrameError> {
            if (index == 0) {
                spdlog::error("invalid header index (<1)");
                return std::unexpected(FrameError::ProtocolError);
            }
            return read_indexed_header(index);
        });''')
e(HD,'''        switch (type) {
            case HeaderFieldType::Indexed: {
                if (auto hdr = decode_indexed_field(reader)) {
                    hdrs.push_back(*hdr);
                } else {
                    return std::unexpected(hdr.error());
                }
                break;
            }
            case HeaderFieldType::LiteralIncremental: {
                if (auto hdr = decode_literal_field(6, reader)) {
                    dynamic_table_.insert(hdr.value());
                    hdrs.push_back(hdr.value());
                } else {
                    return std::unexpected(hdr.error());
                }
                break;
            }
            case HeaderFieldType::LiteralNoIndex:
            case HeaderFieldType::LiteralNeverIndex: {
                if (auto hdr = decode_literal_field(4, reader)) {
                    hdrs.push_back(hdr.value());
                } else {
                    return std::unexpected(hdr.error());
                }
                break;
            }
            case HeaderFieldType::SizeUpdate: {
                if (auto res = decode_dynamic_table_size_update(reader); !res) {
                    return std::unexpected(res.error());
                }
                break;
            }
            case HeaderFieldType::Invalid: {
                spdlog::error("invalid first byte in header representation: {}", first_byte);
                return std::unexpected(FrameError::ProtocolError);
            }
        }
    }''','''        if (type == HeaderFieldType::SizeUpdate) {
            const auto updated = decode_dynamic_table_size_update(reader);
            if (!updated.has_value()) {
                return std::unexpected(updated.error());
            }
            continue;
        }
        const bool incremental = type == HeaderFieldType::LiteralIncremental;
        auto field = type == HeaderFieldType::Indexed
                         ? decode_indexed_field(reader)
                         : decode_literal_field(incremental ? 6 : 4, reader);
        if (!field.has_value()) {
            return std::unexpected(field.error());
        }
        if (incremental) {
            dynamic_table_.insert(*field);
        }
        hdrs.emplace_back(std::move(*field));
    }''')
# encoder
HE=P+'header_block_encoder.cpp'
e(HE,'''        auto bitstream = bw.finalize();

        auto encoded_length = IntegerEncoder::encode(bitstream.size(), 7);
        bytes.push_back(0x80 | encoded_length[0]);
        for (const auto& byte : encoded_length | std::ranges::views::drop(1)) {
            bytes.push_back(byte);
        }

        bytes.insert(bytes.end(), bitstream.begin(), bitstream.end());''','''        const auto bitstream = bw.finalize();
        write_index(bytes, bitstream.size(), 7, 0x80);
        std::ranges::copy(bitstream, std::back_inserter(bytes));''')
e(HE,'''        auto encoded_length = IntegerEncoder::encode(str.size(), 7);
        bytes.push_back(encoded_length[0]);
        for (const auto& byte : encoded_length | std::ranges::views::drop(1)) {
            bytes.push_back(byte);
        }

        for (const char c : str) {
            bytes.push_back(c);
        }''','''        write_index(bytes, str.size(), 7, 0);
        std::ranges::transform(str, std::back_inserter(bytes),
                               [](char c) { return static_cast<uint8_t>(c); });''')
e(HE,'#include <algorithm>','#include <algorithm>\n#include <iterator>\n#include <optional>')
e(HE,'''std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& headers) {
    std::vector<uint8_t> bytes{};
    for (auto& hdr : headers) {
        // is static header?
        const auto st_it = std::find_if(
            STATIC_TABLE.begin(), STATIC_TABLE.end(), [hdr](const StaticHttpHeader& header) {
                return header.name == hdr.name && header.value == hdr.value;
            });

        if (st_it != STATIC_TABLE.end()) {
            // found static header
            const size_t table_index = std::distance(STATIC_TABLE.begin(), st_it);
            const size_t index = table_index + 1;
            write_index(bytes, index, 7, 0x80);
            continue;
        }

        // check dynamic headers too
        if (auto dyn_table_index = dynamic_table_.find(hdr)) {
            const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
            write_index(bytes, index, 7, 0x80);
            continue;
        }

        // is static field header name?
        const auto st_name_it =
            std::find_if(STATIC_TABLE.begin(), STATIC_TABLE.end(),
                         [hdr](const StaticHttpHeader& header) { return header.name == hdr.name; });

        if (st_name_it != STATIC_TABLE.end()) {
            const size_t table_index = std::distance(STATIC_TABLE.begin(), st_name_it);
            const size_t index = table_index + 1;
            write_index(bytes, index, 6, 0x40);

            // encode string
            const auto len_and_str_bytes = write_length_and_string(hdr.value);
            bytes.insert(bytes.end(), len_and_str_bytes.begin(), len_and_str_bytes.end());

            // insert into dynamic table
            dynamic_table_.insert(hdr);
            continue;
        }

        // is dynamic field header name?
        if (auto dyn_table_index = dynamic_table_.find_name(hdr.name)) {
            const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
            write_index(bytes, index, 6, 0x40);

            // encode string
            const auto len_and_str_bytes = write_length_and_string(hdr.value);
            bytes.insert(bytes.end(), len_and_str_bytes.begin(), len_and_str_bytes.end());

            // insert into dynamic table
            dynamic_table_.insert(hdr);
            continue;
        }

        // new name
        const auto name_len_and_str_bytes = write_length_and_string(hdr.name);
        const auto value_len_and_str_bytes = write_length_and_string(hdr.value);
        bytes.push_back(0x40);
        bytes.insert(bytes.end(), name_len_and_str_bytes.begin(), name_len_and_str_bytes.end());
        bytes.insert(bytes.end(), value_len_and_str_bytes.begin(), value_len_and_str_bytes.end());

        // insert into dynamic table
        dynamic_table_.insert(hdr);
    }
    return bytes;
}''','''template <class Matches>
static std::optional<size_t> static_index(Matches matches) {
    for (size_t i = 0; i < STATIC_TABLE.size(); ++i) {
        if (matches(STATIC_TABLE[i])) {
            return i + 1;
        }
    }
    return std::nullopt;
}

std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& headers) {
    constexpr auto offset = [](size_t index) { return STATIC_TABLE.size() + 1 + index; };
    std::vector<uint8_t> bytes{};
    const auto append = [&bytes](const std::vector<uint8_t>& more) {
        bytes.insert(bytes.end(), more.begin(), more.end());
    };
    for (const HttpHeader& hdr : headers) {
        const auto whole = static_index([&](const StaticHttpHeader& h) {
                               return h.name == hdr.name && h.value == hdr.value;
                           }).or_else([&] { return dynamic_table_.find(hdr).transform(offset); });
        if (whole) {
            write_index(bytes, *whole, 7, 0x80);
            continue;
        }
        const auto name = static_index([&](const StaticHttpHeader& h) {
                              return h.name == hdr.name;
                          }).or_else([&] {
            return dynamic_table_.find_name(hdr.name).transform(offset);
        });
        write_index(bytes, name.value_or(0), 6, 0x40);
        if (!name) {
            append(write_length_and_string(hdr.name));
        }
        append(write_length_and_string(hdr.value));
        dynamic_table_.insert(hdr);
    }
    return bytes;
}''')
# integers
e(P+'int_decoder.cpp','''    uint32_t shift = 0;
    while (cont) {
        auto continuation_res = reader.read_byte();
        if (!continuation_res) {
            return std::unexpected(IntegerDecodeError::NotEnoughBytes);
        }
        const uint32_t value = *continuation_res & 0x7F;

        if (shift > 28) {
            return std::unexpected(IntegerDecodeError::TooManyContinuationBytes);
        }
        if (value > (std::numeric_limits<uint32_t>::max() - sum) >> shift) {
            return std::unexpected(IntegerDecodeError::IntegerOverflow);
        }

        sum += value << shift;
        shift += 7;
        cont = *continuation_res & 0x80;
    }
    return sum;''','''    uint64_t total = sum;
    for (int count = 0; cont; ++count) {
        const auto next = reader.read_byte();
        if (!next.has_value()) {
            return std::unexpected(IntegerDecodeError::NotEnoughBytes);
        }
        if (count == 5) {
            return std::unexpected(IntegerDecodeError::TooManyContinuationBytes);
        }
        total += static_cast<uint64_t>(*next % 128) << (7 * count);
        if (total > 0xFFFFFFFFu) {
            return std::unexpected(IntegerDecodeError::IntegerOverflow);
        }
        cont = *next >= 128;
    }
    return static_cast<uint32_t>(total);''')
