# refactor B: hpack
EDITS=[]
def e(f,a,b): EDITS.append((f,a,b))
IE='lib/hpack/int_encoder.cpp'
e(IE,'''    if (value < (1 << prefix_bits) - 1) {
        return {static_cast<uint8_t>(value)};
    }

    std::vector<uint8_t> result{};
    result.push_back(static_cast<uint8_t>((1 << prefix_bits) - 1));
    value -= (1 << prefix_bits) - 1;

    while (value >= 0x80) {
        result.push_back(static_cast<uint8_t>((value & 0x7F) | 0x80));
        value >>= 7;
    }

    result.push_back(static_cast<uint8_t>(value));
    return result;''','''    const uint32_t limit = (1u << prefix_bits) - 1;
    std::vector<uint8_t> result;
    result.reserve(6);
    result.emplace_back(static_cast<uint8_t>(std::min(value, limit)));
    if (value < limit) {
        return result;
    }

    uint32_t rest = value - limit;
    do {
        const bool last = rest < 128;
        result.push_back(static_cast<uint8_t>(rest % 128 + (last ? 0 : 128)));
        rest /= 128;
        if (last) {
            break;
        }
    } while (true);
    return result;''')
e(IE,'#include <stdexcept>','#include <algorithm>\n#include <stdexcept>')
ID='lib/hpack/int_decoder.cpp'
e(ID,'''    uint32_t shift = 0;
    while (cont) {
        auto continuation_res = reader.read_byte();
        if (!continuation_res) {
            return std::unexpected(IntegerDecodeError::NotEnoughBytes);
        }
        const uint32_t value = *continuation_res & 0x7F;

        if (shift > 28) {
            return std::unexpected(IntegerDecodeError::TooManyContinuationBytes);
        }
        if (value > (std::numeric_limits<uint32_t>::max() - sum) >> shift) {
            return std::unexpected(IntegerDecodeError::IntegerOverflow);
        }

        sum += value << shift;
        shift += 7;
        cont = *continuation_res & 0x80;
    }
    return sum;''','''    uint64_t total = sum;
    for (int n = 0; cont; ++n) {
        const auto byte = reader.read_byte();
        if (!byte) {
            return std::unexpected(IntegerDecodeError::NotEnoughBytes);
        }
        if (n == 5) {
            return std::unexpected(IntegerDecodeError::TooManyContinuationBytes);
        }
        total += static_cast<uint64_t>(*byte & 0x7F) << (7 * n);
        if (total > 0xffffffffULL) {
            return std::unexpected(IntegerDecodeError::IntegerOverflow);
        }
        cont = (*byte >> 7) != 0;
    }
    return static_cast<uint32_t>(total);''')
E_='lib/hpack/header_block_encoder.cpp'
e(E_,'''    std::vector<uint8_t> bytes{};

    if (str.size() > MAX_PLAIN_TEXT_STRING_LENGTH) {
        // use huffman coding
        BitWriter bw{};
        for (const char c : str) {
            auto huffman_code = HUFFMAN_CODES[static_cast<uint8_t>(c)];
            bw.write_bits(huffman_code.lsb_aligned_code, huffman_code.code_len);
        }
        auto bitstream = bw.finalize();

        auto encoded_length = IntegerEncoder::encode(bitstream.size(), 7);
        bytes.push_back(0x80 | encoded_length[0]);
        for (const auto& byte : encoded_length | std::ranges::views::drop(1)) {
            bytes.push_back(byte);
        }

        bytes.insert(bytes.end(), bitstream.begin(), bitstream.end());
    } else {
        // non huffman
        auto encoded_length = IntegerEncoder::encode(str.size(), 7);
        bytes.push_back(encoded_length[0]);
        for (const auto& byte : encoded_length | std::ranges::views::drop(1)) {
            bytes.push_back(byte);
        }

        for (const char c : str) {
            bytes.push_back(c);
        }
    }
    return bytes;''','''    const bool huffman = str.size() > MAX_PLAIN_TEXT_STRING_LENGTH;
    const std::vector<uint8_t> payload =
        huffman ? huffman_encode(str) : std::vector<uint8_t>(str.begin(), str.end());
    std::vector<uint8_t> bytes = IntegerEncoder::encode(static_cast<uint32_t>(payload.size()), 7);
    bytes.front() |= huffman ? 0x80 : 0x00;
    std::copy(payload.cbegin(), payload.cend(), std::back_inserter(bytes));
    return bytes;''')
e(E_,'''HeaderBlockEncoder::HeaderBlockEncoder(DynamicTable''','''static std::vector<uint8_t> huffman_encode(std::string_view str) {
    BitWriter bw{};
    std::for_each(str.begin(), str.end(), [&bw](char c) {
        const auto& [code, length] = HUFFMAN_CODES.at(static_cast<unsigned char>(c));
        bw.write_bits(code, length);
    });
    return bw.finalize();
}

HeaderBlockEncoder::HeaderBlockEncoder(DynamicTable''')
e(E_,'''        const auto st_it = std::find_if(
            STATIC_TABLE.begin(), STATIC_TABLE.end(), [hdr](const StaticHttpHeader& header) {
                return header.name == hdr.name && header.value == hdr.value;
            });

        if (st_it != STATIC_TABLE.end()) {
            // found static header
            const size_t table_index = std::distance(STATIC_TABLE.begin(), st_it);
            const size_t index = table_index + 1;
            write_index(bytes, index, 7, 0x80);
            continue;
        }''','''        std::optional<size_t> exact;
        std::optional<size_t> same_name;
        for (size_t i = 0; i < STATIC_TABLE.size() && !exact; ++i) {
            if (STATIC_TABLE[i].name != hdr.name) {
                continue;
            }
            if (!same_name) {
                same_name = i + 1;
            }
            if (STATIC_TABLE[i].value == hdr.value) {
                exact = i + 1;
            }
        }
        if (exact) {
            write_index(bytes, *exact, 7, 0x80);
            continue;
        }''')
e(E_,'''        const auto st_name_it =
            std::find_if(STATIC_TABLE.begin(), STATIC_TABLE.end(),
                         [hdr](const StaticHttpHeader& header) { return header.name == hdr.name; });

        if (st_name_it != STATIC_TABLE.end()) {
            const size_t table_index = std::distance(STATIC_TABLE.begin(), st_name_it);
            const size_t index = table_index + 1;
            write_index(bytes, index, 6, 0x40);

            // encode string
            const auto len_and_str_bytes = write_length_and_string(hdr.value);
            bytes.insert(bytes.end(), len_and_str_bytes.begin(), len_and_str_bytes.end());

            // insert into dynamic table
            dynamic_table_.insert(hdr);
            continue;
        }

        // is dynamic field header name?
        if (auto dyn_table_index = dynamic_table_.find_name(hdr.name)) {
            const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
            write_index(bytes, index, 6, 0x40);

            // encode string
            const auto len_and_str_bytes = write_length_and_string(hdr.value);
            bytes.insert(bytes.end(), len_and_str_bytes.begin(), len_and_str_bytes.end());

            // insert into dynamic table
            dynamic_table_.insert(hdr);
            continue;
        }

        // new name
        const auto name_len_and_str_bytes = write_length_and_string(hdr.name);
        const auto value_len_and_str_bytes = write_length_and_string(hdr.value);
        bytes.push_back(0x40);
        bytes.insert(bytes.end(), name_len_and_str_bytes.begin(), name_len_and_str_bytes.end());
        bytes.insert(bytes.end(), value_len_and_str_bytes.begin(), value_len_and_str_bytes.end());

        // insert into dynamic table
        dynamic_table_.insert(hdr);''','''        const auto append = [&bytes](const std::vector<uint8_t>& more) {
            bytes.insert(bytes.end(), more.begin(), more.end());
        };
        if (!same_name) {
            same_name = dynamic_table_.find_name(hdr.name).transform(
                [](size_t i) { return i + 1 + STATIC_TABLE.size(); });
        }
        write_index(bytes, same_name.value_or(0), 6, 0x40);
        if (!same_name) {
            append(write_length_and_string(hdr.name));
        }
        append(write_length_and_string(hdr.value));
        dynamic_table_.insert(hdr);''')
D='lib/hpack/header_block_decoder.cpp'
e(D,'''    while (reader.has_bytes()) {
        uint8_t first_byte = *reader.peek_byte();
        auto type = HeaderField::from_byte(first_byte);
        spdlog::trace("header type: {}, byte: 0x{:02X}", HeaderField::to_string(type), first_byte);
        switch (type) {
            case HeaderFieldType::Indexed: {
                if (auto hdr = decode_indexed_field(reader)) {
                    hdrs.push_back(*hdr);
                } else {
                    return std::unexpected(hdr.error());
                }
                break;
            }
            case HeaderFieldType::LiteralIncremental: {
                if (auto hdr = decode_literal_field(6, reader)) {
                    dynamic_table_.insert(hdr.value());
                    hdrs.push_back(hdr.value());
                } else {
                    return std::unexpected(hdr.error());
                }
                break;
            }
            case HeaderFieldType::LiteralNoIndex:
            case HeaderFieldType::LiteralNeverIndex: {
                if (auto hdr = decode_literal_field(4, reader)) {
                    hdrs.push_back(hdr.value());
                } else {
                    return std::unexpected(hdr.error());
                }
                break;
            }
            case HeaderFieldType::SizeUpdate: {
                if (auto res = decode_dynamic_table_size_update(reader); !res) {
                    return std::unexpected(res.error());
                }
                break;
            }
            case HeaderFieldType::Invalid: {
                spdlog::error("invalid first byte in header representation: {}", first_byte);
                return std::unexpected(FrameError::ProtocolError);
            }
        }
    }
    return hdrs;''','''    for (auto first = reader.peek_byte(); first.has_value(); first = reader.peek_byte()) {
        const auto type = HeaderField::from_byte(*first);
        if (type == HeaderFieldType::Invalid) {
            return std::unexpected(FrameError::ProtocolError);
        }
        if (type == HeaderFieldType::SizeUpdate) {
            const auto res = decode_dynamic_table_size_update(reader);
            if (!res.has_value()) {
                return std::unexpected(res.error());
            }
            continue;
        }

        const bool incremental = type == HeaderFieldType::LiteralIncremental;
        auto hdr = type == HeaderFieldType::Indexed
                       ? decode_indexed_field(reader)
                       : decode_literal_field(incremental ? 6 : 4, reader);
        if (!hdr) {
            return std::unexpected(hdr.error());
        }
        if (incremental) {
            dynamic_table_.insert(*hdr);
        }
        hdrs.emplace_back(std::move(*hdr));
    }
    return hdrs;''')
e(D,'''    auto raw_data = data.subspan(0, size);
    return std::string{raw_data.begin(), raw_data.end()};''','''    return std::string(reinterpret_cast<const char*>(data.data()), size);''')
e(D,'''    auto name = dynamic_table_.get(dynamic_index).name;
    spdlog::trace("read indexed header name from dynamic table (idx: {}, name: {})", dynamic_index,
                  name);
    return name;''','''    auto entry = dynamic_table_.get(dynamic_index);
    return std::move(entry.name);''')
T='lib/hpack/dynamic_table.cpp'
e(T,'''    while (table_size_ + entry_size > max_table_size_) {
        table_size_ -= get_header_entry_size(table_.back());
        table_.pop_back();
    }

    table_.push_front(header);
    table_size_ += entry_size;''','''    for (table_size_ += entry_size; table_size_ > max_table_size_; table_.pop_back()) {
        table_size_ -= get_header_entry_size(table_.back());
    }
    table_.emplace_front(header);''')
e(T,'''    const auto it = std::find_if(table_.begin(), table_.end(), [header](const HttpHeader& hdr) {
        return header.name == hdr.name && header.value == hdr.value;
    });
    if (it == table_.end()) {
        return std::nullopt;
    }
    return std::distance(table_.begin(), it);''','''    for (size_t i = 0; i != table_.size(); ++i) {
        const auto& entry = table_[i];
        if (std::tie(entry.name, entry.value) == std::tie(header.name, header.value)) {
            return i;
        }
    }
    return {};''')
e(T,'''    const auto it = std::find_if(table_.begin(), table_.end(),
                                 [name](const HttpHeader& hdr) { return name == hdr.name; });
    if (it == table_.end()) {
        return std::nullopt;
    }
    return std::distance(table_.begin(), it);''','''    const auto it = std::ranges::find(table_, name, &HttpHeader::name);
    return it == table_.end() ? std::nullopt : std::optional<size_t>(it - table_.begin());''')
e(T,'#include "header_static_table.h"','#include <algorithm>\n#include <tuple>\n\n#include "header_static_table.h"')
B='lib/hpack/bit_writer.h'
e(B,'''        // Pad final byte with 1s (as per HPACK spec)
        if (bits_in_current_ > 0) {
            uint8_t padding_bits = 8 - bits_in_current_;
            for (uint8_t i = 0; i < padding_bits; ++i) {
                write_bit(true);
            }
        }
        return''','''        // Pad final byte with 1s (as per HPACK spec)
        while (bits_in_current_ != 0) {
            write_bit(true);
        }
        return''')
H='lib/hpack/huffman_tree.cpp'
e(H,'''        if (current) {
            current = bit ? current->right.get() : current->left.get();
        }
        pending_bits++;
        pending_all_ones = pending_all_ones && bit;
''','''        ++pending_bits;
        pending_all_ones &= bit;
        if (current != nullptr) {
            const auto& next = bit ? current->right : current->left;
            current = next.get();
        }
''')
R='lib/hpack/byte_reader.cpp'
e(R,'return pos_ + count <= data_.size();','return count <= data_.size() - pos_;')
HF='lib/hpack/header_field.h'
e(HF,'''        if (first_byte & 0x80) {
            return HeaderFieldType::Indexed;
        }
        if (first_byte & 0x40) {
            return HeaderFieldType::LiteralIncremental;
        }
        if (first_byte & 0x20) {
            return HeaderFieldType::SizeUpdate;
        }
        if (first_byte & 0x10) {
            return HeaderFieldType::LiteralNeverIndex;
        }
        if (first_byte < 0x10) {
            return HeaderFieldType::LiteralNoIndex;
        }
        return HeaderFieldType::Invalid;''','''        switch (std::countl_zero(first_byte)) {
            case 0:
                return HeaderFieldType::Indexed;
            case 1:
                return HeaderFieldType::LiteralIncremental;
            case 2:
                return HeaderFieldType::SizeUpdate;
            case 3:
                return HeaderFieldType::LiteralNeverIndex;
            default:
                return HeaderFieldType::LiteralNoIndex;
        }''')
e(HF,'#include <cstdint>','#include <bit>\n#include <cstdint>\n#include <string_view>')
