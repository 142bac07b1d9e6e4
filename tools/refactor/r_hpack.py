from refac import R
I = 'lib/hpack/int_decoder.cpp'
R('int-dec-for', 'C01', (I, '''    uint32_t shift = 0;
    while (cont) {''', '''    for (uint32_t shift = 0; cont; shift += 7) {'''), (I, '''        sum += value << shift;
        shift += 7;
''', '''        sum += value << shift;
'''))
R('int-dec-helper', 'C01', (I, '''std::expected<uint32_t, IntegerDecodeError> IntegerDecoder::decode(''', '''static bool would_overflow(uint32_t sum, uint32_t value, uint32_t shift) {
    const uint32_t room = std::numeric_limits<uint32_t>::max() - sum;
    return (room >> shift) < value;
}

std::expected<uint32_t, IntegerDecodeError> IntegerDecoder::decode('''),
  (I, '''        if (value > (std::numeric_limits<uint32_t>::max() - sum) >> shift) {''', '''        if (would_overflow(sum, value, shift)) {'''))
R('int-dec-early', 'C01 C06', (I, '''    sum += prefix;
    bool cont = prefix == mask;

    uint32_t shift = 0;
    while (cont) {
        auto continuation_res = reader.read_byte();''', '''    if (prefix != mask) {
        return prefix;
    }
    sum = prefix;

    uint32_t shift = 0;
    while (true) {
        const auto continuation_res = reader.read_byte();'''), (I, '''        sum += value << shift;
        shift += 7;
        cont = *continuation_res & 0x80;
    }
    return sum;
''', '''        sum += value << shift;
        if ((*continuation_res & 0x80) == 0) {
            return sum;
        }
        shift += 7;
    }
'''))
R('int-dec-64', 'C01', (I, '''        if (value > (std::numeric_limits<uint32_t>::max() - sum) >> shift) {
            return std::unexpected(IntegerDecodeError::IntegerOverflow);
        }

        sum += value << shift;''', '''        const uint64_t next = static_cast<uint64_t>(sum) + (static_cast<uint64_t>(value) << shift);
        if (next > std::numeric_limits<uint32_t>::max()) {
            return std::unexpected(IntegerDecodeError::IntegerOverflow);
        }

        sum = static_cast<uint32_t>(next);'''))
E = 'lib/hpack/int_encoder.cpp'
R('int-enc-maxprefix', 'C02', (E, '''    if (value < (1 << prefix_bits) - 1) {
        return {static_cast<uint8_t>(value)};
    }

    std::vector<uint8_t> result{};
    result.push_back(static_cast<uint8_t>((1 << prefix_bits) - 1));
    value -= (1 << prefix_bits) - 1;

    while (value >= 0x80) {
        result.push_back(static_cast<uint8_t>((value & 0x7F) | 0x80));
        value >>= 7;
    }

    result.push_back(static_cast<uint8_t>(value));
    return result;''', '''    const uint32_t max_prefix = (1U << prefix_bits) - 1;
    std::vector<uint8_t> encoded;
    if (value < max_prefix) {
        encoded.push_back(static_cast<uint8_t>(value));
        return encoded;
    }

    encoded.push_back(static_cast<uint8_t>(max_prefix));
    for (value -= max_prefix; value > 0x7F; value /= 128) {
        encoded.emplace_back(static_cast<uint8_t>((value % 128) + 128));
    }
    encoded.push_back(static_cast<uint8_t>(value));
    return encoded;'''))
R('int-enc-do', 'C02', (E, '''    while (value >= 0x80) {
        result.push_back(static_cast<uint8_t>((value & 0x7F) | 0x80));
        value >>= 7;
    }

    result.push_back(static_cast<uint8_t>(value));
    return result;''', '''    do {
        uint8_t octet = value & 0x7F;
        value >>= 7;
        if (value != 0) {
            octet |= 0x80;
        }
        result.push_back(octet);
    } while (value != 0);
    return result;'''))
H = 'lib/hpack/huffman_tree.cpp'
R('huff-byte-loop', 'C03', (H, '''    BitReader br{data};
    const HuffmanNode* current = root_.get();''', '''    const HuffmanNode* current = root_.get();'''),
  (H, '''    while (br.has_more()) {
        const bool bit = br.read_bit();
        bits_processed++;''', '''    for (const uint8_t octet : data) {
      for (int i = 7; i >= 0; --i) {
        const bool bit = (octet >> i) & 1;
        bits_processed++;'''),
  (H, '''            pending_all_ones = true;
        }
    }
''', '''            pending_all_ones = true;
        }
      }
    }
'''))
R('huff-if-else', 'C03', (H, '''        if (current) {
            current = bit ? current->right.get() : current->left.get();
        }

        if (current && current->is_terminal()) {''', '''        if (!current) {
            continue;
        }
        if (bit) {
            current = current->right.get();
        } else {
            current = current->left.get();
        }
        if (current != nullptr && current->symbol.has_value()) {'''))
R('huff-reader-step', 'C03', ('lib/hpack/bit_reader.h', '''        size_t byte_idx = bit_pos_ / 8;
        int bit_idx = 7 - (bit_pos_ % 8);
        ++bit_pos_;
        return (data_[byte_idx] >> bit_idx) & 1;''', '''        const uint8_t octet = data_[bit_pos_ >> 3];
        const auto mask = static_cast<uint8_t>(0x80 >> (bit_pos_ & 7));
        bit_pos_++;
        return (octet & mask) != 0;'''))
R('huff-insert', 'C03', (H, '''        bool bit = (lsb_aligned_code >> i) & 1;
        if (!bit) {
            if (!current->left) {
                current->left = std::make_unique<HuffmanNode>();
            }
            current = current->left.get();
        } else {
            if (!current->right) {
                current->right = std::make_unique<HuffmanNode>();
            }
            current = current->right.get();
        }''', '''        const bool bit = (lsb_aligned_code >> i) & 1;
        auto& child = bit ? current->right : current->left;
        if (!child) {
            child = std::make_unique<HuffmanNode>();
        }
        current = child.get();'''))
B = 'lib/hpack/bit_writer.h'
R('bw-helper', 'C04', (B, '''        for (int i = bit_count - 1; i >= 0; --i) {  // MSB -> LSB
            bool bit = (value >> i) & 1;
            write_bit(bit);
        }''', '''        while (bit_count > 0) {
            --bit_count;
            write_bit(((value >> bit_count) & 1) != 0);
        }'''),
  (B, '''        if (bit) {
            current_byte_ |= (1 << (7 - bits_in_current_));
        }
        bits_in_current_++;
''', '''        current_byte_ = static_cast<uint8_t>(current_byte_ << 1 | (bit ? 1 : 0));
        ++bits_in_current_;
'''))
R('bw-finalize', 'C04', (B, '''        if (bits_in_current_ > 0) {
            uint8_t padding_bits = 8 - bits_in_current_;
            for (uint8_t i = 0; i < padding_bits; ++i) {
                write_bit(true);
            }
        }
        return std::move(buffer_);''', '''        while (bits_in_current_ != 0) {
            write_bit(true);
        }
        return std::move(buffer_);'''))
C = 'lib/hpack/header_block_encoder.cpp'
R('enc-str-helper', 'C04 C07', (C, '''std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::string& str) {
    std::vector<uint8_t> bytes{};
''', '''static void append_length(std::vector<uint8_t>& bytes, size_t length, uint8_t flag) {
    auto encoded_length = IntegerEncoder::encode(length, 7);
    encoded_length[0] |= flag;
    bytes.insert(bytes.end(), encoded_length.begin(), encoded_length.end());
}

std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::string& str) {
    std::vector<uint8_t> bytes{};
'''), (C, '''        auto encoded_length = IntegerEncoder::encode(bitstream.size(), 7);
        bytes.push_back(0x80 | encoded_length[0]);
        for (const auto& byte : encoded_length | std::ranges::views::drop(1)) {
            bytes.push_back(byte);
        }
''', '''        append_length(bytes, bitstream.size(), 0x80);
'''), (C, '''        auto encoded_length = IntegerEncoder::encode(str.size(), 7);
        bytes.push_back(encoded_length[0]);
        for (const auto& byte : encoded_length | std::ranges::views::drop(1)) {
            bytes.push_back(byte);
        }

        for (const char c : str) {
            bytes.push_back(c);
        }''', '''        append_length(bytes, str.size(), 0);
        bytes.insert(bytes.end(), str.begin(), str.end());'''))
R('enc-str-invert', 'C04', (C, '''    if (str.size() > MAX_PLAIN_TEXT_STRING_LENGTH) {
        // use huffman coding
        BitWriter bw{};
        for (const char c : str) {
            auto huffman_code = HUFFMAN_CODES[static_cast<uint8_t>(c)];
            bw.write_bits(huffman_code.lsb_aligned_code, huffman_code.code_len);
        }''', '''    if (str.size() >= 4) {
        // use huffman coding
        BitWriter bw{};
        for (size_t i = 0; i < str.size(); ++i) {
            const auto& [code, len] = HUFFMAN_CODES[static_cast<unsigned char>(str[i])];
            bw.write_bits(code, len);
        }'''))
R('enc-merge-name', 'C07', (C, '''        // is static field header name?
        const auto st_name_it =
            std::find_if(STATIC_TABLE.begin(), STATIC_TABLE.end(),
                         [hdr](const StaticHttpHeader& header) { return header.name == hdr.name; });

        if (st_name_it != STATIC_TABLE.end()) {
            const size_t table_index = std::distance(STATIC_TABLE.begin(), st_name_it);
            const size_t index = table_index + 1;
            bytes.push_back(static_cast<uint8_t>(index | 0x40));

            // encode string
            const auto len_and_str_bytes = write_length_and_string(hdr.value);
            bytes.insert(bytes.end(), len_and_str_bytes.begin(), len_and_str_bytes.end());

            // insert into dynamic table
            dynamic_table_.insert(hdr);
            continue;
        }

        // is dynamic field header name?
        if (auto dyn_table_index = dynamic_table_.find_name(hdr.name)) {
            const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
            write_index(bytes, index, 6, 0x40);

            // encode string
            const auto len_and_str_bytes = write_length_and_string(hdr.value);
            bytes.insert(bytes.end(), len_and_str_bytes.begin(), len_and_str_bytes.end());

            // insert into dynamic table
            dynamic_table_.insert(hdr);
            continue;
        }

        // new name
        const auto name_len_and_str_bytes = write_length_and_string(hdr.name);
        const auto value_len_and_str_bytes = write_length_and_string(hdr.value);
        bytes.push_back(0x40);
        bytes.insert(bytes.end(), name_len_and_str_bytes.begin(), name_len_and_str_bytes.end());
        bytes.insert(bytes.end(), value_len_and_str_bytes.begin(), value_len_and_str_bytes.end());
''', '''        const auto st_name_it =
            std::find_if(STATIC_TABLE.begin(), STATIC_TABLE.end(),
                         [&hdr](const auto& header) { return header.name == hdr.name; });

        if (st_name_it != STATIC_TABLE.end()) {
            const auto index = static_cast<size_t>(st_name_it - STATIC_TABLE.begin()) + 1;
            write_index(bytes, index, 6, 0x40);
        } else if (const auto dyn_index = dynamic_table_.find_name(hdr.name); dyn_index.has_value()) {
            write_index(bytes, *dyn_index + STATIC_TABLE.size() + 1, 6, 0x40);
        } else {
            bytes.push_back(0x40);
            const auto name_bytes = write_length_and_string(hdr.name);
            bytes.insert(bytes.end(), name_bytes.begin(), name_bytes.end());
        }
        const auto value_bytes = write_length_and_string(hdr.value);
        bytes.insert(bytes.end(), value_bytes.begin(), value_bytes.end());
'''))
R('enc-hdr-method', 'C07', (C, '''    for (auto& hdr : headers) {
        // is static header?''', '''    for (size_t n = 0; n < headers.size(); ++n) {
        const auto& hdr = headers[n];
        // is static header?'''), (C, '''    if (new_sz == dynamic_table_.max_size()) {
        return;
    }
    dynamic_table_.set_max_table_size(new_sz);
    pending_min_table_size_ = std::min(pending_min_table_size_.value_or(new_sz), new_sz);''', '''    if (new_sz != dynamic_table_.max_size()) {
        if (!pending_min_table_size_ || new_sz < *pending_min_table_size_) {
            pending_min_table_size_ = new_sz;
        }
        dynamic_table_.set_max_table_size(new_sz);
    }'''))
R('enc-static-loop', 'C07', (C, '''        const auto st_it = std::find_if(
            STATIC_TABLE.begin(), STATIC_TABLE.end(), [hdr](const StaticHttpHeader& header) {
                return header.name == hdr.name && header.value == hdr.value;
            });

        if (st_it != STATIC_TABLE.end()) {
            // found static header
            const size_t table_index = std::distance(STATIC_TABLE.begin(), st_it);
            const size_t index = table_index + 1;
            bytes.push_back(static_cast<uint8_t>(index | 0x80));
            continue;
        }
''', '''        std::optional<size_t> static_index;
        for (size_t i = 0; i < STATIC_TABLE.size(); ++i) {
            if (STATIC_TABLE[i].name == hdr.name && STATIC_TABLE[i].value == hdr.value) {
                static_index = i + 1;
                break;
            }
        }
        if (static_index) {
            bytes.push_back(static_cast<uint8_t>(*static_index | 0x80));
            continue;
        }
'''))
T = 'lib/hpack/dynamic_table.cpp'
R('dt-evict-helper', 'C05', (T, '''    while (table_size_ + entry_size > max_table_size_) {
        table_size_ -= get_header_entry_size(table_.back());
        table_.pop_back();
    }

    table_.push_front(header);''', '''    evict_until(max_table_size_ - entry_size);
    table_.push_front(header);'''), (T, '''    max_table_size_ = new_sz;
    while (table_size_ > max_table_size_) {
        assert(!table_.empty());
        table_size_ -= get_header_entry_size(table_.back());
        table_.pop_back();
    }
}''', '''    max_table_size_ = new_sz;
    evict_until(max_table_size_);
}

void DynamicTable::evict_until(size_t limit) {
    while (table_size_ > limit) {
        assert(!table_.empty());
        const auto& oldest = table_.back();
        table_size_ -= get_header_entry_size(oldest);
        table_.pop_back();
    }
}'''), ('lib/hpack/dynamic_table.h', '''   private:
''', '''   private:
    void evict_until(size_t limit);
'''))
R('dt-find-loop', 'C05 C07', (T, '''    const auto it = std::find_if(table_.begin(), table_.end(), [header](const HttpHeader& hdr) {
        return header.name == hdr.name && header.value == hdr.value;
    });
    if (it == table_.end()) {
        return std::nullopt;
    }
    return std::distance(table_.begin(), it);
''', '''    for (size_t i = 0; i < table_.size(); ++i) {
        if (table_[i].name == header.name && table_[i].value == header.value) {
            return i;
        }
    }
    return std::nullopt;
'''))
R('dt-find-iter', 'C05', (T, '''    const auto it = std::find_if(table_.begin(), table_.end(),
                                 [name](const HttpHeader& hdr) { return name == hdr.name; });
    if (it == table_.end()) {
        return std::nullopt;
    }
    return std::distance(table_.begin(), it);
''', '''    size_t index = 0;
    for (const auto& entry : table_) {
        if (entry.name == name) {
            return index;
        }
        ++index;
    }
    return std::nullopt;
'''), (T, '''    const size_t entry_size = get_header_entry_size(header);
    if (entry_size > max_table_size_) {''', '''    const size_t entry_size = header.name.length() + header.value.length() + 32;
    const bool fits = entry_size <= max_table_size_;
    if (!fits) {'''))
R('dt-ranges', 'C05', (T, '''    const auto it = std::find_if(table_.begin(), table_.end(),
                                 [name](const HttpHeader& hdr) { return name == hdr.name; });
    if (it == table_.end()) {
        return std::nullopt;
    }
    return std::distance(table_.begin(), it);
''', '''    const auto it = std::ranges::find(table_, name, &HttpHeader::name);
    return it == table_.end() ? std::nullopt
                              : std::optional<size_t>(static_cast<size_t>(it - table_.begin()));
'''), (T, '#include <spdlog/spdlog.h>\n', '#include <spdlog/spdlog.h>\n\n#include <algorithm>\n'))
R('dt-clear-loop', 'C05', (T, '''        table_.clear();
        table_size_ = 0;
        return;
    }

    while (table_size_ + entry_size > max_table_size_) {''', '''        set_empty();
        return;
    }

    while (!table_.empty() && max_table_size_ - table_size_ < entry_size) {'''), (T, '''int DynamicTable::size() const {''', '''void DynamicTable::set_empty() {
    table_size_ = 0;
    table_.clear();
}

int DynamicTable::size() const {'''), ('lib/hpack/dynamic_table.h', '''   private:
''', '''   private:
    void set_empty();
'''))
D = 'lib/hpack/header_block_decoder.cpp'
R('dec-if-chain', 'C06', (D, '''            case HeaderFieldType::LiteralIncremental: {
                if (auto hdr = decode_literal_field(6, reader)) {
                    dynamic_table_.insert(hdr.value());
                    hdrs.push_back(hdr.value());
                } else {
                    return std::unexpected(hdr.error());
                }
                break;
            }''', '''            case HeaderFieldType::LiteralIncremental: {
                const auto hdr = decode_literal_field(6, reader);
                if (!hdr) {
                    return std::unexpected(hdr.error());
                }
                hdrs.push_back(*hdr);
                dynamic_table_.insert(*hdr);
                break;
            }'''))
R('dec-lookup-helper', 'C06', (D, '''    auto name = dynamic_table_.get(dynamic_index).name;
    spdlog::trace("read indexed header name from dynamic table (idx: {}, name: {})", dynamic_index,
                  name);
    return name;''', '''    return dynamic_table_.get(dynamic_index).name;'''), (D, '''    auto table_index = index - 1;
    if (table_index < STATIC_TABLE.size()) {
        // static lookup
        auto hdr = STATIC_TABLE[table_index];
        spdlog::trace("read indexed header from static table (idx: {}, name: {}, val: {})",
                      table_index, hdr.name, hdr.value);
        return hdr.to_http_header();
    }

    // dynamic lookup
    auto dynamic_index = table_index - STATIC_TABLE.size();''', '''    if (index <= STATIC_TABLE.size()) {
        const auto& entry = STATIC_TABLE.at(index - 1);
        return HttpHeader{.name = std::string{entry.name}, .value = std::string{entry.value}};
    }

    // dynamic lookup
    const auto dynamic_index = index - STATIC_TABLE.size() - 1;'''))
R('dec-name-via-header', 'C06', (D, '''std::expected<std::string, FrameError> HeaderBlockDecoder::read_indexed_header_name(size_t index) {
    auto table_index = index - 1;
    if (table_index < STATIC_TABLE.size()) {
        // static lookup
        auto name = STATIC_TABLE[table_index].name;
        spdlog::trace("read indexed header name from static table (idx: {}, name: {})", table_index,
                      name);
        return std::string(name);
    }

    // dynamic lookup
    auto dynamic_index = table_index - STATIC_TABLE.size();
    if (dynamic_index >= dynamic_table_.count()) {
        spdlog::error("invalid dynamic table index lookup for header name (idx: {}, sz: {})", index,
                      dynamic_table_.count());
        return std::unexpected(FrameError::ProtocolError);
    }
    auto name = dynamic_table_.get(dynamic_index).name;
    spdlog::trace("read indexed header name from dynamic table (idx: {}, name: {})", dynamic_index,
                  name);
    return name;
}''', '''std::expected<std::string, FrameError> HeaderBlockDecoder::read_indexed_header_name(size_t index) {
    auto hdr = read_indexed_header(index);
    if (!hdr) {
        return std::unexpected(hdr.error());
    }
    return hdr->name;
}'''))
R('dec-literal-if', 'C06', (D, '''    const auto name =
        is_new_name ? read_length_and_string(reader) : read_indexed_header_name(*index);
    if (!name) {
        return std::unexpected(FrameError::ProtocolError);
    }

    auto value = read_length_and_string(reader);
    if (!value) {
        return std::unexpected(FrameError::ProtocolError);
    }
    spdlog::trace("decoded header: name: {}, value: {}", name.value(), value.value());
    return HttpHeader{name.value(), *value};''', '''    HttpHeader result;
    if (is_new_name) {
        auto name = read_length_and_string(reader);
        if (!name) {
            return std::unexpected(name.error());
        }
        result.name = std::move(*name);
    } else {
        auto name = read_indexed_header_name(*index);
        if (!name) {
            return std::unexpected(name.error());
        }
        result.name = *name;
    }
    auto value = read_length_and_string(reader);
    if (!value.has_value()) {
        return std::unexpected(value.error());
    }
    result.value = std::move(*value);
    return result;'''))
R('dec-string-inline', 'C04 C06', (D, '''    if (is_huffman) {
        return decode_huffman_string(size, data);
    }
    if (!string_length_within_limit(size)) {
        return std::unexpected{FrameError::ProtocolError};
    }
    auto raw_data = data.subspan(0, size);
    return std::string{raw_data.begin(), raw_data.end()};''', '''    if (!is_huffman) {
        if (size > MAX_HEADER_STRING_LENGTH) {
            return std::unexpected{FrameError::ProtocolError};
        }
        const auto raw_data = data.first(size);
        return std::string(reinterpret_cast<const char*>(raw_data.data()), raw_data.size());
    }
    return decode_huffman_string(size, data);'''))
R('dec-byte-ifs', 'C06', ('lib/hpack/header_field.h', '''        if (first_byte & 0x80) {
            return HeaderFieldType::Indexed;
        }
        if (first_byte & 0x40) {
            return HeaderFieldType::LiteralIncremental;
        }
        if (first_byte & 0x20) {
            return HeaderFieldType::SizeUpdate;
        }
        if (first_byte & 0x10) {
            return HeaderFieldType::LiteralNeverIndex;
        }
        if (first_byte < 0x10) {
            return HeaderFieldType::LiteralNoIndex;
        }
        return HeaderFieldType::Invalid;''', '''        switch (first_byte >> 4) {
            case 0:
                return HeaderFieldType::LiteralNoIndex;
            case 1:
                return HeaderFieldType::LiteralNeverIndex;
            case 2:
            case 3:
                return HeaderFieldType::SizeUpdate;
            default:
                return first_byte >= 0x80 ? HeaderFieldType::Indexed
                                          : HeaderFieldType::LiteralIncremental;
        }'''))
R('reader-span', 'C01 C04 C06', ('lib/hpack/byte_reader.cpp', '''    const auto result = data_.subspan(pos_, count);
    pos_ += count;
''', '''    const auto start = std::exchange(pos_, pos_ + count);
    const std::span<const uint8_t> result{data_.data() + start, count};
'''), ('lib/hpack/byte_reader.cpp', '''    return data_[pos_++];''', '''    const auto octet = data_[pos_];
    pos_ += 1;
    return octet;'''), ('lib/hpack/byte_reader.cpp', '#include "byte_reader.h"\n', '#include "byte_reader.h"\n\n#include <utility>\n'))
R('reader-has', 'C01 C06', ('lib/hpack/byte_reader.cpp', '''    return count <= data_.size() - pos_;''', '''    const auto remaining = data_.size() - pos_;
    return remaining >= count;'''))
