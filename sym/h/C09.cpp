//@ cases-quick: [("header",[0,0]),("header_parse",[1,0]),("setting",[2,0]),("goaway",[3,0]),("winupd",[4,0])] + [(f"settings_len{n}",[5,n]) for n in list(range(0,31))+[36,60,66,96,600,1542,16380,16384]]
//@ cases-thorough: [("header",[0,0]),("header_parse",[1,0]),("setting",[2,0]),("goaway",[3,0]),("winupd",[4,0])] + [(f"settings_len{n}",[5,n]) for n in list(range(0,200))+[600,1200,1542,6000,16380,16383,16384]]
//@ bounds: every field value and every byte content of the fixed-size codecs (no bound); SETTINGS payloads of every length 0..30 and a few up to 16384 (quick) / 0..199 and a few up to 16384 (thorough), all bytes arbitrary
//@ outside: SETTINGS payload lengths between 200 and 16384 not listed
//@ reach: settings refused roundtrip
//@ sources: lib/http2_frame_reader
// C09: frame codecs.
#include <ionsym.h>
#include <array>
#include "http2_frame_reader.h"
#include "http2_frames.h"
using namespace ion;
static uint32_t be(const uint8_t* p, int n) { uint32_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | p[i]; return v; }
template <size_t N> static uint8_t* exact(const std::array<uint8_t, N>& a) { uint8_t* p = new uint8_t[N]; __builtin_memcpy(p, a.data(), N); return p; }
int harness_main() {
    switch (sym_param(0)) {
        case 0: {
            Http2FrameHeader h{.length = sym_val<uint32_t>("length"), .type = sym_val<uint8_t>("type"), .flags = sym_val<uint8_t>("flags"), .stream_id = sym_val<uint32_t>("stream")};
            std::array<uint8_t, 9> b;
            h.serialize(b);
            sym_assert(be(b.data(), 3) == (h.length & 0xffffff), "the length is at offset 0, 24 bits, big endian");
            sym_assert(b[3] == h.type && b[4] == h.flags, "type and flags are at offsets 3 and 4");
            sym_assert(be(b.data() + 5, 4) == (h.stream_id & 0x7fffffff), "the stream id is at offset 5 with a zero reserved bit");
            auto g = Http2FrameHeader::parse(b);
            if (h.length <= 0xffffff) sym_assert(g.length == h.length, "the length survives");
            sym_assert(g.type == h.type && g.flags == h.flags && g.stream_id == (h.stream_id & 0x7fffffff), "type, flags and stream id survive");
            sym_observe("bytes", b.data(), 9);
            break;
        }
        case 1: {
            std::array<uint8_t, 9> b; sym_make(b.data(), 9, "bytes");
            auto g = Http2FrameHeader::parse(b);
            sym_assert(g.length == be(b.data(), 3) && g.type == b[3] && g.flags == b[4] && g.stream_id == (be(b.data() + 5, 4) & 0x7fffffff), "a received header is read at the RFC offsets, reserved bit ignored");
            std::array<uint8_t, 9> c; g.serialize(c);
            auto d = Http2FrameHeader::parse(c);
            sym_assert(d.length == g.length && d.type == g.type && d.flags == g.flags && d.stream_id == g.stream_id && (c[5] & 0x80) == 0, "parse then serialise is stable");
            break;
        }
        case 2: {
            Http2Setting s{.identifier = sym_val<uint16_t>("id"), .value = sym_val<uint32_t>("value")};
            std::array<uint8_t, 6> b; s.serialize(b);
            sym_assert(be(b.data(), 2) == s.identifier && be(b.data() + 2, 4) == s.value, "a setting is 16 bits of identifier and 32 bits of value, big endian");
            auto t = Http2Setting::parse(b);
            sym_assert(t.identifier == s.identifier && t.value == s.value, "a setting survives");
            break;
        }
        case 3: {
            Http2GoAwayPayload p{.last_stream_id = sym_val<uint32_t>("last"), .error_code = sym_val<uint32_t>("code")};
            std::array<uint8_t, 8> b; p.serialize(b);
            sym_assert(be(b.data(), 4) == (p.last_stream_id & 0x7fffffff) && be(b.data() + 4, 4) == p.error_code, "GOAWAY fields are at their offsets, reserved bit zero");
            auto q = Http2GoAwayPayload::parse(b);
            sym_assert(q.last_stream_id == (p.last_stream_id & 0x7fffffff) && q.error_code == p.error_code, "a GOAWAY payload survives");
            std::array<uint8_t, 8> c; sym_make(c.data(), 8, "bytes");
            uint8_t* raw = exact(c);
            Http2FrameReader fr{Http2FrameHeader{8, 7, 0, 0}, std::span<const uint8_t>(raw, 8)};
            auto r = fr.read_goaway();
            sym_assert(r.last_stream_id == (be(c.data(), 4) & 0x7fffffff) && r.error_code == be(c.data() + 4, 4), "a received GOAWAY is read at the RFC offsets, reserved bit ignored");
            delete[] raw;
            break;
        }
        case 4: {
            Http2WindowUpdate p{.window_size_increment = sym_val<uint32_t>("increment")};
            std::array<uint8_t, 4> b; p.serialize(b);
            sym_assert(be(b.data(), 4) == (p.window_size_increment & 0x7fffffff), "the increment is big endian, reserved bit zero");
            auto q = Http2WindowUpdate::parse(b);
            sym_assert(q.window_size_increment == (p.window_size_increment & 0x7fffffff), "an increment survives");
            std::array<uint8_t, 4> c; sym_make(c.data(), 4, "bytes");
            uint8_t* raw = exact(c);
            Http2FrameReader fr{Http2FrameHeader{4, 8, 0, 0}, std::span<const uint8_t>(raw, 4)};
            auto r = fr.read_window_update();
            sym_assert(r.window_size_increment == (be(c.data(), 4) & 0x7fffffff), "a received increment ignores the reserved bit");
            delete[] raw;
            break;
        }
        case 5: {
            size_t n = (size_t)sym_param(1);
            uint8_t* raw = new uint8_t[n];
            sym_make(raw, n, "payload");
            Http2FrameReader fr{Http2FrameHeader{(uint32_t)n, 4, 0, 0}, std::span<const uint8_t>(raw, n)};
            auto r = fr.read_settings();
            sym_assert(r.has_value() == (n % 6 == 0), "a SETTINGS payload is refused exactly when its length is not a multiple of six");
            if (r) {
                sym_assert(r->size() == n / 6, "as many settings are read as the payload holds");
                for (size_t i = 0; i < n / 6; ++i) sym_assert((*r)[i].identifier == be(raw + 6 * i, 2) && (*r)[i].value == be(raw + 6 * i + 2, 4), "each setting is read in order from its own six bytes");
                sym_reach("settings");
            } else sym_reach("refused");
            delete[] raw;
            return 0;
        }
    }
    sym_reach("roundtrip");
    return 0;
}
