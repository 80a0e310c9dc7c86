//@ cases-quick: [(f"type{t}_len{n}", [0,t,n]) for t in (4,7,8) for n in list(range(0,20))+[24,30]] + [(f"type{t}_len{n}", [0,t,n]) for t in (0,2,3,5,6,9,10,77,255) for n in (0,1,8)] + [(f"headers_len{n}", [1,0,n]) for n in range(0,12)] + [(f"hdr_pad{n}", [2,0,n]) for n in (0,1,4)] + [("anytype_len5",[0,-1,5]), ("anytype_len4",[0,-1,4]), ("anytype_len8",[0,-1,8]), ("pad_long",[3,0,0])]
//@ cases-thorough: [(f"type{t}_len{n}", [0,t,n]) for t in (4,7,8) for n in list(range(0,70))+[1000,16384]] + [(f"type{t}_len{n}", [0,t,n]) for t in (0,2,3,5,6,9,10,77,255) for n in (0,1,8,16384)] + [(f"headers_len{n}", [1,0,n]) for n in range(0,30)] + [(f"hdr_pad{n}", [2,0,n]) for n in range(0,20)] + [(f"anytype_len{n}",[0,-1,n]) for n in range(0,20)] + [("pad_long",[3,0,0])]
//@ bounds: one frame of every type, every flag byte, every stream id and arbitrary payload, of every length 0..19 (quick) / 0..69 (thorough) for SETTINGS, GOAWAY and WINDOW_UPDATE, followed by an ordinary request; HEADERS frames of every length 0..11 / 0..29 with every padding length and every combination of padding and priority flags
//@ outside: HEADERS without END_HEADERS (CONTINUATION is not implemented by the server); SETTINGS ACK frames with a payload
//@ reach: refused served padded
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader)
// C10: malformed frames end the connection; padding and priority never change the request.
#include "../env/conn.h"
using namespace env;
int harness_main() {
    Session s;
    s.r.add_middleware([&s](RouteHandler) { return [&s](const HttpRequest& q) { s.seen.push_back({q.method, q.path, q.headers}); return HttpResponse{200}; }; });
    int mode = (int)sym_param(0), type = (int)sym_param(1); size_t n = (size_t)sym_param(2);
    s.open();
    s.give(preface());
    uint32_t sid = sym_val<uint32_t>("stream");
    uint8_t flags = sym_val<uint8_t>("flags");
    Bytes p;
    if (mode == 0) {
        uint8_t t = type < 0 ? sym_val<uint8_t>("type") : (uint8_t)type;
        if (type < 0) sym_assume(t != 1);
        p.resize(n); sym_make(p.data(), n, "payload");
        Bytes all = frame(t, flags, sid, p);
        add(all, request(7, "/marker"));
        s.give(all);
        bool bad = (t == 8 && n != 4) || (t == 7 && n < 8) || (t == 4 && !(flags & 1) && n % 6);
        if (bad) {
            sym_assert(s.over, "a frame too short or ill-sized for its type ends the connection");
            sym_assert(s.seen.empty(), "nothing after a malformed frame is served");
            sym_reach("refused");
        } else if (t == 7) {
            sym_assert(s.over && s.seen.empty(), "GOAWAY ends the connection");
        } else if (t == 4 && (flags & 1) && n) {
            // outside
        } else {
            sym_assert(!s.over && s.seen.size() == 1 && s.seen[0].path == "/marker", "a well-formed frame of another type leaves the connection in step");
            sym_reach("served");
        }
        return 0;
    }
    flags |= 4;
    static const uint8_t blk[] = {0x82, 0x84, 0x86, 0x00, 0x01, 'k', 0x01, 'v', 0x87, 0x90, 0x91, 0x92};
    bool padded = flags & 8, prio = flags & 0x20;
    if (mode == 1) {      // any length, the first bytes being whatever the flags make of them
        for (size_t i = 0; i < n; ++i) p.push_back(i == 0 && padded ? sym_val<uint8_t>("padlen") : blk[i % 3]);
    } else if (mode == 2) {
        if (padded) p.push_back(sym_val<uint8_t>("padlen"));
        if (prio) for (int i = 0; i < 5; ++i) p.push_back(sym_val<uint8_t>("priority"));
        p.insert(p.end(), blk, blk + 8);
        if (padded) { for (size_t i = 0; i < n; ++i) p.push_back(sym_val<uint8_t>("pad")); sym_assume(p[0] == n || p[0] == n + 8 || p[0] > n + 8); }
    } else {
        sym_assume(padded);
        uint8_t k = sym_val<uint8_t>("padlen");
        p.push_back(k);
        if (prio) for (int i = 0; i < 5; ++i) p.push_back(0);
        p.insert(p.end(), blk, blk + 8);
        for (size_t i = 0; i < 255; ++i) p.push_back(0xff);
        sym_assume(k >= 253);
    }
    size_t a = (padded ? 1 : 0) + (prio ? 5 : 0), pad = 0;
    bool bad = p.size() < a;
    if (!bad && padded) { bad = p.size() - a < p[0]; if (!bad) pad = (size_t)sym_concretize(p[0]); }
    Bytes all = frame(1, flags, sid, p);
    add(all, request(7, "/marker"));
    s.give(all);
    ref::Table rt{65536};
    std::vector<ref::Header> want;
    if (bad || !ref::blockDecode(p.data() + a, p.size() - a - pad, rt, want)) {
        sym_assert(s.over, "a HEADERS frame too short for the fields it declares, or whose block is malformed, ends the connection");
        sym_assert(s.seen.empty(), "nothing is served from or after it");
        sym_reach("refused");
        return 0;
    }
    const std::string *m = header(want, ":method"), *path = header(want, ":path");
    sym_assert(!s.over, "a well-formed HEADERS frame keeps the connection");
    size_t k = m && path ? 1 : 0;
    sym_assert(s.seen.size() == k + 1, "the request and the one after it are served");
    if (k) {
        sym_assert(s.seen[0].method == *m && s.seen[0].path == *path && s.seen[0].headers.size() == want.size(), "the request is that of the bare header block");
        for (size_t i = 0; i < want.size() && i < s.seen[0].headers.size(); ++i) sym_assert(s.seen[0].headers[i].name == want[i].first && s.seen[0].headers[i].value == want[i].second, "each header is that of the bare header block");
        if (padded) sym_reach("padded");
    }
    sym_reach("served");
    return 0;
}
