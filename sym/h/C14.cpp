//@ py: import itertools
//@+ P = ["".join(p) for p in itertools.product("SAUWR", repeat=3)]
//@+ Q = [p for p in P if "S" in p]
//@ cases-quick: [(p, [sum((ord(c) - 64) << (8*i) for i, c in enumerate(p)), 3]) for p in Q] + [(p, [sum((ord(c) - 64) << (8*i) for i, c in enumerate(p)), len(p)]) for p in ("U","W","A","S","X","M","SM","SXS","AXS","MS","SSSS","LS","SL","V","SVS")]
//@ cases-thorough: [(p, [sum((ord(c) - 64) << (8*i) for i, c in enumerate(p)), len(p)]) for p in ["".join(q) for k in (1,2,3) for q in itertools.product("SAUWRXML", repeat=k)] + ["".join(q) for q in itertools.product("SAUWRX", repeat=4) if q.count("S") > 1] + ["V","VV","SV","VS","SVS"]]
//@ bounds: every sequence of up to 3 (quick) / 4 (thorough) frames out of: SETTINGS with 0..3 arbitrary entries and arbitrary other flags, SETTINGS ACK, malformed SETTINGS, WINDOW_UPDATE with arbitrary stream and increment, frames of any unknown type with arbitrary flags and payload (of up to 3 bytes, and of eleven lengths up to 16384), DATA/PRIORITY/RST_STREAM, requests; SETTINGS of the largest size
//@ outside: SETTINGS ACK with payload, SETTINGS on another stream, PING
//@ reach: acked ended
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader)
// C14: one ACK per SETTINGS, in order.
#include "../env/conn.h"
using namespace env;
static uint8_t any(const char* n) { return sym_val<uint8_t>(n); }
int harness_main() {
    Session s;
    s.capture("/", "GET", {200});
    s.open();
    uint64_t code = (uint64_t)sym_param(0); int len = (int)sym_param(1);
    Bytes all = preface();
    std::string expect;      // 'a' for an ACK, 'r' for a response, in order
    bool ended = false;
    for (int i = 0; i < len; ++i) {
        char c = (char)(64 + ((code >> (8 * i)) & 0xff));
        if (c == 'S') {
            size_t k = (size_t)sym_choose(4, "entries");
            Bytes p(6 * k); if (k) sym_make(p.data(), p.size(), "settings");
            uint8_t f = any("flags"); sym_assume((f & 1) == 0);
            add(all, frame(4, f, 0, p));
            if (!ended) expect += 'a';
        } else if (c == 'L') {
            Bytes p(6 * 2730); sym_make(p.data(), 12, "settings");
            add(all, frame(4, 0, 0, p));
            if (!ended) expect += 'a';
        } else if (c == 'A') {
            uint8_t f = any("flags"); sym_assume(f & 1);
            add(all, frame(4, f, 0, {}));
        } else if (c == 'M') {
            Bytes p(1 + sym_choose(5, "odd")); sym_make(p.data(), p.size(), "settings");
            add(all, frame(4, 0, 0, p));
            ended = true;
        } else if (c == 'U') {
            uint8_t t = any("type"); sym_assume(t >= 10);
            Bytes p(sym_choose(4, "size")); if (p.size()) sym_make(p.data(), p.size(), "payload");
            Bytes f = frame(t, any("flags"), 0, p); sym_make(f.data() + 5, 4, "stream");
            add(all, f);
        } else if (c == 'V') {
            static const size_t sz[] = {4, 5, 6, 8, 9, 12, 100, 255, 256, 16383, 16384};
            uint8_t t = any("type"); sym_assume(t >= 10 || t == 0 || t == 2 || t == 3);
            Bytes p(sz[sym_choose(11, "size")]); sym_make(p.data(), p.size() < 9 ? p.size() : 9, "payload");
            if (t == 2) sym_assume(p.size() == 5);
            if (t == 3) sym_assume(p.size() == 4);
            if (t == 0) p[0] = 0;                 // also right when padded
            Bytes f = frame(t, any("flags"), 1, p);
            add(all, f);
        } else if (c == 'W') {
            Bytes p(4); sym_make(p.data(), 4, "increment");
            Bytes f = frame(8, any("flags"), 0, p); sym_make(f.data() + 5, 4, "stream");
            add(all, f);
        } else if (c == 'X') {
            static const uint8_t ty[3] = {0, 2, 3}; static const uint8_t ln[3] = {7, 5, 4};
            size_t k = (size_t)sym_choose(3, "kind");
            Bytes p(ln[k]); sym_make(p.data(), p.size(), "payload");
            add(all, frame(ty[k], 0, 1, p));
        } else if (c == 'R') {
            add(all, request(2 * i + 1, "/"));
            if (!ended) expect += 'r';
        }
    }
    s.give(all);
    sym_assert(s.over == ended, "only malformed SETTINGS ends the connection");
    Out o(s.w.out);
    sym_assert(o.whole && o.f.size() >= 1, "whole frames are sent");
    std::string got;
    for (size_t i = 1; i < o.f.size(); ++i) {
        const Frame& f = o.f[i];
        if (f.type == 4) { sym_assert(f.flags == 1 && f.len == 0 && f.sid == 0, "a SETTINGS frame sent after the first is an empty ACK on stream 0"); got += 'a'; }
        else if (f.type == 1) got += 'r';
        else if (ended && f.type == 7) {}
        else sym_fail("unknown frames, ACKs and flow-control updates produce no output");
    }
    sym_assert(got == expect, "exactly one ACK is sent per well-formed SETTINGS frame, in order");
    sym_reach(ended ? "ended" : "acked");
    sym_observe("out", s.w.out.data(), s.w.out.size());
    return 0;
}
