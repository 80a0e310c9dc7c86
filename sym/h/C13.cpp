//@ cases-quick: [("any24",[0,0]),("any24_tail",[0,1])] + [(f"split{n}",[1,n]) for n in range(0,25)] + [(f"short{n}",[2,n]) for n in (0,1,9,23)] + [(f"handshake_err{n}",[3,n]) for n in range(1,6)] + [("handshake_late",[4,0]),("two_reads",[5,0])]
//@ cases-thorough: [("any24",[0,0]),("any24_tail",[0,1])] + [(f"split{n}",[1,n]) for n in range(0,25)] + [(f"short{n}",[2,n]) for n in range(0,24)] + [(f"handshake_err{n}",[3,n]) for n in range(1,6)] + [("handshake_late",[4,0]),("two_reads",[5,0])]
//@ bounds: all 2^192 openings of 24 bytes; every two-part (and, over two arbitrary cut points, three-part) split of the opening; every handshake outcome, repeated; frames queued behind the opening
//@ outside: openings split into more than three parts
//@ reach: accepted refused waiting
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader)
// C13: nothing happens before handshake and preface; the first frame sent is SETTINGS.
#include "../env/conn.h"
using namespace env;
static void firstFrames(const Bytes& out, size_t owed) {
    Out o(out);
    sym_assert(o.whole && o.f.size() >= 1, "the server answers the preface with whole frames");
    const Frame& s = o.f[0];
    sym_assert(s.type == 4 && s.flags == 0 && s.sid == 0 && !s.reserved && s.len % 6 == 0, "the first frame sent is a non-ACK SETTINGS frame on stream 0");
    size_t plain = 0;
    for (auto& f : o.f) plain += f.type == 4 && !(f.flags & 1);
    sym_assert(plain == 1, "a single SETTINGS frame is sent");
    // the limit in force is the announced value, or the protocol's default when none is announced
    uint32_t max = 16384;
    for (size_t i = 0; i + 6 <= s.len; i += 6) if (s.p[i] == 0 && s.p[i + 1] == 5) max = (uint32_t)s.p[i + 2] << 24 | s.p[i + 3] << 16 | s.p[i + 4] << 8 | s.p[i + 5];
    sym_assert(max == 16384, "the announced maximum frame size is the 16384 the server enforces");
    sym_assert(o.f.size() == 1 + owed, "nothing else is sent before it is owed");
}
int harness_main() {
    Session s;
    s.capture("/", "GET", {200});
    Bytes pre = preface();
    Bytes ack = frame(4, 0, 0, {});
    int mode = (int)sym_param(0); int n = (int)sym_param(1);
    s.open();
    if (mode == 0) {
        Bytes b(24); sym_make(b.data(), 24, "opening");
        Bytes all = b;
        if (n) { add(all, ack); add(all, request(1, "/")); }
        s.give(all);
        if (same(b, pre)) {
            sym_assert(!s.over, "the exact preface is accepted");
            firstFrames(s.w.out, 0 + (n ? 2 : 0));
            sym_assert(s.seen.size() == (n ? 1u : 0u), "frames after the preface are processed");
            sym_reach("accepted");
        } else {
            sym_assert(s.over, "any other opening discards the connection");
            sym_assert(s.w.out.empty() && s.seen.empty(), "nothing is sent or served on a wrong opening");
            sym_reach("refused");
        }
    } else if (mode == 1 || mode == 2) {
        Bytes a(pre.begin(), pre.begin() + n), rest(pre.begin() + n, pre.end());
        if (mode == 1 && n == 24) rest.clear();
        s.give(a);
        if (n < 24) {
            sym_assert(!s.over && s.w.out.empty(), "a part of the preface leads to no output and no discard");
            sym_assert(s.last == Http2ProcessResult::WantRead, "the rest of the preface is waited for");
            sym_reach("waiting");
        }
        if (mode == 2) { s.w.eof = true; s.drive(); sym_assert(s.over && s.w.out.empty(), "a peer that leaves before the preface gets nothing"); return 0; }
        add(rest, request(1, "/"));
        s.give(rest);
        sym_assert(!s.over && s.seen.size() == 1, "the completed preface is accepted");
        firstFrames(s.w.out, 1);
        sym_reach("accepted");
    } else if (mode == 3 || mode == 4) {
        Bytes all = pre; add(all, request(1, "/"));
        s.w.hs = 1 + (int)TransportError::WantReadOrWrite;
        s.give(all);
        s.drive();
        sym_assert(!s.over && s.w.out.empty() && s.seen.empty(), "while the handshake is under way nothing is served or sent");
        sym_reach("waiting");
        if (mode == 3) {
            s.w.hs = n;
            s.drive();
            if (n != 1 + (int)TransportError::WantReadOrWrite) sym_assert(s.over, "a failed handshake discards the connection");
            sym_assert(s.w.out.empty() && s.seen.empty(), "nothing is served or sent without a handshake");
            sym_reach("refused");
        } else {
            s.w.hs = 0;
            s.drive();
            sym_assert(!s.over && s.seen.size() == 1, "after the handshake the session is served");
            firstFrames(s.w.out, 1);
            sym_reach("accepted");
        }
    } else {
        size_t a = (size_t)sym_choose(25, "first cut"), b = (size_t)sym_choose(25, "second cut");
        Bytes all = pre; add(all, request(1, "/")); add(all, request(3, "/"));
        s.w.in = all; s.w.limit = a; s.drive(); 
        if (a < 24) sym_assert(s.w.out.empty(), "no output before the whole preface");
        s.w.limit = a + b; s.drive();
        if (a + b < 24) sym_assert(s.w.out.empty(), "no output before the whole preface");
        s.w.limit = all.size(); s.drive();
        sym_assert(!s.over && s.seen.size() == 2, "the session is served");
        firstFrames(s.w.out, 2);
        sym_reach("accepted");
    }
    sym_observe("out", s.w.out.data(), s.w.out.size());
    return 0;
}
