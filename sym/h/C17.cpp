//@ cases-quick: [(f"small_{d}", [0,d,0]) for d in (1,2,3,4)] + [("any_size",[0,2,1]), ("pieces_any",[1,2,1])] + [(f"pieces_{d}", [1,d,0]) for d in (2,3,4)] + [(f"large_{d}", [2,d,0]) for d in (2,3)] + [("drip",[3,0,0]),("drip_err",[3,1,0]),("block_all",[4,0,0])] + [(f"end_{d}", [5,d,0]) for d in (2,3)] + [("huge",[6,1,0]),("vast",[7,0,0]),("round",[8,1,0])]
//@ cases-thorough: [(f"small_{d}", [0,d,0]) for d in range(1,7)] + [("any_size",[0,3,1]), ("pieces_any",[1,3,1])] + [(f"pieces_{d}", [1,d,0]) for d in range(2,7)] + [(f"large_{d}", [2,d,0]) for d in (2,3,4,5)] + [("drip",[3,0,0]),("drip_err",[3,1,0]),("block_all",[4,0,0])] + [(f"end_{d}", [5,d,0]) for d in (2,3,4)] + [("huge",[6,2,0]),("vast",[7,1,0]),("round",[8,2,0])]
//@ bounds: conversations of SETTINGS, ACKs and up to 4 responses (up to 40 KB, one of 140 KB, one of 600 KB, one of 2 MB), the input arriving at once or piece by piece; every sequence of up to 4 (quick) / 6 (thorough) write results out of full, would-block, nothing, one byte, half, all but one byte and each fatal error, at the start or after any number of would-blocks; every partial size of the first 2 / 3 writes; one byte at a time throughout; a write / every two writes of 14 sizes around powers of two up to 262144
//@ outside: transports that claim more bytes than they were given
//@ reach: blocked fatal done
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader)
// C17: output is delivered exactly once and in order, whatever the transport does.
#include "../env/conn.h"
using namespace env;
static int depth, decided;
static bool rounds, vast, lastShort, fatal, watch, drip, anySize;
static Bytes R;
static size_t blockFor, skip;
static Session* cur;
static int64_t decide(Wire& w, std::span<const uint8_t> b) {
    if (fatal) sym_fail("the connection writes again after a fatal write error");
    sym_assert(b.size() > 0, "no empty writes");
    // what is offered must be the next bytes due
    sym_assert(w.out.size() + b.size() <= R.size(), "no more is offered than is due");
    for (size_t i = 0; i < b.size(); i += b.size() > 64 ? b.size() / 64 : 1)
        if (b[i] != R[w.out.size() + i]) sym_fail("the bytes offered are not the next ones due");
    if (drip) {
        if (depth && w.out.size() == R.size() / 2) { fatal = true; lastShort = false; return -1 - (int64_t)TransportError::WriteError; }
        lastShort = b.size() > 1; return 1;
    }
    if (blockFor && w.writes >= skip) { --blockFor; lastShort = true; return -1 - (int64_t)TransportError::WantReadOrWrite; }
    if (decided < depth && !(rounds && b.size() < 1000)) {
        ++decided;
        if (anySize) {
            size_t n = b.size() < 60 ? b.size() : 60;
            size_t k = sym_val<uint8_t>("taken"); sym_assume(k <= n);
            if (k == n) k = b.size();
            lastShort = k < b.size();
            return (int64_t)k;
        }
        if (rounds) {
            static const size_t sz[] = {4096, 8192, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 131071, 131072, 131073, 196608, 262144};
            size_t k = sz[sym_choose(14, "taken")];
            if (k > b.size()) k = b.size();
            lastShort = k < b.size();
            return (int64_t)k;
        }
        switch (sym_choose(7, "result")) {
            case 0: break;
            case 1: lastShort = true; sym_reach("blocked"); return -1 - (int64_t)TransportError::WantReadOrWrite;
            case 2: lastShort = true; return 0;
            case 3: lastShort = b.size() > 1; return 1;
            case 4: lastShort = true; return (int64_t)(b.size() / 2);
            case 5: lastShort = true; return (int64_t)(b.size() - 1);
            case 6: {
                static const TransportError e[] = {TransportError::ConnectionClosed, TransportError::ProtocolError, TransportError::WriteError, TransportError::OtherError};
                fatal = true; lastShort = false; sym_reach("fatal");
                return -1 - (int64_t)e[sym_choose(4, "error")];
            }
        }
    }
    lastShort = false;
    return (int64_t)b.size();
}
class TW : public T {      // also watches the reads
public:
    explicit TW(Wire& w) : T(w) {}
    std::expected<ssize_t, TransportError> read(std::span<uint8_t> b) const override {
        if (watch && lastShort) sym_fail("input is read while output is pending");
        return T::read(b);
    }
};
static Bytes body(3);
static void routes(Session& s) {
    s.capture("/a", "GET", {200, body, {{"x-a", "one"}}});
    s.capture("/n", "GET", {204});
    Bytes big(sym_param(0) == 8 ? 300000 : sym_param(0) == 6 ? 140000 : 40000); for (size_t i = 0; i < big.size(); ++i) big[i] = (uint8_t)(i * 13 + (i >> 7));
    if (sym_param(0) == 7) { big.assign(2 << 20, 'v'); for (size_t i = 0; i < big.size(); i += 999) big[i] = (uint8_t)(i >> 8); }
    s.capture("/big", "GET", {200, big});
}
int harness_main() {
    int mode = (int)sym_param(0); depth = (int)sym_param(1); anySize = sym_param(2);
    std::vector<Bytes> in;
    sym_make(body.data(), 3, "body");
    Bytes set = frame(4, 0, 0, {0, 4, 0, 1, 0, 0});
    switch (mode) {
        case 0: case 4: { Bytes b = preface(); add(b, set); add(b, request(1, "/a")); add(b, request(3, "/n")); in = {b}; break; }
        case 1: in = {preface(), set, request(1, "/a"), request(3, "/n")}; break;
        case 2: case 6: case 7: case 8: { Bytes b = preface(); add(b, set); add(b, request(1, "/big")); in = {b, request(3, "/a")}; break; }
        case 3: { Bytes b = preface(); add(b, set); add(b, request(1, "/a")); in = {b, request(3, "/a"), set}; drip = true; break; }
        case 5: { Bytes b = preface(); add(b, request(1, "/a")); in = {b, frame(7, 0, 0, Bytes(8, 0))}; break; }
    }
    {
        Session ref;
        routes(ref);
        ref.open();
        for (auto& b : in) ref.give(b);
        R = ref.w.out;
    }
    Session s; cur = &s;
    routes(s);
    s.w.onWrite = decide;
    s.c = std::make_unique<Http2Connection>(std::make_unique<TW>(s.w), "10.0.0.1", s.r);
    watch = true;
    vast = mode == 7;
    rounds = mode == 8;
    if (vast) skip = (size_t)sym_choose(4, "after"), blockFor = 1 + (size_t)sym_choose(2, "blocks");
    if (mode == 4) { depth = 0; blockFor = (size_t)sym_choose(20, "blocks"); }
    size_t given = 0;
    for (int i = 0; i < 2000; ++i) {
        if (!s.over && s.last == Http2ProcessResult::WantRead && given < in.size()) s.w.give(in[given++]);
        size_t w0 = s.w.writes;
        s.last = s.c->process();
        sym_assert(s.w.writes - w0 < 200, "writes are not retried endlessly within one step");
        if (fatal) {
            sym_assert(s.last == Http2ProcessResult::DiscardConnection, "after a fatal write error the connection is discarded");
            sym_observe("out", s.w.out.data(), s.w.out.size() < 200 ? s.w.out.size() : 200);
            return 0;
        }
        if (s.last == Http2ProcessResult::DiscardConnection) { s.over = true; break; }
        if (s.last == Http2ProcessResult::WantWrite) sym_assert(lastShort, "write readiness is asked for only while bytes remain unsent");
        else {
            sym_assert(!lastShort, "write readiness is asked for while bytes remain unsent");
            if (given == in.size() && s.w.pos == s.w.in.size()) break;
        }
    }
    sym_assert(s.over == (mode == 5), "the connection stays open unless the peer says goodbye");
    sym_assert(same(s.w.out, R), "every byte is delivered exactly once, in order");
    sym_reach("done");
    sym_observe("out", s.w.out.data(), s.w.out.size() < 200 ? s.w.out.size() : 200);
    return 0;
}
