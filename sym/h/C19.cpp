//@ cases-quick: [(f"steps{d}_hs{h}", [d,h]) for d in (1,2,3,4) for h in (0,1)] + [(f"fixed{i}", [0,i]) for i in range(6)]
//@ cases-thorough: [(f"steps{d}_hs{h}", [d,h]) for d in (1,2,3,4,5,6) for h in (0,1,2)] + [(f"fixed{i}", [0,i]) for i in range(6)]
//@ bounds: every history of up to 4 (quick; some of 5) / 6 (thorough) steps out of: nothing to do, bytes received, request received while writing blocks, write attempt that blocks, partial write, completing write, handshake attempt that waits, handshake completed; with arbitrary time (nanoseconds, up to 18 minutes each) passing before every step
//@ outside: reads and writes that succeed with zero bytes; time passing inside one processing step
//@ reach: alive expired
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader)
// C19: idle connections time out after more than five seconds, active ones do not.
#include "../env/conn.h"
using namespace env;
static int64_t take;      // -1: would block, else at most this many
static bool moved;
static int64_t wr(Wire&, std::span<const uint8_t> b) {
    if (take < 0) return -1 - (int64_t)TransportError::WantReadOrWrite;
    int64_t n = take < (int64_t)b.size() ? take : (int64_t)b.size();
    moved = moved || n > 0;
    return n;
}
int harness_main() {
    Session s;
    s.capture("/", "GET", {200, Bytes(100, 'x')});
    int steps = (int)sym_param(0), hs = (int)sym_param(1);
    static const char* fixed[] = {"nnn", "rnn", "qbbbb", "qbpbw", "nrnrn", "qbwnn"};
    const char* script = nullptr;
    if (steps == 0) { script = fixed[hs]; hs = 0; for (const char* p = script; *p; ++p) ++steps; }
    auto pass = [](const char* n) { uint64_t d = 0; sym_make(&d, 5, n); now_ns = (int64_t)((uint64_t)now_ns + d); };
    now_ns = (int64_t)(sym_val<uint32_t>("start"));
    s.w.onWrite = wr;
    take = 1 << 20;
    s.open();
    int64_t last = now_ns;
    auto check = [&](bool now) {
        if (!now) return;        // shorter histories are cases of their own
        bool t = (uint64_t)now_ns - (uint64_t)last > 5'000'000'000ull;
        sym_assert(s.c->has_timed_out() == t, "timed out exactly when more than five seconds have passed since the last activity");
    };
    auto act = [&](bool handshake) {
        size_t p0 = s.w.pos;
        moved = false;
        s.last = s.c->process();
        if (handshake || s.w.pos > p0 || moved) last = now_ns;
    };
    bool done = hs == 0, began = false, owe = false;
    if (hs) s.w.hs = 1 + (int)TransportError::WantReadOrWrite;
    if (done) { pass("setup"); check(script != nullptr); s.w.give(preface()); act(true); began = true; check(script != nullptr); }
    uint32_t sid = 1;
    bool pending = false;
    for (int i = 0; i < steps; ++i) {
        pass("delta");
        check(script != nullptr);
        if (!done) {
            // waiting for the handshake; input may already be there
            if (sym_bool("complete")) { s.w.hs = 0; done = true; owe = !sym_bool("input"); if (!owe) s.w.give(preface()); act(true); began = true; }
            else act(false);
            check(script != nullptr);
            continue;
        }
        if (owe) {       // the handshake is over, the opening has not come yet
            if (sym_bool("arrives")) { s.w.give(preface()); owe = false; }
            act(false);
            check(script != nullptr);
            continue;
        }
        char c;
        if (script) c = script[i];
        else if (pending) c = "bpw"[sym_choose(3, "pending")];
        else c = "nrqf"[sym_choose(4, "idle")];
        switch (c) {
            case 'n': act(false); break;
            case 'r': { Bytes b = frame(8, 0, 0, {0, 0, 0, 1}); b.resize(1 + (i % 3)); s.w.give(frame(8, 0, 0, {0, 0, 0, 1})); act(false); break; }
            case 'f': { s.w.give(request(sid, "/")); sid += 2; act(false); break; }
            case 'q': { take = -1; s.w.give(request(sid, "/")); sid += 2; act(false); pending = true; break; }
            case 'b': take = -1; act(false); break;
            case 'p': take = 1; act(false); take = -1; break;
            case 'w': take = 1 << 20; act(false); pending = false; break;
        }
        sym_assert(s.last != Http2ProcessResult::DiscardConnection, "the connection stays open");
        check(script != nullptr);
    }
    (void)began;
    pass("finally");
    check(true);
    if (script) { if (s.c->has_timed_out()) sym_reach("expired"); else sym_reach("alive"); }
    return 0;
}
