//@ cases-quick: [("names",[7,0])] + [(f"field_{f}_{n}", [0,f,n]) for f in range(4) for n in (0,1,2,3)] + [(f"long_{f}_{n}", [1,f,n]) for f in range(4) for n in (300,4096)] + [("length",[2,0])] + [(f"status_{k}",[2,k]) for k in range(1,10)] + [("time",[3,0])] + [(f"conn_{k}", [4,k]) for k in range(7)] + [("off",[5,0]),("order",[6,0]),("address",[8,0])]
//@ cases-thorough: [("names",[7,0])] + [(f"field_{f}_{n}", [0,f,n]) for f in range(4) for n in range(6)] + [(f"long_{f}_{n}", [1,f,n]) for f in range(4) for n in (300,4096)] + [("length",[2,0])] + [(f"status_{k}",[2,k]) for k in range(1,10)] + [("time",[3,0])] + [(f"conn_{k}", [4,k]) for k in range(7)] + [("off",[5,0]),("order",[6,0]),("address",[8,0])]
//@ bounds: header names of 5 to 10 arbitrary bytes beside the ones that are logged; requests whose method, path, referrer or user agent has up to three (thorough: five) arbitrary bytes, or 300 or 4096 bytes with an arbitrary one; the headers in any order, absent, or among others; every status 100 to 999 and body lengths around every power of ten to 10^19; every local time and zone; connections with served, failing, unknown, incomplete and refused requests and several at a time, with and without a client address, of up to 46 characters; no access log configured
//@ outside: the log file itself (the logging library writes the line); bytes above 0x7e are taken as they come or escaped
//@ assumptions: local time and strftime behave as in sym/env/wallclock.h
//@ reach: verbatim escaped logged
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader)
// C31: each request is one faithful access-log line.
#include "../env/conn.h"
#include "../env/wallclock.h"
#include "access_log.h"
using namespace ion;
using env::Bytes;
static void clock0() {
    wall::local = {}; wall::local.tm_mday = 7; wall::local.tm_mon = 2; wall::local.tm_year = 126; wall::local.tm_hour = 13; wall::local.tm_min = 5; wall::local.tm_sec = 9; wall::local.tm_gmtoff = -12600; wall::local.tm_zone = "X";
    wall::now_ns = 1'772'890'509'123'456'789;
}
static bool clean(const std::string& l) { unsigned bad = 0; for (unsigned char c : l) bad |= (unsigned)((c < 0x20) | (c == 0x7f)); return !bad; }
static bool eq(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; unsigned d = 0; for (size_t i = 0; i < a.size(); ++i) d |= (unsigned char)(a[i] ^ b[i]); return !d; }
static std::string line(const std::string& ip, const std::string& m, const std::string& p, int st, const std::string& len, const std::string& ref, const std::string& ua) {
    return ip + " - - " + wall::clf() + " \"" + m + " " + p + " HTTP/2\" " + std::to_string(st) + " " + len + " \"" + ref + "\" \"" + ua + "\"";
}
static const char* kName[] = {":method", ":path", "referer", "user-agent"};
int harness_main() {
    int mode = (int)sym_param(0);
    env::log_on = true;
    clock0();
    std::vector<HttpHeader> h;
    std::string v[4] = {"GET", "/p", "http://r/", "agent/1.0 (x)"};
    auto build = [&](unsigned absent, bool back) {
        h.clear();
        for (int i = 0; i < 4; ++i) { int k = back ? 3 - i : i; if (!(absent >> k & 1)) h.push_back({kName[k], v[k]}); if (i == 1) h.push_back({"x-user-agent", "no"}); }
        h.push_back({"accept", "*/*"});
    };
    if (mode == 0) {
        int f = (int)sym_param(1); size_t n = (size_t)sym_param(2);
        v[f].assign(n, 0);
        sym_make(v[f].data(), n, "value");
        bool plain = true, some = n > 0;
        for (unsigned char c : v[f]) plain = plain & (c >= 0x20) & (c < 0x7f) & (c != '"') & (c != '\\');
        build(0, false);
        AccessLog::log_request(h, 200, 12, "10.1.2.3");
        sym_assert(env::log_lines.size() == 1, "each request is exactly one line");
        const std::string& l = env::log_lines[0];
        sym_assert(clean(l), "no header content puts a control character into the log");
        if (!some) { std::string w = v[f]; sym_assert(eq(l, line("10.1.2.3", v[0], v[1], 200, "12", v[2], v[3])) || [&] { v[f] = "-"; return eq(l, line("10.1.2.3", v[0], v[1], 200, "12", v[2], v[3])); }(), "the line has the request's fields"); return 0; }
        if (plain) { sym_assert(eq(l, line("10.1.2.3", v[0], v[1], 200, "12", v[2], v[3])), "the line has the request's fields"); sym_reach("verbatim"); }
        else {
            // what surrounds the field is untouched
            std::string mark = v[f]; v[f] = "\1";
            std::string w = line("10.1.2.3", v[0], v[1], 200, "12", v[2], v[3]);
            size_t at = w.find('\1');
            std::string pre = w.substr(0, at), post = w.substr(at + 1);
            sym_assert(l.size() >= pre.size() + post.size() && eq(l.substr(0, pre.size()), pre) && eq(l.substr(l.size() - post.size()), post), "the other fields are untouched");
            sym_reach("escaped");
        }
    } else if (mode == 1) {
        int f = (int)sym_param(1);
        size_t z = (size_t)sym_param(2);
        v[f] = std::string(z, 'u');
        uint16_t at = sym_val<uint16_t>("at"); sym_assume(at < 3 || at == z / 2 || (at > z - 4 && at < z));
        v[f][(size_t)sym_concretize(at)] = (char)sym_val<uint8_t>("byte");
        bool plain = true;
        for (unsigned char c : v[f]) plain = plain & (c >= 0x20) & (c < 0x7f) & (c != '"') & (c != '\\');
        build(0, true);
        AccessLog::log_request(h, 404, 0, "::1");
        sym_assert(env::log_lines.size() == 1, "each request is exactly one line");
        sym_assert(clean(env::log_lines[0]), "no header content puts a control character into the log");
        if (plain) sym_assert(eq(env::log_lines[0], line("::1", v[0], v[1], 404, "0", v[2], v[3])), "the line has the request's fields");
    } else if (mode == 2) {
        int hundreds = (int)sym_param(1);
        uint8_t st = sym_val<uint8_t>("status"); sym_assume(st < 100);
        uint64_t pw = 1; uint8_t e = hundreds ? 0 : sym_val<uint8_t>("power"); sym_assume(e < 20);
        for (uint64_t i = sym_concretize(e); i > 0; --i) pw *= 10;
        uint64_t len = pw + sym_choose(3, "off") - 1;
        bool any = hundreds > 0;
        int s = any ? hundreds * 100 + (int)sym_concretize(st) : 200;
        if (any) len = 5;
        build(0, false);
        AccessLog::log_request(h, (uint16_t)s, len, "1.2.3.4");
        sym_assert(env::log_lines.size() == 1 && eq(env::log_lines[0], line("1.2.3.4", v[0], v[1], s, std::to_string(len), v[2], v[3])), "the line has the request's status and body length");
    } else if (mode == 3) {
        auto& t = wall::local;
        t.tm_mday = sym_val<uint8_t>("day"); t.tm_mon = sym_val<uint8_t>("month"); t.tm_year = sym_val<uint8_t>("year"); t.tm_hour = sym_val<uint8_t>("hour"); t.tm_min = sym_val<uint8_t>("min"); t.tm_sec = sym_val<uint8_t>("sec");
        int16_t off = sym_val<int16_t>("offset");
        sym_assume((t.tm_mday >= 1) & (t.tm_mday <= 31) & (t.tm_mon < 12) & (t.tm_year >= 70) & (t.tm_year < 240) & (t.tm_hour < 24) & (t.tm_min < 60) & (t.tm_sec <= 60) & (off >= -840) & (off <= 840));
        t.tm_gmtoff = (long)off * 60;
        build(0, false);
        AccessLog::log_request(h, 200, 1, "1.2.3.4");
        sym_assert(env::log_lines.size() == 1 && eq(env::log_lines[0], line("1.2.3.4", v[0], v[1], 200, "1", v[2], v[3])), "the line has the local time");
        sym_assert(wall::asked == (time_t)(wall::now_ns / 1'000'000'000), "the time is the current one");
    } else if (mode == 4) {
        int k = (int)sym_param(1);
        env::Session s;
        s.capture("/p", "GET", HttpResponse{200, Bytes(123, 'x'), {}});
        s.capture("/e", "POST", HttpResponse{204, {}, {}});
        s.r.add_route("/bad", "GET", [](const HttpRequest&) -> HttpResponse { throw std::runtime_error("x"); });
        if (k == 5) s.c = std::make_unique<Http2Connection>(std::make_unique<env::T>(s.w), "", s.r); else s.open();
        std::string ip = k == 5 ? "-" : "10.0.0.1";
        auto req = [](uint32_t id, std::vector<std::pair<std::string, std::string>> hs) { Bytes b; for (auto& [n, x] : hs) ref::putLiteral(b, n, x); return env::frame(1, 5, id, b); };
        s.give(env::preface());
        std::vector<std::string> want;
        if (k == 0 || k == 5) {
            std::string ua(3, 0); sym_make(ua.data(), 3, "agent");
            bool plain = true; for (unsigned char c : ua) plain = plain & (c >= 0x20) & (c < 0x7f) & (c != '"') & (c != '\\');
            sym_assume(plain);
            s.give(req(1, {{":method", "GET"}, {":path", "/p"}, {"user-agent", ua}}));
            want.push_back(line(ip, "GET", "/p", 200, "123", "-", ua));
            s.give(req(3, {{":method", "POST"}, {":path", "/e"}, {"referer", "r"}}));
            want.push_back(line(ip, "POST", "/e", 204, "0", "r", "-"));
        } else if (k == 1) {
            s.give(req(1, {{":method", "GET"}, {":path", "/bad"}})); want.push_back(line(ip, "GET", "/bad", 500, "0", "-", "-"));
            s.give(req(3, {{":method", "PUT"}, {":path", "/none"}})); want.push_back(line(ip, "PUT", "/none", 404, "0", "-", "-"));
        } else if (k == 2) {
            s.give(req(1, {{":method", "GET"}})); want.push_back(line(ip, "GET", "-", 400, "0", "-", "-"));
            s.give(req(3, {{":path", "/p"}, {"user-agent", "u"}})); want.push_back(line(ip, "-", "/p", 400, "0", "-", "u"));
            s.give(req(5, {})); want.push_back(line(ip, "-", "-", 400, "0", "-", "-"));
        } else if (k == 3) {
            // several in one read, output blocked in between
            Bytes in; for (uint32_t i = 0; i < 4; ++i) env::add(in, req(1 + 2 * i, {{":method", i & 1 ? "POST" : "GET"}, {":path", i & 1 ? "/e" : "/p"}}));
            s.give(in);
            for (int i = 0; i < 4; ++i) want.push_back(line(ip, i & 1 ? "POST" : "GET", i & 1 ? "/e" : "/p", i & 1 ? 204 : 200, i & 1 ? "0" : "123", "-", "-"));
        } else if (k == 6) {
            static const size_t sz[] = {16255, 16384, 65535, 65536, 70001};
            size_t z = sz[sym_choose(5, "size")];
            s.r.add_route("/big", "GET", [z](const HttpRequest&) { return HttpResponse{200, Bytes(z, 7), {}}; });
            s.give(req(1, {{":method", "GET"}, {":path", "/big"}})); want.push_back(line(ip, "GET", "/big", 200, std::to_string(z), "-", "-"));
        } else {
            // frames that are no requests, then one that breaks the protocol: nothing was answered
            s.give(env::frame(4, 0, 0, {})); s.give(env::frame(8, 0, 0, {0, 0, 0, 1}));
            s.give(env::frame(1, 5, 1, Bytes{0x80}));
        }
        sym_assert(env::log_lines.size() == want.size(), "each answered request is exactly one line");
        for (size_t i = 0; i < want.size(); ++i) sym_assert(eq(env::log_lines[i], want[i]), "the line has the request's fields");
        if (!want.empty()) sym_reach("logged");
    } else if (mode == 7) {
        size_t n = 5 + (size_t)sym_choose(6, "length");
        std::string nm(n, 0);
        sym_make(nm.data(), n, "name");
        bool low = true;
        for (unsigned char c : nm) low = low & !((c >= 'A') & (c <= 'Z'));      // names are lower case in HTTP/2
        sym_assume(low);
        for (auto k : kName) sym_assume(!eq(nm, k));
        build(sym_bool("absent") ? 15 : 0, false);
        bool first = sym_bool("first");
        h.insert(first ? h.begin() : h.end(), {nm, "wrong"});
        if (h.size() < 5) for (auto& x : v) x = "-";
        AccessLog::log_request(h, 200, 3, "1.2.3.4");
        sym_assert(env::log_lines.size() == 1 && eq(env::log_lines[0], line("1.2.3.4", v[0], v[1], 200, "3", v[2], v[3])), "only the request's own fields are logged");
    } else if (mode == 8) {
        static const char* ips[] = {"::1", "255.255.255.255", "fe80::1%eth0", "::ffff:255.255.255.255", "2001:db8:1234:5678:9abc:def0:1234:5678", "2001:0db8:1234:5678:9abc:def0:255.255.255.255"};
        std::string ip = ips[sym_choose(6, "address")];
        for (size_t at : {ip.size() - 1, ip.size() / 2}) { uint8_t c = sym_val<uint8_t>("character"); sym_assume(c > 0x20 && c < 0x7f && c != '"' && c != '\\'); ip[at] = (char)c; }
        build(0, false);
        AccessLog::log_request(h, 200, 12, ip);
        sym_assert(env::log_lines.size() == 1 && eq(env::log_lines[0], line(ip, v[0], v[1], 200, "12", v[2], v[3])), "the line has the client's address");
    } else if (mode == 5) {
        env::log_on = false;
        build(0, false);
        AccessLog::log_request(h, 200, 12, "10.1.2.3");
        sym_assert(env::log_lines.empty(), "nothing is logged without an access log");
    } else {
        uint8_t absent = sym_val<uint8_t>("absent"); sym_assume(absent < 16);
        build((unsigned)sym_concretize(absent), sym_bool("back"));
        for (int i = 0; i < 4; ++i) if (absent >> i & 1) v[i] = "-";
        bool noip = sym_bool("noip");
        AccessLog::log_request(h, 201, 9, noip ? "" : "10.9.8.7");
        sym_assert(env::log_lines.size() == 1 && eq(env::log_lines[0], line(noip ? "-" : "10.9.8.7", v[0], v[1], 201, "9", v[2], v[3])), "the line has the request's fields, a dash for an absent one");
    }
    return 0;
}
