// Hostile server behaviour: byte strings and scripts, from a random source or from fuzzer input.
#pragma once
#include "core.h"

struct Bytes {      // choices taken from fuzzer data, or random
    Rng *r = nullptr; const uint8_t *d = nullptr; size_t n = 0, i = 0;
    uint64_t u(uint64_t m) { if (m <= 1) return 0; if (r) return r->below(m); uint64_t v = 0; for (uint64_t k = m; k > 1; k = (k + 255) / 256) { v = v << 8 | (i < n ? d[i] : 0); if (i < n) ++i; } return v % m; }
    bool chance(int pc) { return u(100) < static_cast<uint64_t>(pc); }
    int range(int a, int b) { return a + static_cast<int>(u(static_cast<uint64_t>(b - a + 1))); }
};

inline std::string hostileBytes(Bytes &b, int stage, bool allowHuge) {
    static const std::vector<std::string> F = {
        "250 OK\r\n", "250-", "250-AUTH", "250-AUTH ", "250-AUTH PLAIN LOGIN\r\n", "250 AUTH XOAUTH2\r\n", "250-STARTTLS\r\n", "250 STARTTLS\r\n", "220 x\r\n", "220-x\r\n", "220 \r\n", "334 \r\n", "354 go\r\n", "235 ok\r\n", "250", "25", "2", "250\r\n", "250\n", "250 \n", "250-\n", "250-x\r", "250 x\r", "\r\n", "\n", "\r", "\r\r\n", " ", "-", "250--\r\n", "250 -\r\n",
        "000 x\r\n", "999 x\r\n", "-250 x\r\n", "+250 x\r\n", " 250 x\r\n", "2 5 0\r\n", "250x\r\n", "2500 x\r\n", "99999999999999999999 x\r\n", "2147483648 x\r\n", "-2147483649\r\n", "0x1F4 x\r\n", "1e3 x\r\n", "abc\r\n", "HTTP/1.1 200 OK\r\n\r\n", "421 bye\r\n", "550 no\r\n",
        "250-AUTH=PLAIN LOGIN\r\n", "250-AUTHPLAIN\r\n", "250-AUTH\tPLAIN\r\n", "250-AUTH  \r\n", "AUTH PLAIN\r\n", "250-SIZE 99999999999999999999999\r\n", "%s%n%n%s\r\n", "\xff\xfb\x01", "\x16\x03\x01\x02\x00\x01", "\x15\x03\x03\x00\x02\x02\x28", "\x80\x00", "../../etc/passwd\r\n", "\xc3\x28\xe2\x82\r\n"};
    std::string s; int n = b.range(0, 12);
    for (int k = 0; k < n; ++k) {
        int x = b.range(0, 19);
        if (x < 10) s += F[b.u(F.size())];
        else if (x == 10) s += '\0';
        else if (x == 11) { int z = b.range(1, 40); for (int j = 0; j < z; ++j) s += static_cast<char>(b.u(256)); }
        else if (x == 12) s += std::string(static_cast<size_t>(b.range(1, 600)), static_cast<char>(b.u(256)));
        else if (x == 13) s += std::string(static_cast<size_t>(b.range(500, 5000)), "A\n\r-2 \0"[b.u(7)]);
        else if (x == 14) { char t[8]; snprintf(t, sizeof t, "%03d", b.range(0, 999)); s += t; s += " -\t\r\n\0x"[b.u(7)]; }
        else if (x == 15) { int z = b.range(1, 200); for (int j = 0; j < z; ++j) s += "250-X-" + std::to_string(j) + "\r\n"; }
        else if (x == 16) { s += "250-AUTH"; int z = b.range(0, 60); for (int j = 0; j < z; ++j) s += b.chance(30) ? "  " : b.chance(30) ? " PLAIN" : " \x01z"; s += b.chance(60) ? "\r\n" : ""; }
        else if (x == 17) s += "250" + std::string(static_cast<size_t>(b.range(0, 3000)), '-') + "\r\n";
        else if (x == 18) s += defaultReply(Script(), stage, false);
        else if (allowHuge && b.chance(25)) { int z = b.range(10000, b.chance(30) ? 262144 : 70000); int kind = b.range(0, 3); if (kind == 0) s += std::string(static_cast<size_t>(z), 'x'); else if (kind == 1) while (static_cast<int>(s.size()) < z) s += "250-aaaaaaaaaaaaaaaaaaaaaaaaaaaaa\r\n"; else if (kind == 2) s += std::string(static_cast<size_t>(z), '\0'); else while (static_cast<int>(s.size()) < z) s += "\r\n"; }
    }
    return s;
}

inline Script hostileScript(Bytes &b, Cfg &cfg, bool huge) {
    Script sc; Rng g(b.u(1u << 16) + 1);
    sc = genScript(g, cfg); sc.delivery = Delivery(); sc.cert = CK_TRUSTED;
    static const int ST[] = {ST_GREET, ST_EHLO, ST_EHLO, ST_STARTTLS, ST_EHLO2, ST_EHLO2, ST_AUTH, ST_AUTH_USER, ST_AUTH_PASS, ST_MAIL, ST_RCPT, ST_DATA, ST_EOD, ST_QUIT};
    int n = b.range(1, 3);
    for (int k = 0; k < n; ++k) {
        int st = ST[b.u(14)]; Reply q; q.text = hostileBytes(b, st, huge); q.malformed = true;
        int x = b.range(0, 7); if (x == 0) q.close = true; else if (x == 1) q.reset = true; else if (x == 2) q.silent = true;
        if (q.text.empty() && !q.close && !q.reset) q.silent = true;
        if (b.chance(8)) q.bypassTls = true;
        if (b.chance(40)) { q.text += defaultReply(sc, st, false); q.malformed = false; q.code = expectedCode(st); }
        sc.over[{st, st == ST_RCPT ? b.range(0, 3) : 0}] = q;
    }
    int d = b.range(0, 4); if (d == 1) sc.delivery.mode = Delivery::Random; else if (d == 2) sc.delivery.mode = Delivery::Bytes; else if (d == 3) { sc.delivery.mode = Delivery::SplitAt; sc.delivery.at = b.range(0, 300); }
    if (d == 1 && b.chance(30)) { sc.delivery.maxGap = 900000; sc.delivery.budget = 3000000; }
    if (b.chance(12)) { sc.hsMode = b.range(1, 7); sc.hsBytes = b.range(0, 3000); if (sc.hsMode == 3) { sc.hsGarbage = hostileBytes(b, ST_GREET, false); sc.hsBytes %= 3; } }
    if (b.chance(8)) { sc.cutAfter = b.range(0, 6000); sc.cutKind = b.chance(50) ? sim::End::Fin : b.chance(50) ? sim::End::Rst : sim::End::None; }
    if (b.chance(6)) sc.afterStartTls = hostileBytes(b, ST_STARTTLS, false);
    return sc;
}
