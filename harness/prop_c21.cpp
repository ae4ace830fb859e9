#include <unistd.h>
#include <cstring>
#include "attachment.h"
#include "base64.h"
#include "core.h"
#include "cpp/attachment.hpp"
using jed_utils::Base64;

// Independent implementation, bit by bit
static const std::string AL = [] { std::string s; for (char c = 'A'; c <= 'Z'; ++c) s += c; for (char c = 'a'; c <= 'z'; ++c) s += c; for (char c = '0'; c <= '9'; ++c) s += c; return s + "+/"; }();
static int val(unsigned char c) { if (c >= 'A' && c <= 'Z') return c - 'A'; if (c >= 'a' && c <= 'z') return c - 'a' + 26; if (c >= '0' && c <= '9') return c - '0' + 52; return c == '+' ? 62 : c == '/' ? 63 : -1; }
static std::string refEncode(const std::string &b) {
    std::string o; size_t bits = b.size() * 8, chars = 0;
    for (size_t i = 0; i < bits; i += 6) { unsigned v = 0; for (size_t j = i; j < i + 6; ++j) v = v * 2 + (j < bits ? (static_cast<unsigned char>(b[j / 8]) >> (7 - j % 8)) & 1u : 0); o += AL[v]; if (++chars % 65536 == 0) o += "\r\n"; }
    while (chars % 4) { o += '='; if (++chars % 65536 == 0) o += "\r\n"; }
    return o;
}
// with a padded group exactly at the line length the line break behind it may be missing: nothing follows
static std::string refDecode(const std::string &t, bool skipBreaks) {
    std::string o; unsigned acc = 0; int n = 0;
    for (char ch : t) { if (skipBreaks && (ch == '\r' || ch == '\n')) continue; int v = val(static_cast<unsigned char>(ch)); if (v < 0) break; acc = (acc << 6 | static_cast<unsigned>(v)) & 0xFFFFFF; n += 6; if (n >= 8) { n -= 8; o += static_cast<char>(acc >> n & 255); } }
    return o;
}
static std::string encode(const std::string &b) {   // the input sits in a block of exactly its size
    if (b.empty()) return Base64::Encode(reinterpret_cast<const unsigned char *>(""), 0);
    std::unique_ptr<unsigned char[]> p(new unsigned char[b.size()]); memcpy(p.get(), b.data(), b.size());
    return Base64::Encode(p.get(), b.size());
}
static std::string decode(const std::string &t, int slack) {  // valid characters behind the end, inside the string's own storage
    std::string s; s.assign(t.size() + static_cast<size_t>(slack), 'B'); if (!slack) { std::string e(t.begin(), t.end()); return Base64::Decode(e); }
    memcpy(&s[0], t.data(), t.size()); s.resize(t.size()); return Base64::Decode(s);
}
static void one(Ctx &c, const std::string &b) {
    std::string e = encode(b), want = refEncode(b); c.count("byte sequences encoded and decoded back");
    std::string w2 = want; bool brk = w2.size() >= 2 && w2.compare(w2.size() - 2, 2, "\r\n") == 0; if (brk) w2.resize(w2.size() - 2);
    if (e != want && !(brk && e == w2)) { size_t i = 0; while (i < e.size() && i < want.size() && e[i] == want[i]) ++i; c.viol("encoding is not standard base64", std::to_string(b.size()) + " bytes; text differs at " + std::to_string(i) + ": " + esc(e.substr(i > 8 ? i - 8 : 0, 40)) + "\nshould be " + esc(want.substr(i > 8 ? i - 8 : 0, 40)) + "\ninput " + esc(b, 200)); return; }
    for (int sl = 0; sl < 2; ++sl) { std::string d = decode(e, sl * 7); if (d != b) { c.viol("decoding does not give the bytes back", std::to_string(b.size()) + " bytes, got " + std::to_string(d.size()) + "\n" + esc(b, 200) + "\n" + esc(d, 200)); return; } }
}
static void arb(Ctx &c, const std::string &t) {
    std::string a = refDecode(t, true), b = refDecode(t, false); c.count("arbitrary texts decoded"); if (!a.empty()) c.count("arbitrary texts with a valid part");
    for (int sl = 0; sl < 3; ++sl) { std::string d = decode(t, sl * 9); if (d != a && d != b) { c.viol("decoding gives other bytes than the leading valid part", "text " + esc(t, 300) + "\ngot " + esc(d, 200) + "\nshould be " + esc(a, 200)); return; } }
}
static std::string rb(Rng &r, size_t n) { std::string s(n, 0); int m = r.range(0, 5); for (auto &x : s) x = static_cast<char>(m == 0 ? 0 : m == 1 ? 255 : m == 2 ? r.range(0, 3) * 85 : m == 3 && r.chance(50) ? 251 : r.range(0, 255)); return s; }

static constexpr int SYS = 400;
static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng; bool th = c.thorough();
    if (k == 0) { one(c, ""); for (int i = 0; i < 256; ++i) one(c, std::string(1, static_cast<char>(i))); if (Base64::Encode(nullptr, 0) != "") c.viol("encoding nothing", ""); c.distinct("1 byte"); return; }
    if (k <= 64) { for (int i = 0; i < 1024; ++i) { int v = static_cast<int>(k - 1) * 1024 + i; std::string s; s += static_cast<char>(v >> 8); s += static_cast<char>(v); one(c, s); std::string t = s; t += static_cast<char>(v * 7); one(c, t); one(c, std::string(1, static_cast<char>(v * 13)) + s + t); } c.distinct("2 bytes " + std::to_string(k)); return; }
    if (k <= 128) { // every text of one and two characters, every character in each place of a group
        for (int i = 0; i < 1024; ++i) { int v = static_cast<int>(k - 65) * 1024 + i; std::string s; s += static_cast<char>(v >> 8); s += static_cast<char>(v); arb(c, s); arb(c, "QU" + s); arb(c, "Q" + s + "Q"); arb(c, s + "JD"); arb(c, "QUJDREVG" + s + "QUJDREVGSEk="); } if (k == 65) for (int i = 0; i < 256; ++i) arb(c, std::string(1, static_cast<char>(i))); c.distinct("2 characters " + std::to_string(k)); return; }
    if (k < SYS) { int64_t q = k - 129; if (q < 200) for (int64_t n = q * 10; n < q * 10 + 10; ++n) { one(c, rb(r, static_cast<size_t>(n))); c.distinct("length " + std::to_string(n)); } else { size_t base = 49152u * static_cast<size_t>(1 + (q - 200) / 9), n = base + static_cast<size_t>((q - 200) % 9) - 4; one(c, rb(r, n)); c.distinct("length " + std::to_string(n)); } return; }
    for (int i = 0; i < 40; ++i) {
        std::string b = rb(r, static_cast<size_t>(r.range(0, r.chance(3) ? (th ? 1500000 : 260000) : r.chance(20) ? 5000 : 120)));
        if (r.chance(40)) { one(c, b); c.distinct("e" + b); continue; }
        std::string t = refEncode(b.substr(0, 3000));
        switch (r.range(0, 6)) {
            case 0: t = rb(r, static_cast<size_t>(r.range(0, 400))); break;
            case 1: if (!t.empty()) t[r.below(t.size())] = static_cast<char>(r.range(0, 255)); break;
            case 2: t.resize(r.below(t.size() + 1)); break;
            case 3: t.insert(r.below(t.size() + 1), r.chance(50) ? "\r\n" : r.chance(50) ? "=" : r.chance(50) ? " " : std::string(1, '\0')); break;
            case 4: t += refEncode(rb(r, 9)); break;
            case 5: for (int j = r.range(1, 5); j-- > 0;) t.insert(r.below(t.size() + 1), 1, static_cast<char>(r.range(0, 255))); break;
            default: { std::string u; for (char ch : t) { u += ch; if (r.chance(5)) u += r.chance(70) ? "\r\n" : "\n"; } t = u; } break;
        }
        arb(c, t); c.distinct("d" + t);
    }
    if (k % 500 == 499) { std::string b = rb(r, static_cast<size_t>(r.tail(260000, th ? 12000000 : 5000000))); one(c, b); c.distinct("big" + std::to_string(b.size())); }
    if (k % 11 == 0) { // what an attachment gives out
        std::string b = rb(r, static_cast<size_t>(r.chance(20) ? r.range(40000, 120000) : r.range(0, 3000))), f = c.scratch + "/b64-" + std::to_string(k); FILE *fp = fopen(f.c_str(), "wb"); if (!fp) return; if (!b.empty()) fwrite(b.data(), 1, b.size(), fp); fclose(fp);
        jed_utils::Attachment a(f.c_str()); std::unique_ptr<const char[]> p(a.getBase64EncodedFile()); jed_utils::cpp::Attachment q(f, "n", "i"); std::string want = refEncode(b), got = p ? p.get() : "(null)", g2 = q.getBase64EncodedFile(); unlink(f.c_str());
        auto norm = [](std::string s) { return replaceAll(s, "\r\n", ""); };
        if (norm(got) != norm(want) || norm(g2) != norm(want)) c.viol("attachment text is not the base64 of its file", std::to_string(b.size()) + " bytes\n" + esc(got, 120) + "\n" + esc(g2, 120)); else c.count("attachment files compared");
    }
    if (k % 97 == 0) c.sample("random block of 40 texts");
}
const PropDef theProp = {"C21", [](bool t) -> int64_t { return t ? 60000 : 2600; }, run,
    "All sequences of one and two bytes, 196608 of three to six, every length to 1999 and around the line length of the encoder (49152 input bytes), random contents to 260 kB, rarely 5 MB (12 MB thorough), in blocks of exactly their size under AddressSanitizer, compared with an independent bit-wise encoder and decoded back. All texts of one and two arbitrary characters alone and inside valid groups, and mutated, truncated and random texts are decoded with valid characters lying behind the end in the string's own storage, and compared with the bytes of the leading valid part. Non-trivial: distinct lengths and texts.",
    {"where CR or LF stand inside a text the encoder would not produce, both skipping them and stopping there are accepted"}};
