#include "peer.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <openssl/bio.h>
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/ssl.h>
#include <openssl/x509v3.h>

static const char *SN[] = {"greeting", "EHLO", "STARTTLS", "handshake", "EHLO(TLS)", "AUTH", "AUTH-user", "AUTH-pass", "MAIL", "RCPT", "DATA", "end-of-data", "QUIT", "other"};
const char *stageName(int s) { return SN[s]; }
static const char *CN[] = {"trusted", "expired", "not-yet-valid", "wrong-host", "unknown-ca", "self-signed", "self-signed-expired", "self-signed-wrong-host", "self-signed-root-in-chain", "wildcard", "ip-san", "wrong-ip", "trusted-intermediate", "cn-only", "missing-intermediate",
    "multi-san", "cn-right-san-wrong", "nul-byte-name", "issued-by-a-leaf", "fake-ca-same-name", "client-auth-only", "uppercase-name", "parent-domain", "superdomain", "expired-intermediate", "anonymous", "wrong-host-unknown-ca", "self-signed-other-key-chain", "expired-unknown-ca"};
const char *certName(int k) { return CN[k]; }

std::string esc(const std::string &s, size_t max) {
    std::string r; char b[8];
    for (size_t i = 0; i < s.size(); ++i) {
        if (r.size() > max) { snprintf(b, sizeof b, "..."); r += b; r += "(" + std::to_string(s.size()) + " bytes)"; break; }
        unsigned char c = static_cast<unsigned char>(s[i]);
        if (c == '\r') r += "\\r"; else if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else if (c == '"') r += "\\\"";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += static_cast<char>(c);
    }
    return r;
}

static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string b64enc(const std::string &in) {
    std::string o; size_t i = 0;
    while (i + 2 < in.size()) {
        unsigned v = static_cast<unsigned char>(in[i]) << 16 | static_cast<unsigned char>(in[i + 1]) << 8 | static_cast<unsigned char>(in[i + 2]);
        o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += B64[v >> 6 & 63]; o += B64[v & 63]; i += 3;
    }
    if (in.size() - i == 1) { unsigned v = static_cast<unsigned char>(in[i]) << 16; o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += "=="; }
    else if (in.size() - i == 2) { unsigned v = static_cast<unsigned char>(in[i]) << 16 | static_cast<unsigned char>(in[i + 1]) << 8; o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += B64[v >> 6 & 63]; o += '='; }
    return o;
}
std::string b64dec(const std::string &in) {   // ignores CR/LF; stops at '='; returns "<bad base64>" marker on junk
    std::string o; unsigned v = 0; int n = 0; bool end = false;
    for (char c : in) {
        if (c == '\r' || c == '\n') continue;
        if (c == '=') { end = true; continue; }
        const char *p = static_cast<const char *>(memchr(B64, c, 64));
        if (!p || end) return "<bad base64>";
        v = v << 6 | static_cast<unsigned>(p - B64);
        if (++n == 4) { o += static_cast<char>(v >> 16); o += static_cast<char>(v >> 8 & 255); o += static_cast<char>(v & 255); n = 0; v = 0; }
    }
    if (n == 1) return "<bad base64>";
    if (n == 2) o += static_cast<char>(v >> 4 & 255);
    if (n == 3) { o += static_cast<char>(v >> 10 & 255); o += static_cast<char>(v >> 2 & 255); }
    return o;
}

Reply Reply::Code(int code, const std::string &t) {
    Reply r; char b[16]; snprintf(b, sizeof b, "%03d ", code); r.text = b + (t.empty() ? std::string("reply text") : t) + "\r\n"; r.code = code; return r;
}
Reply Reply::Multi(int code, const std::vector<std::string> &lines) {
    Reply r; char b[16]; r.code = code;
    for (size_t i = 0; i < lines.size(); ++i) { snprintf(b, sizeof b, "%03d%c", code, i + 1 < lines.size() ? '-' : ' '); r.text += b + lines[i] + "\r\n"; }
    return r;
}
std::string Reply::show() const {
    std::string s = silent && text.empty() ? "silence" : "\"" + esc(text, 120) + "\"";
    if (close) s += "+FIN"; if (reset) s += "+RST"; if (silent && !text.empty()) s += "+silence"; if (bypassTls) s += "+raw"; if (delay) s += "@" + std::to_string(delay / 1000) + "ms";
    return s;
}
std::string Script::show() const {
    std::string s = implicitTls ? "implicit-tls " : "";
    s += "caps=["; for (auto &c : caps) s += esc(c, 60) + ","; s += "] capsTls=["; for (auto &c : capsTls) s += esc(c, 60) + ","; s += "]";
    if (cert != CK_TRUSTED) s += std::string(" cert=") + certName(cert);
    for (auto &o : over) s += std::string(" ") + stageName(o.first.first) + "#" + std::to_string(o.first.second) + "=" + o.second.show();
    static const char *DM[] = {"whole", "bytes", "random", "lines", "split"};
    if (delivery.mode) s += std::string(" delivery=") + DM[delivery.mode] + (delivery.mode == Delivery::SplitAt ? std::to_string(delivery.at) : "") + "/gap" + std::to_string(delivery.maxGap / 1000) + "ms" + (delivery.cutCipher ? "/cut" : "");
    if (hsMode) s += " hsMode=" + std::to_string(hsMode) + ":" + std::to_string(hsBytes);
    if (cutAfter >= 0) s += " cut@" + std::to_string(cutAfter) + (cutKind == sim::End::Fin ? "FIN" : cutKind == sim::End::Rst ? "RST" : "stall");
    if (window >= 0) s += " window=" + std::to_string(window) + (windowFromStage >= 0 ? std::string(" from ") + stageName(windowFromStage) : "");
    if (!afterStartTls.empty()) s += " afterStartTls=\"" + esc(afterStartTls, 80) + "\"";
    if (endlessFrom >= 0) s += std::string(" endless ") + stageName(endlessFrom) + ":" + esc(endless, 40);
    if (!say.empty()) s += " say=\"" + esc(say, 40) + "\"x" + std::to_string(sayLines);
    return s;
}

// ---------------------------------------------------------------- PKI
struct Ident { X509 *cert = nullptr; EVP_PKEY *key = nullptr; std::vector<X509 *> chain; };
static Ident g_id[CK_COUNT];
static SSL_CTX *g_ctx[CK_COUNT];
static long g_serial = 1000;

static EVP_PKEY *newKey() { return EVP_EC_gen("P-256"); }
static X509 *mkCert(EVP_PKEY *key, const char *cn, X509 *issuer, EVP_PKEY *ikey, bool ca, const std::string &san, long nb, long na) {
    X509 *x = X509_new();
    X509_set_version(x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(x), ++g_serial);
    X509_gmtime_adj(X509_getm_notBefore(x), nb);
    X509_gmtime_adj(X509_getm_notAfter(x), na);
    X509_set_pubkey(x, key);
    X509_NAME *n = X509_get_subject_name(x);
    X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, reinterpret_cast<const unsigned char *>(cn), -1, -1, 0);
    X509_set_issuer_name(x, issuer ? X509_get_subject_name(issuer) : n);
    X509V3_CTX c; X509V3_set_ctx(&c, issuer ? issuer : x, x, nullptr, nullptr, 0);
    auto add = [&](int nid, const std::string &v) { X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, &c, nid, v.c_str()); if (e) { X509_add_ext(x, e, -1); X509_EXTENSION_free(e); } };
    if (ca) { add(NID_basic_constraints, "critical,CA:TRUE"); add(NID_key_usage, "critical,keyCertSign,cRLSign"); }
    add(NID_subject_key_identifier, "hash");
    if (!san.empty()) add(NID_subject_alt_name, san);
    X509_sign(x, ikey ? ikey : key, EVP_sha256());
    return x;
}

std::string initPki(const std::string &dir, const std::string &host, const std::string &ip) {
    const long Y = 365L * 86400, D = 86400;
    EVP_PKEY *cak = newKey(); X509 *ca = mkCert(cak, "Verif Trusted CA", nullptr, nullptr, true, "", -Y, 10 * Y);
    EVP_PKEY *uk = newKey(); X509 *uca = mkCert(uk, "Verif Unknown CA", nullptr, nullptr, true, "", -Y, 10 * Y);
    EVP_PKEY *ik = newKey(); X509 *ica = mkCert(ik, "Verif Intermediate", ca, cak, true, "", -Y, 10 * Y);
    std::string dns = "DNS:" + host;
    auto leaf = [&](int k, const char *cn, X509 *is, EVP_PKEY *isk, const std::string &san, long nb, long na) {
        Ident &d = g_id[k]; d.key = newKey(); d.cert = mkCert(d.key, cn, is, isk, false, san, nb, na);
    };
    const char *h = host.c_str();
    leaf(CK_TRUSTED, h, ca, cak, dns, -D, 10 * Y);
    leaf(CK_EXPIRED, h, ca, cak, dns, -Y, -D);
    leaf(CK_NOTYET, h, ca, cak, dns, 5 * Y, 10 * Y);
    leaf(CK_WRONGHOST, "mail.attacker.example", ca, cak, "DNS:mail.attacker.example", -D, 10 * Y);
    leaf(CK_UNKNOWNCA, h, uca, uk, dns, -D, 10 * Y);
    leaf(CK_SELFSIGNED, h, nullptr, nullptr, dns, -D, 10 * Y);
    leaf(CK_SELFSIGNED_EXPIRED, h, nullptr, nullptr, dns, -Y, -D);
    leaf(CK_SELFSIGNED_WRONGHOST, "mail.attacker.example", nullptr, nullptr, "DNS:mail.attacker.example", -D, 10 * Y);
    leaf(CK_CHAIN_SELFSIGNED_ROOT, h, uca, uk, dns, -D, 10 * Y); g_id[CK_CHAIN_SELFSIGNED_ROOT].chain = {uca};
    size_t dot = host.find('.');
    leaf(CK_WILDCARD, ("*" + host.substr(dot)).c_str(), ca, cak, "DNS:*" + host.substr(dot), -D, 10 * Y);
    leaf(CK_IPSAN, ip.c_str(), ca, cak, "IP:" + ip + ",DNS:unrelated.example", -D, 10 * Y);
    leaf(CK_WRONGIP, "192.0.2.77", ca, cak, "IP:192.0.2.77", -D, 10 * Y);
    leaf(CK_TRUSTED_INTERMEDIATE, h, ica, ik, dns, -D, 10 * Y); g_id[CK_TRUSTED_INTERMEDIATE].chain = {ica};
    leaf(CK_CN_ONLY, h, ca, cak, "", -D, 10 * Y);
    leaf(CK_MISSING_INTERMEDIATE, h, ica, ik, dns, -D, 10 * Y);
    std::string up; for (char ch : host) up += static_cast<char>(toupper(static_cast<unsigned char>(ch)));
    leaf(CK_MULTISAN, "cdn.example.net", ca, cak, "DNS:cdn.example.net,DNS:" + host + ",IP:" + ip + ",DNS:zz.example.net,DNS:localhost", -D, 10 * Y);
    leaf(CK_CN_RIGHT_SAN_WRONG, h, ca, cak, "DNS:mail.attacker.example", -D, 10 * Y);
    leaf(CK_NULBYTE, "x", ca, cak, "", -D, 10 * Y);
    {
        Ident &d = g_id[CK_NULBYTE]; std::string n = host; n += '\0'; n += ".attacker.example";
        GENERAL_NAMES *g = sk_GENERAL_NAME_new_null(); GENERAL_NAME *e = GENERAL_NAME_new(); ASN1_IA5STRING *a = ASN1_IA5STRING_new();
        ASN1_STRING_set(a, n.data(), static_cast<int>(n.size())); GENERAL_NAME_set0_value(e, GEN_DNS, a); sk_GENERAL_NAME_push(g, e);
        X509_add1_ext_i2d(d.cert, NID_subject_alt_name, g, 0, 0); GENERAL_NAMES_free(g); X509_sign(d.cert, cak, EVP_sha256());
    }
    leaf(CK_LEAF_ISSUED, h, g_id[CK_WRONGHOST].cert, g_id[CK_WRONGHOST].key, dns, -D, 10 * Y); g_id[CK_LEAF_ISSUED].chain = {g_id[CK_WRONGHOST].cert};
    EVP_PKEY *fk = newKey(); X509 *fca = mkCert(fk, "Verif Trusted CA", nullptr, nullptr, true, "", -Y, 10 * Y);
    leaf(CK_FAKE_CA, h, fca, fk, dns, -D, 10 * Y); g_id[CK_FAKE_CA].chain = {fca};
    leaf(CK_CLIENT_EKU, h, ca, cak, dns, -D, 10 * Y);
    { X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, nullptr, NID_ext_key_usage, "clientAuth"); X509_add_ext(g_id[CK_CLIENT_EKU].cert, e, -1); X509_EXTENSION_free(e); X509_sign(g_id[CK_CLIENT_EKU].cert, cak, EVP_sha256()); }
    leaf(CK_UPPERCASE, up.c_str(), ca, cak, "DNS:" + up, -D, 10 * Y);
    leaf(CK_PARENT_DOMAIN, "example.org", ca, cak, "DNS:" + host.substr(dot + 1), -D, 10 * Y);
    leaf(CK_SUPERDOMAIN, "x", ca, cak, "DNS:" + host + ".attacker.example,DNS:x" + host + ",DNS:a." + host, -D, 10 * Y);
    EVP_PKEY *eik = newKey(); X509 *eica = mkCert(eik, "Verif Expired Intermediate", ca, cak, true, "", -Y, -D);
    leaf(CK_EXPIRED_INTERMEDIATE, h, eica, eik, dns, -D, 10 * Y); g_id[CK_EXPIRED_INTERMEDIATE].chain = {eica};
    leaf(CK_ANONYMOUS, h, nullptr, nullptr, dns, -D, 10 * Y);
    leaf(CK_WRONGHOST_UNKNOWNCA, "mail.attacker.example", uca, uk, "DNS:mail.attacker.example", -D, 10 * Y);
    EVP_PKEY *sk2 = newKey(); X509 *sca = mkCert(sk2, h, nullptr, nullptr, true, dns, -Y, 10 * Y);
    leaf(CK_SELFSIGNED_CHAINED, h, sca, sk2, dns, -D, 10 * Y); g_id[CK_SELFSIGNED_CHAINED].chain = {sca};
    leaf(CK_EXPIRED_UNKNOWNCA, h, uca, uk, dns, -Y, -D);
    EVP_PKEY_free(fk); EVP_PKEY_free(eik); EVP_PKEY_free(sk2);
    std::string path = dir + "/trusted-ca.pem";
    FILE *f = fopen(path.c_str(), "w");
    PEM_write_X509(f, ca); fclose(f);
    EVP_PKEY_free(cak); EVP_PKEY_free(uk); EVP_PKEY_free(ik); X509_free(ca);
    for (int k = 0; k < CK_COUNT; ++k) {
        SSL_CTX *c = SSL_CTX_new(TLS_server_method());
        SSL_CTX_use_certificate(c, g_id[k].cert);
        SSL_CTX_use_PrivateKey(c, g_id[k].key);
        for (X509 *x : g_id[k].chain) SSL_CTX_add1_chain_cert(c, x);
        if (k == CK_ANONYMOUS) { SSL_CTX_set_max_proto_version(c, TLS1_2_VERSION); SSL_CTX_set_cipher_list(c, "aNULL:@SECLEVEL=0"); }
        SSL_CTX_set_num_tickets(c, 0);
        SSL_CTX_set_session_cache_mode(c, SSL_SESS_CACHE_OFF);
        g_ctx[k] = c;
    }
    return path;
}

CertFacts certFacts(int k) {
    CertFacts f; const std::string h = "mail.example.org", bad = "mail.attacker.example";
    f.dns = {h};
    switch (k) {
        case CK_TRUSTED: case CK_TRUSTED_INTERMEDIATE: f.chain = true; break;
        case CK_EXPIRED: case CK_NOTYET: f.chain = true; f.time = false; break;
        case CK_WRONGHOST: f.chain = true; f.dns = {bad}; break;
        case CK_SELFSIGNED: f.selfSigned = true; break;
        case CK_SELFSIGNED_EXPIRED: f.selfSigned = true; f.time = false; break;
        case CK_SELFSIGNED_WRONGHOST: f.selfSigned = true; f.dns = {bad}; break;
        case CK_WILDCARD: f.chain = true; f.dns = {"*.example.org"}; break;
        case CK_IPSAN: f.chain = true; f.dns = {"unrelated.example"}; f.ips = {"10.1.2.3"}; break;
        case CK_WRONGIP: f.chain = true; f.dns = {}; f.ips = {"192.0.2.77"}; break;
        case CK_CN_ONLY: f.chain = true; f.cnOnly = true; break;
        case CK_MULTISAN: f.chain = true; f.dns = {"cdn.example.net", h, "zz.example.net", "localhost"}; f.ips = {"10.1.2.3"}; break;
        case CK_CN_RIGHT_SAN_WRONG: f.chain = true; f.dns = {bad}; break;
        case CK_NULBYTE: f.chain = true; f.dns = {}; break;
        case CK_SELFSIGNED_CHAINED: f.selfSigned = true; f.dns = {}; break;     // self-issued: with the flag not settled
        case CK_CLIENT_EKU: f.chain = true; f.usable = false; break;
        case CK_UPPERCASE: f.chain = true; break;
        case CK_PARENT_DOMAIN: f.chain = true; f.dns = {"example.org"}; break;
        case CK_SUPERDOMAIN: f.chain = true; f.dns = {h + ".attacker.example", "x" + h, "a." + h}; break;
        default: break;   // no chain to a trusted authority
    }
    return f;
}

// ---------------------------------------------------------------- server
struct SmtpPeer::Tls { SSL *ssl = nullptr; BIO *in = nullptr, *out = nullptr; int flights = 0; ~Tls() { if (ssl) SSL_free(ssl); } };

SmtpPeer::SmtpPeer(const Script &s, const std::string &host) : sc(s), hostForCert(host) {}
SmtpPeer::~SmtpPeer() = default;
uint64_t SmtpPeer::rnd() { uint64_t &x = sc.rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }

int expectedCode(int st) {
    switch (st) {
        case ST_GREET: case ST_STARTTLS: return 220;
        case ST_AUTH: case ST_AUTH_PASS: return 235;
        case ST_AUTH_USER: return 334;
        case ST_DATA: return 354;
        case ST_QUIT: return 221;
        default: return 250;
    }
}

static std::string capsReply(const std::string &name, const std::vector<std::string> &caps) {
    std::string r; std::vector<std::string> l = {name};
    for (auto &c : caps) l.push_back(c);
    for (size_t i = 0; i < l.size(); ++i) r += std::string("250") + (i + 1 < l.size() ? "-" : " ") + l[i] + "\r\n";
    return r;
}
std::string defaultReply(const Script &s, int st, bool) {
    if (!s.say.empty() && st != ST_EHLO && st != ST_EHLO2 && st != ST_AUTH_USER) return Reply::Multi(expectedCode(st), std::vector<std::string>(static_cast<size_t>(s.sayLines), s.say)).text;
    switch (st) {
        case ST_GREET: return "220 " + s.greeting + "\r\n";
        case ST_EHLO: return capsReply(s.ehloName, s.caps);
        case ST_EHLO2: return capsReply(s.ehloName, s.capsTls);
        case ST_STARTTLS: return "220 2.0.0 Ready to start TLS\r\n";
        case ST_AUTH: case ST_AUTH_PASS: return "235 2.7.0 Accepted\r\n";
        case ST_AUTH_USER: return "334 UGFzc3dvcmQ6\r\n";
        case ST_MAIL: return "250 2.1.0 OK sender\r\n";
        case ST_RCPT: return "250 2.1.5 OK recipient\r\n";
        case ST_DATA: return "354 Go ahead\r\n";
        case ST_EOD: return "250 2.0.0 OK queued as 12345\r\n";
        case ST_QUIT: return "221 2.0.0 closing\r\n";
        default: return "250 OK\r\n";
    }
}

void SmtpPeer::onConnect(sim::Conn &c) {
    c.cutAfter = sc.cutAfter; c.cutKind = sc.cutKind;
    if (sc.window >= 0 && sc.windowFromStage < 0) c.window = sc.window;
    if (sc.implicitTls) startTls(c);
    else respond(c, ST_GREET, false);
}

void SmtpPeer::emitRaw(sim::Conn &c, const std::string &b, int64_t delay, bool cut) {
    if (!cut) { c.push(b, delay); return; }
    size_t i = 0;
    while (i < b.size()) {
        size_t n = 1 + rnd() % (rnd() % 3 == 0 ? 3 : 200); n = std::min(n, b.size() - i);
        c.push(b.substr(i, n), delay); i += n;
    }
}

void SmtpPeer::flushTls(sim::Conn &c, int64_t delay) {
    char buf[16384]; std::string all; int n;
    while ((n = BIO_read(tls->out, buf, sizeof buf)) > 0) all.append(buf, static_cast<size_t>(n));
    if (!all.empty()) emitRaw(c, all, delay, sc.delivery.cutCipher);
}

// pieces of a reply according to the delivery mode
void SmtpPeer::out(sim::Conn &c, const std::string &t, int64_t delay, bool isTls) {
    std::vector<std::string> parts;
    const Delivery &d = sc.delivery;
    switch (d.mode) {
        case Delivery::Whole: parts.push_back(t); break;
        case Delivery::Bytes: for (char ch : t) parts.push_back(std::string(1, ch)); break;
        case Delivery::Lines: { size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); e = e == std::string::npos ? t.size() : e + 1; parts.push_back(t.substr(i, e - i)); i = e; } break; }
        case Delivery::SplitAt: { size_t k = std::min(t.size(), static_cast<size_t>(d.at)); if (k) parts.push_back(t.substr(0, k)); if (k < t.size()) parts.push_back(t.substr(k)); break; }
        case Delivery::Random: { size_t i = 0; while (i < t.size()) { size_t n = 1 + rnd() % (rnd() % 2 ? 4 : 40); n = std::min(n, t.size() - i); parts.push_back(t.substr(i, n)); i += n; } break; }
    }
    int64_t left = d.budget;
    int64_t at = delay;
    for (size_t i = 0; i < parts.size(); ++i) {
        if (i && d.maxGap > 0 && left > 0) { int64_t g = static_cast<int64_t>(rnd() % static_cast<uint64_t>(d.maxGap + 1)); if (parts.size() > 8 && rnd() % (parts.size() / 4) != 0) g = 0; g = std::min(g, left); left -= g; at += g; }
        if (isTls) {
            if (!tls || !tls->ssl) return;
            SSL_write(tls->ssl, parts[i].data(), static_cast<int>(parts[i].size()));
            flushTls(c, at);
        } else {
            c.push(parts[i], at);
        }
    }
}

Reply SmtpPeer::replyFor(int stage, int &code) {
    auto it = sc.over.find({stage, occ[stage]});
    ++occ[stage];
    Reply r;
    if (it != sc.over.end()) {
        r = it->second;
        if (r.text.empty() && !r.silent && !r.close && !r.reset) r.text = defaultReply(sc, stage, false), r.code = expectedCode(stage);
        else if (r.text.empty() && r.delay && !r.silent) {}
        code = r.code;
        return r;
    }
    r.text = defaultReply(sc, stage, false); r.code = expectedCode(stage); code = r.code;
    return r;
}

bool SmtpPeer::respond(sim::Conn &c, int stage, bool isTls) {
    if (stopped) { lastCode = -1; return false; }
    int code = 0; Reply r = replyFor(stage, code);
    lastCode = r.malformed ? -1 : (r.text.empty() ? -1 : r.code);
    std::string t = r.text;
    if (stage == ST_STARTTLS && !sc.afterStartTls.empty() && r.code == 220) t += sc.afterStartTls;
    if (!t.empty()) {
        if (r.bypassTls) c.push(t, r.delay); else out(c, t, r.delay, isTls);
        Event e; e.kind = Event::Reply_; e.stage = stage; e.text = r.text; e.tls = isTls; e.at = c.owner->now; e.rawEnd = c.rxOffered; e.code = r.malformed ? -1 : r.code;
        e.availAt = c.rx.empty() ? e.at : c.rx.back().at; e.complete = c.rxQueued == c.rxOffered; e.stops = r.silent || r.close || r.reset;
        ev.push_back(e);
    }
    if (r.silent) stopped = true;
    if (r.close) { stopped = true; if (isTls && tls && tls->ssl && rnd() % 2) { SSL_shutdown(tls->ssl); flushTls(c, r.delay); } c.finish(sim::End::Fin, r.delay); }
    if (r.reset) { stopped = true; c.finish(sim::End::Rst, r.delay); }
    if (sc.endlessFrom == stage && !isTls && !stopped) { c.endless = sc.endless; stopped = true; }
    if (sc.window >= 0 && sc.windowFromStage == stage) c.window = sc.window;
    return lastCode == expectedCode(stage);
}

void SmtpPeer::startTls(sim::Conn &c) {
    tlsOn = true;
    Event e; e.kind = Event::TlsStart; e.at = c.owner->now; ev.push_back(e);
    tls.reset(new Tls());
    tls->ssl = SSL_new(g_ctx[sc.cert]);
    if (sc.tlsMax) SSL_set_max_proto_version(tls->ssl, sc.tlsMax);
    tls->in = BIO_new(BIO_s_mem()); tls->out = BIO_new(BIO_s_mem());
    BIO_set_mem_eof_return(tls->in, -1); BIO_set_mem_eof_return(tls->out, -1);
    SSL_set_bio(tls->ssl, tls->in, tls->out);
    SSL_set_accept_state(tls->ssl);
}

void SmtpPeer::pumpTls(sim::Conn &c, bool pending) {
    if (hsFailed) return;
    if (!hsDone) {
        if (sc.hsMode >= 1 && sc.hsMode <= 4) {
            if (stopped) return;
            stopped = true;
            if (sc.hsMode == 2) c.finish(sim::End::Fin, 0);
            if (sc.hsMode == 3) { c.push(sc.hsGarbage.empty() ? "HTTP/1.1 400 Bad Request\r\n\r\n<html>not tls</html>" : sc.hsGarbage, 0); if (!sc.hsGarbage.empty() && sc.hsBytes) c.finish(sc.hsBytes == 1 ? sim::End::Fin : sim::End::Rst, 0); }
            if (sc.hsMode == 4) c.finish(sim::End::Rst, 0);
            return;
        }
        if ((sc.hsMode == 5 || sc.hsMode == 6) && stopped) return;
        int r = SSL_accept(tls->ssl);
        if (sc.hsMode == 7) {
            char b7[16384]; std::string all; int n;
            while ((n = BIO_read(tls->out, b7, sizeof b7)) > 0) all.append(b7, static_cast<size_t>(n));
            if (!all.empty()) { all[static_cast<size_t>(sc.hsBytes) % all.size()] ^= static_cast<char>(1 + sc.rng % 255); c.push(all, 0); }
            if (r == 1) { hsDone = true; hsRawEnd = c.rxOffered; }
            else { int e = SSL_get_error(tls->ssl, r); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { hsFailed = true; ERR_clear_error(); c.finish(sim::End::Fin, 0); } return; }
        }
        if (sc.hsMode == 5 || sc.hsMode == 6) {
            char buf[16384]; std::string all; int n;
            while ((n = BIO_read(tls->out, buf, sizeof buf)) > 0) all.append(buf, static_cast<size_t>(n));
            if (static_cast<int>(all.size()) > sc.hsBytes) all.resize(static_cast<size_t>(sc.hsBytes));
            c.push(all, 0); stopped = true;
            if (sc.hsMode == 6) c.finish(sim::End::Fin, 0);
            return;
        }
        flushTls(c, 0);
        if (r == 1) {
            hsDone = true; hsRawEnd = c.rxOffered;
            if (sc.implicitTls) respond(c, ST_GREET, true);
        } else {
            int e = SSL_get_error(tls->ssl, r);
            if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { hsFailed = true; ERR_clear_error(); c.finish(sim::End::Fin, 0); return; }
            return;
        }
    }
    char buf[16384]; int n;
    while ((n = SSL_read(tls->ssl, buf, sizeof buf)) > 0) { appDataSeen = true; feed(c, buf, static_cast<size_t>(n), pending, true); }
    int e = SSL_get_error(tls->ssl, n);
    if (e == SSL_ERROR_SSL || e == SSL_ERROR_SYSCALL) ERR_clear_error();
    flushTls(c, 0);
}

void SmtpPeer::onData(sim::Conn &c, const char *p, size_t n, bool pending) {
    if (tlsOn) {
        BIO_write(tls->in, p, static_cast<int>(n));
        pumpTls(c, pending);
    } else {
        feed(c, p, n, pending, false);
    }
}

void SmtpPeer::feed(sim::Conn &c, const char *p, size_t n, bool pending, bool isTls) {
    (isTls ? tlsIn : clearIn).append(p, n);
    for (size_t i = 0; i < n; ++i) {
        if (tlsOn && !isTls) {   // bytes sent in clear right behind STARTTLS belong to the handshake
            clearIn.resize(clearIn.size() - (n - i));
            BIO_write(tls->in, p + i, static_cast<int>(n - i)); pumpTls(c, pending); return;
        }
        char ch = p[i];
        if (inData) {
            data += ch;
            size_t z = data.size();
            if (ch == '\n' && ((z >= 5 && data.compare(z - 5, 5, "\r\n.\r\n") == 0) || (z == 3 && data == ".\r\n"))) {
                inData = false;
                cur.data = data; cur.tls = isTls;
                Event e; e.kind = Event::Message; e.stage = ST_EOD; e.text = data; e.tls = isTls; e.at = c.owner->now; e.pending = pending || i + 1 < n; ev.push_back(e);
                if (pending) proto.push_back("message content sent before the 354 reply was read");
                bool ok = respond(c, ST_EOD, isTls);
                if (ok) mails.push_back(cur); else refusedMails.push_back(cur);
                haveMail = false; cur = Delivered(); data.clear();
            }
            continue;
        }
        if (line.empty()) { lineStart = true; linePending = pending; }
        line += ch;
        if (ch == '\n') {
            std::string l = line; line.clear();
            if (l.size() >= 2 && l[l.size() - 2] == '\r') l.resize(l.size() - 2); else { l.resize(l.size() - 1); proto.push_back("command line ended by a bare LF: " + esc(l, 80)); }
            command(c, l, linePending, isTls, i + 1 < n);
        }
    }
}

static std::string upper(std::string s) { for (auto &c : s) c = static_cast<char>(toupper(static_cast<unsigned char>(c))); return s; }

void SmtpPeer::command(sim::Conn &c, const std::string &l, bool pending, bool isTls, bool more) {
    Event e; e.kind = Event::Cmd; e.text = l; e.tls = isTls; e.pending = pending; e.at = c.owner->now;
    std::string u = upper(l);
    int st = ST_OTHER;
    if (authState == 1) st = ST_AUTH_USER;
    else if (authState == 2) st = ST_AUTH_PASS;
    else if (u.compare(0, 4, "EHLO") == 0 || u.compare(0, 4, "HELO") == 0) st = isTls ? ST_EHLO2 : ST_EHLO;
    else if (u == "STARTTLS") st = ST_STARTTLS;
    else if (u.compare(0, 5, "AUTH ") == 0) st = ST_AUTH;
    else if (u.compare(0, 10, "MAIL FROM:") == 0) st = ST_MAIL;
    else if (u.compare(0, 8, "RCPT TO:") == 0) st = ST_RCPT;
    else if (u == "DATA") st = ST_DATA;
    else if (u == "QUIT") st = ST_QUIT;
    e.stage = st;
    ev.push_back(e);
    if (quitSeen) proto.push_back("command after QUIT: " + esc(l, 80));
    if (more) proto.push_back("bytes sent behind '" + esc(l, 60) + "' without waiting for its reply");
    if (pending) proto.push_back("'" + esc(l, 60) + "' sent before the previous reply was read");
    switch (st) {
        case ST_AUTH: {
            std::string m = l.substr(5); size_t sp = m.find(' ');
            mech = upper(sp == std::string::npos ? m : m.substr(0, sp));
            initialResponse = sp == std::string::npos ? "" : m.substr(sp + 1);
            if (authed) proto.push_back("second AUTH after success");
            if (mech == "LOGIN" && initialResponse.empty()) {
                auto it = sc.over.find({ST_AUTH, occ[ST_AUTH]});
                if (it == sc.over.end() && !stopped) {
                    ++occ[ST_AUTH];
                    std::string t = "334 VXNlcm5hbWU6\r\n";
                    out(c, t, 0, isTls);
                    Event r; r.kind = Event::Reply_; r.stage = ST_AUTH; r.text = t; r.tls = isTls; r.at = c.owner->now; r.rawEnd = c.rxOffered; r.code = 334;
                    r.availAt = c.rx.empty() ? r.at : c.rx.back().at; r.complete = c.rxQueued == c.rxOffered; ev.push_back(r);
                    lastCode = 334;
                } else respond(c, ST_AUTH, isTls);
                if (lastCode == 334) authState = 1;
            } else {
                respond(c, ST_AUTH, isTls);
                if (lastCode == 235) authed = true;
                if (mech == "PLAIN") { std::string d = b64dec(initialResponse); size_t z1 = d.find('\0'), z2 = z1 == std::string::npos ? z1 : d.find('\0', z1 + 1); if (z2 != std::string::npos) { user = d.substr(z1 + 1, z2 - z1 - 1); pass = d.substr(z2 + 1); if (z1 != 0) proto.push_back("AUTH PLAIN authorization identity not empty"); } else proto.push_back("AUTH PLAIN response malformed"); }
                else if (mech == "XOAUTH2") {
                    std::string d = b64dec(initialResponse);
                    size_t a = d.find('\001');
                    std::string k = "\001auth=Bearer ";
                    size_t b = d.find(k);
                    if (d.compare(0, 5, "user=") != 0 || a == std::string::npos || b == std::string::npos || d.size() < 2 || d.compare(d.size() - 2, 2, "\001\001") != 0) proto.push_back("AUTH XOAUTH2 response malformed");
                    else { b = d.rfind(k); user = d.substr(5, b - 5); pass = d.substr(b + k.size(), d.size() - 2 - b - k.size()); }
                }
            }
            return;
        }
        case ST_AUTH_USER:
            user = b64dec(l); authState = 0;
            respond(c, ST_AUTH_USER, isTls);
            if (lastCode == 334) authState = 2;
            return;
        case ST_AUTH_PASS:
            pass = b64dec(l); authState = 0;
            respond(c, ST_AUTH_PASS, isTls);
            if (lastCode == 235) authed = true;
            return;
        case ST_STARTTLS:
            if (isTls) proto.push_back("STARTTLS inside TLS");
            respond(c, ST_STARTTLS, isTls);
            if (lastCode == 220) startTls(c);
            return;
        case ST_MAIL:
            if (haveMail) proto.push_back("MAIL inside an open transaction");
            if (occ[isTls ? ST_EHLO2 : ST_EHLO] == 0) proto.push_back("MAIL before EHLO");
            respond(c, ST_MAIL, isTls);
            if (lastCode == 250) { haveMail = true; cur = Delivered(); cur.from = l.substr(10); }
            return;
        case ST_RCPT:
            if (!haveMail) proto.push_back("RCPT without MAIL");
            respond(c, ST_RCPT, isTls);
            if (lastCode == 250) cur.rcpts.push_back(l.substr(8));
            return;
        case ST_DATA:
            if (!haveMail) proto.push_back("DATA without MAIL");
            else if (cur.rcpts.empty()) proto.push_back("DATA without an accepted recipient");
            respond(c, ST_DATA, isTls);
            if (lastCode == 354) { inData = true; data.clear(); }
            return;
        case ST_QUIT:
            quitSeen = true;
            respond(c, ST_QUIT, isTls);
            return;
        case ST_EHLO: case ST_EHLO2:
            respond(c, st, isTls); return;
        default:
            if (u == "RSET") { haveMail = false; cur = Delivered(); }
            else if (u != "NOOP") proto.push_back("unknown command: " + esc(l, 80));
            respond(c, ST_OTHER, isTls); return;
    }
}

void SmtpPeer::onClientClose(sim::Conn &c) {
    closed = true;
    Event e; e.kind = Event::Closed; e.at = c.owner->now; ev.push_back(e);
    if (!line.empty()) proto.push_back("connection closed inside a line: " + esc(line, 60));
}

std::vector<std::string> SmtpPeer::commands() const {
    std::vector<std::string> r;
    for (auto &e : ev) if (e.kind == Event::Cmd) r.push_back((e.tls ? "T:" : "C:") + e.text); else if (e.kind == Event::Message) r.push_back(e.tls ? "T:<message>" : "C:<message>");
    return r;
}
std::string SmtpPeer::transcript() const {
    std::string r; char b[64];
    for (auto &e : ev) {
        snprintf(b, sizeof b, "  [%8.3fs]%s ", static_cast<double>(e.at) / 1e6, e.tls ? "T" : " ");
        r += b;
        switch (e.kind) {
            case Event::Cmd: r += "C> " + esc(e.text, 160) + (e.pending ? "   (reply pending)" : ""); break;
            case Event::Reply_: r += "S< " + esc(e.text, 160); break;
            case Event::Message: r += "C> <message " + std::to_string(e.text.size()) + " bytes> " + esc(e.text, 300); break;
            case Event::TlsStart: r += "-- TLS starts"; break;
            case Event::Closed: r += "-- client closed"; break;
        }
        r += "\n";
    }
    return r;
}
