#include <sys/stat.h>
#include <unistd.h>
#include "attachment.h"
#include "cpp/attachment.hpp"
#include "core.h"

// The library's documented extension table, written down independently of its code
static const std::map<std::string, std::string> &types() {
    static const std::map<std::string, std::string> T = {
        {"png", "image/png"}, {"jpeg", "image/jpeg"}, {"jpg", "image/jpeg"}, {"jpe", "image/jpeg"}, {"gif", "image/gif"}, {"tiff", "image/tiff"}, {"tif", "image/tiff"}, {"ico", "image/x-icon"},
        {"xml", "application/xml"}, {"xsl", "application/xml"}, {"xhtml", "application/xhtml+xml"}, {"xht", "application/xhtml+xml"}, {"pdf", "application/pdf"}, {"js", "application/javascript"},
        {"css", "text/css"}, {"csv", "text/csv"}, {"html", "text/html"}, {"htm", "text/html"}, {"txt", "text/plain"}, {"text", "text/plain"}, {"conf", "text/plain"}, {"def", "text/plain"}, {"list", "text/plain"}, {"log", "text/plain"}, {"in", "text/plain"},
        {"mpeg", "video/mpeg"}, {"mpg", "video/mpeg"}, {"mpe", "video/mpeg"}, {"m1v", "video/mpeg"}, {"m2v", "video/mpeg"}, {"mp4", "video/mp4"}, {"mp4v", "video/mp4"}, {"mpg4", "video/mp4"}, {"qt", "video/quicktime"}, {"mov", "video/quicktime"}, {"wmv", "video/x-ms-wmv"}, {"avi", "video/x-msvideo"}, {"flv", "video/x-flv"}, {"webm", "video/webm"},
        {"wav", "audio/wav"}, {"mp3", "audio/mpeg"}, {"oga", "audio/ogg"}, {"opus", "audio/opus"}, {"aac", "audio/aac"}, {"zip", "application/zip"}, {"rar", "application/x-rar-compressed"},
        {"odt", "application/vnd.oasis.opendocument.text"}, {"ods", "application/vnd.oasis.opendocument.spreadsheet"}, {"odp", "application/vnd.oasis.opendocument.presentation"}, {"odg", "application/vnd.oasis.opendocument.graphics"},
        {"xls", "application/vnd.ms-excel"}, {"xlm", "application/vnd.ms-excel"}, {"xla", "application/vnd.ms-excel"}, {"xlc", "application/vnd.ms-excel"}, {"xlt", "application/vnd.ms-excel"}, {"xlw", "application/vnd.ms-excel"},
        {"xlam", "application/vnd.ms-excel.addin.macroenabled.12"}, {"xlsb", "application/vnd.ms-excel.sheet.binary.macroenabled.12"}, {"xlsm", "application/vnd.ms-excel.sheet.macroenabled.12"}, {"xltm", "application/vnd.ms-excel.template.macroenabled.12"},
        {"xlsx", "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet"}, {"xltx", "application/vnd.openxmlformats-officedocument.spreadsheetml.template"},
        {"ppt", "application/vnd.ms-powerpoint"}, {"pps", "application/vnd.ms-powerpoint"}, {"pot", "application/vnd.ms-powerpoint"}, {"ppam", "application/vnd.ms-powerpoint.addin.macroenabled.12"}, {"pptm", "application/vnd.ms-powerpoint.presentation.macroenabled.12"}, {"sldm", "application/vnd.ms-powerpoint.slide.macroenabled.12"}, {"ppsm", "application/vnd.ms-powerpoint.slideshow.macroenabled.12"}, {"potm", "application/vnd.ms-powerpoint.template.macroenabled.12"},
        {"pptx", "application/vnd.openxmlformats-officedocument.presentationml.presentation"}, {"sldx", "application/vnd.openxmlformats-officedocument.presentationml.slide"}, {"ppsx", "application/vnd.openxmlformats-officedocument.presentationml.slideshow"}, {"potx", "application/vnd.openxmlformats-officedocument.presentationml.template"},
        {"doc", "application/msword"}, {"dot", "application/msword"}, {"docx", "application/vnd.openxmlformats-officedocument.wordprocessingml.document"}, {"dotx", "application/vnd.openxmlformats-officedocument.wordprocessingml.template"}, {"xul", "application/vnd.mozilla.xul+xml"}};
    return T;
}
static std::string typeOf(const std::string &path) { size_t d = path.find_last_of('.'); auto it = types().find(lowerStr(d == std::string::npos ? path : path.substr(d + 1))); return it == types().end() ? "" : it->second; }
static std::string squeeze(std::string s) { for (auto &c : s) if (c == '\r' || c == '\n') c = ' '; std::string o; for (char c : s) if (c != ' ' || o.empty() || o.back() != ' ') o += c; return o; }
static bool same(const std::string &got, const std::string &want) { return got == want || (want.find_first_of("\r\n") != std::string::npos && squeeze(got) == squeeze(want)); }
static std::string caseMix(Rng &r, std::string s) { int x = r.range(0, 2); if (x == 1) s = upperStr(s); else if (x == 2 && !s.empty()) s[0] = static_cast<char>(toupper(s[0])); return s; }
static std::string bytesOf(Rng &r, size_t n) {
    std::string s; s.reserve(n); int mode = r.range(0, 3);
    for (size_t i = 0; i < n; ++i) s += mode == 0 ? '\0' : mode == 1 ? "\r\n.\r\n--sep"[i % 10] : static_cast<char>(r.next());
    return s;
}
static const std::vector<std::string> &exts() { static std::vector<std::string> v; if (v.empty()) for (auto &x : types()) v.push_back(x.first); return v; }
static const char LET[] = "abcdefghijklmnopqrstuvwxyz0123456789_-.()[]!$&'^~#{}+";
static const int SIZES = 420;
static size_t sweepSize(int k) {   // small sizes, then around the multiples of the encoder's line length and of read buffers
    if (k < 140) return static_cast<size_t>(k);
    static const size_t C[] = {512, 1024, 2048, 4096, 8192, 12288, 16384, 24576, 49152, 65536, 98304, 131072, 147456, 196608};
    int j = k - 140; return C[static_cast<size_t>(j / 20)] - 10 + static_cast<size_t>(j % 20);
}

static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng; Cfg cfg; MsgSpec m; Script sc; int sends = 1;
    std::vector<std::string> dirs;
    if (k < SIZES) {
        cfg.kind = k % 23 == 0 ? FORCED : PLAIN; cfg.cpp = k % 2;
        m.from = {"a@b.com", ""}; m.to = {{"c@d.com", ""}}; m.subject = "s"; m.body = std::string(static_cast<size_t>(k % 7), 'b');
        std::string b = bytesOf(r, sweepSize(static_cast<int>(k)));
        m.atts.push_back(makeAtt(c, "sweep." + exts()[static_cast<size_t>(k) % exts().size()], b, "n.bin", k % 3 ? "" : "cid1"));
        sc.implicitTls = cfg.kind == FORCED;
    } else {
        cfg = genCfg(r); if (r.chance(50)) { cfg.kind = PLAIN; } sc = genScript(r, cfg); if (!cfg.batch && r.chance(10)) cfg.batch = true;
        sends = cfg.batch ? r.range(1, 3) : r.chance(20) ? r.range(2, 3) : 1;
    }
    World w(sc); w.sim.randomShort = r.chance(10); w.sim.rng = r.next() | 1;
    auto cl = makeClient(cfg);
    for (int n = 0; n < sends; ++n) {
        if (k >= SIZES && n > 0 && r.chance(50)) {   // the same files again, with other contents now: equally long, or not
            m.atts.resize(r.chance(50) ? 1 : m.atts.size());
            for (auto &a : m.atts) if (a.readable && a.bytes.size() < 300000 && r.chance(80)) {
                std::string b = a.bytes; if (r.chance(30)) b = bytesOf(r, r.below(2000)); else if (!b.empty()) { if (r.chance(50)) for (auto &ch : b) ch = static_cast<char>(ch ^ 1); else b[r.below(b.size())] = static_cast<char>(b[0] + 1 + r.range(0, 200)); }
                a = makeAtt(c, a.path.substr(a.path.find_last_of('/') + 1), b, a.name, a.cid); c.count("files attached again after a change");
            }
        } else if (k >= SIZES) {
            m = genMsg(r); m.atts.clear();
            int na = r.chance(8) ? r.chance(20) ? r.tail(12, 150) : r.range(5, 12) : r.range(1, 4);
            for (int i = 0; i < na; ++i) {
                std::string ext = r.chance(85) ? r.pick(exts()) : r.chance(50) ? "xyz" : "";
                std::string fn = "a" + std::to_string(i) + (r.chance(20) ? ".tar" : "") + (r.chance(10) ? " with space" : "") + (ext.empty() ? "" : "." + caseMix(r, ext));
                static const std::vector<std::string> NM = {"report.pdf", "image 1.png", "a;b.txt", "quo\"te.txt", "back\\slash.txt", "caf\xc3\xa9.txt", "", "semi; filename=evil.exe", "x", "n\"; name=\"y", "a,b=c", "(comment).txt", "--sep", "'single'", "tab\there", "very long name very long name very long name very long name very long name very long name very long name.txt"};
                std::string nm = r.pick(NM); if (r.chance(6)) nm = genName(r, false); if (r.chance(3)) { nm.clear(); for (int z = r.tail(1, 2000); z > 0; --z) nm += LET[r.below(sizeof LET - 1)]; nm += ".txt"; } if (r.chance(10)) nm = "bad\r\nX-Inject: yes\r\n\r\nname.txt"; if (r.chance(3)) nm = "x\r\n--sep\r\nContent-Type: text/html";
                std::string cid = r.chance(45) ? (r.chance(20) ? "id@host.example" : r.chance(15) ? "evil\r\nX-Inject: 1" : uniqueToken(r, r.chance(8) ? r.tail(20, 600) : r.range(1, 20))) : "";
                if (r.chance(14)) {
                    Att a; a.name = nm; a.cid = cid; a.readable = false;
                    int x = r.range(0, 3);
                    if (x == 0) a.path = c.scratch + "/missing-" + fn;
                    else if (x == 1) { a.path = c.scratch + "/dir" + std::to_string(i) + (ext.empty() ? "" : "." + ext); mkdir(a.path.c_str(), 0700); dirs.push_back(a.path); }
                    else if (x == 2) a.path = c.scratch + "/nodir/" + fn;
                    else { a.path = c.scratch + "/" + std::string(300, 'l') + "." + ext; }
                    m.atts.push_back(a);
                } else {
                    size_t len = r.chance(60) ? r.below(400) : r.chance(70) ? r.below(9000) : r.chance(50) ? 49152u * static_cast<size_t>(r.range(1, 3)) + r.below(7) - 3 : r.below(200000);
                    if (na > 12) len = r.below(300); else if (r.below(c.thorough() ? 100 : 900) == 0) len = static_cast<size_t>(r.tail(200000, 5000000));
                    if (k % 800 == 799 && i == 0 && n == 0 && na <= 12) len = static_cast<size_t>(r.tail(5000000, 20000000));
                    m.atts.push_back(makeAtt(c, fn, bytesOf(r, len), nm, cid));
                }
            }
        }
        auto bad = [&](const std::string &key, const std::string &d) { c.viol(key, describe(w, cfg, sc, m, 0, d)); };
        // the attachment objects themselves
        for (auto &a : m.atts) {
            jed_utils::Attachment at(a.path.c_str(), a.name.c_str(), a.cid.c_str()); jed_utils::cpp::Attachment ap(a.path, a.name, a.cid);
            std::unique_ptr<const char[]> b(at.getBase64EncodedFile()); std::string s = b ? b.get() : "";
            if (b64dec(s) != a.bytes) bad("encoded file of the attachment object", a.path);
            if (ap.getBase64EncodedFile() != s) bad("encoded file of the C++ attachment object", a.path);
            std::string t = typeOf(a.path);
            if (!t.empty() && (at.getMimeType() != t || ap.getMimeType() != t)) bad("type of the attachment object", a.path + ": " + at.getMimeType());
        }
        Sent s = sendWalk(w, *cl, cfg, m);
        if (s.peer < 0) break;
        if (!s.walk.haveRaw) { if (s.walk.noMech || s.walk.ambiguous) break; bad("no complete message content reached the server", ""); break; }
        for (auto &d : s.walk.divs) if (d.kind == "continued") bad("the message ended early or started another command", d.what);
        if (s.rec.result != 0 && s.walk.completed) bad("result is not success", std::to_string(s.rec.result));
        Parsed q = parseMessage(s.walk.raw);
        if (!q.ok || !q.closed) { bad("content not parsable", q.error); break; }
        if (q.parts.size() != 1 + m.atts.size()) { bad("number of MIME parts", std::to_string(q.parts.size()) + " parts for " + std::to_string(m.atts.size()) + " attachments"); break; }
        for (size_t i = 0; i < m.atts.size(); ++i) {
            const Att &a = m.atts[i]; const Part &p = q.parts[i + 1];
            std::string which = "attachment " + std::to_string(i) + " " + esc(a.path, 60) + " name \"" + esc(a.name, 60) + "\": ";
            std::string hd; for (auto &h : p.headers) hd += h.first + ": " + h.second + " | ";
            c.count("attachment parts decoded"); c.count("attachment bytes compared", a.bytes.size()); if (!a.readable) c.count("unreadable attachments");
            if (p.count("Content-Type") != 1 || p.count("Content-Disposition") != 1 || p.count("Content-Transfer-Encoding") != 1) bad("headers of an attachment part", which + hd);
            for (auto &h : p.headers) { std::string n2 = lowerStr(h.first); if (n2.compare(0, 8, "content-") != 0 && n2 != "x-attachment-id") bad("unexpected header in an attachment part", which + hd); }
            if (lowerStr(trimStr(p.header("Content-Transfer-Encoding"))) != "base64") bad("transfer encoding of an attachment", which + hd);
            std::string ct = p.header("Content-Type"), type = lowerStr(trimStr(ct.substr(0, ct.find(';')))), want = typeOf(a.path);
            if (want.empty() ? !(type.empty() || type == "application/octet-stream") : type != want) bad("type of an attachment part", which + hd);
            bool f = false; std::string cd = p.header("Content-Disposition"), fn = param(cd, "filename", f), disp = lowerStr(trimStr(cd.substr(0, cd.find(';'))));
            if (!f || !same(fn, a.name)) bad("declared file name differs from the attachment's name", which + hd);
            bool f2 = false; for (const char *pn : {"file", "name"}) { std::string v = param(ct, pn, f2); if (f2 && !same(v, a.name)) bad("file name in Content-Type differs from the attachment's name", which + hd); }
            if (disp != (a.cid.empty() ? "inline" : "attachment")) bad("disposition of an attachment", which + hd);
            if (a.cid.empty() ? p.count("Content-ID") != 0 : p.count("Content-ID") != 1 || !same(p.header("Content-ID"), "<" + a.cid + ">")) bad("content id of an attachment", which + hd);
            std::string got = b64dec(p.content);
            if (got != a.bytes) {
                size_t z = 0; while (z < got.size() && z < a.bytes.size() && got[z] == a.bytes[z]) ++z;
                bad(a.readable ? "attachment bytes differ" : "unreadable attachment is not an empty part", which + std::to_string(a.bytes.size()) + " bytes in the file, " + std::to_string(got.size()) + " received, first difference at " + std::to_string(z));
            }
            c.distinct(std::to_string(hash64(a.bytes)) + a.name + a.cid + want + (a.readable ? "r" : "u"));
        }
        if (n == 0 && k % 53 == 0) c.sample(m.show());
    }
    for (auto &d : dirs) rmdir(d.c_str());
    for (auto &a : m.atts) unlink(a.path.c_str());
}
const PropDef theProp = {"C06", [](bool t) -> int64_t { return SIZES + (t ? 60000 : 2500); }, run,
    "Real files in a scratch directory: every size 0..139 and 20 sizes around each of 14 multiples of buffer and line lengths, all 74 extensions in several cases; then random messages with 1-12 (rarely up to 150) attachments (hostile names with quotes, separators, line breaks, boundary look-alikes; content ids; random, NUL and CRLF-dot contents; missing files, directories, over-long paths), single and batch, the same files attached again after a change. A MIME receiver decodes every part the server got and compares bytes, type, name, disposition and id with the attachment. Non-trivial: distinct (contents, name, id, type) attachments decoded.",
    {"runs as root, so permission errors are represented by missing files, directories and over-long paths", "an unknown extension may be labelled with no type or application/octet-stream", "special files that block on open (FIFOs) are not attached"}};
