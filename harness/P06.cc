// Key decoding: every encoded key, every character, every short byte string.
#include "inpututil.h"
using namespace mc; using namespace sim;
static const DWORD kModes[] = {0x1b7, 0x1b6, 0x3b7, 0x3b6}; // processed or not, escape sequences wanted by the program or not
static const char *kModeName[] = {"cooked", "unprocessed", "vt-cooked", "vt-unprocessed"};
static std::string u8(uint32_t c) { std::string s; if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } return s; }
int main(int argc, char **argv) {
    Check c; c.id = "P06"; static std::vector<std::string> keys; for (auto &k : KeyTable::get().m) keys.push_back(k.first);
    c.assumptions = {"US keyboard layout with one AltGr character (VkKeyScan, MapVirtualKey)", "reference decoder of mc/inputref.h, written from the documented terminal encodings", "byte strings that are not valid UTF-8 are dropped in units of the length their first byte announces"};
    const size_t B = 64;
    for (int md = 0; md < 4; md++) {
        Suite s; s.name = std::string("keys-") + kModeName[md]; s.cases = [=](bool) { return (keys.size() + B - 1) / B; };
        s.describe = [=](size_t i) { return fmt("encodings %zu.. of %zu", i * B, keys.size()); };
        s.run = [=](Ctx &cx, size_t i) {
            InputRig g(kWin8, kModes[md]); std::vector<std::string> in;
            for (size_t k = i * B; k < std::min(keys.size(), (i + 1) * B); k++) { in.push_back(keys[k]); in.push_back("a" + keys[k] + "b"); in.push_back(keys[k] + keys[k] + "\x1b[A"); }
            checkEach(cx, g, in, "key");
        };
        s.bounds = fmt("all %zu key encodings, alone, inside text and repeated", keys.size()); c.suites.push_back(s);
        Suite u; u.name = std::string("characters-") + kModeName[md]; const uint32_t N = 0x110000, U = 512;
        u.cases = [=](bool t) { return (size_t)(t || !(md & 1) ? N / U : 0x3000 / U) * 2; }; u.describe = [=](size_t i) { return fmt("%sU+%04X..", i % 2 ? "Alt-" : "", (unsigned)(i / 2 * U)); };
        u.run = [=](Ctx &cx, size_t i) {
            InputRig g(kWin8, kModes[md]); std::vector<std::string> in; std::string batch;
            for (uint32_t cp = i / 2 * U, n = 0; n < U; n++, cp++) { if (cp >= 0xd800 && cp < 0xe000) continue; std::string one = (i % 2 ? "\x1b" : "") + u8(cp); if (cp < 0x800) in.push_back(one); else { batch += one; if (batch.size() > 150) { in.push_back(batch); batch.clear(); } } }
            if (!batch.empty()) in.push_back(batch); checkEach(cx, g, in, "characters");
        };
        u.bounds = "every Unicode scalar value (unprocessed modes: U+0000..U+2FFF unless thorough), with and without a leading ESC"; c.suites.push_back(u);
    }
    // all short byte strings
    struct Bs { const char *name, *pre; int n; const char *alpha; }; static const char cls[] = "\x03\x1b[]O;<>~^$@\x7f \x80\x8f\x90\x9f\xa0\xbf\xc0\xc1\xc2\xdf\xe0\xe1\xec\xed\xee\xef\xf0\xf1\xf3\xf4\xf5\xf7\xf8\xff" "1289AHMPRZamqy";
    static const Bs bs[] = {{"bytes", "", 2, nullptr}, {"esc", "\x1b", 2, nullptr}, {"csi", "\x1b[", 2, nullptr}, {"ss3", "\x1bO", 2, nullptr}, {"esc-csi", "\x1b\x1b[", 2, nullptr}, {"esc-ss3", "\x1b\x1bO", 2, nullptr}, {"linux-fn", "\x1b[[", 1, nullptr}, {"utf8", "", 3, cls}, {"csi-params", "\x1b[", 4, "12359;~^$@AHMRm<O[\x1b-x"}, {"alt-csi-params", "\x1b\x1b[", 3, "12359;~^$@AHMRm<O[\x1b-x"}, {"ss3-params", "\x1bO", 4, "12358;APRMjy[O\x1b~"}, {"csi-number", "\x1b[", 5, "12;4~"}};
    for (auto &b : bs) {
        for (int md = 0; md < 4; md += b.n >= 3 ? 2 : 1) {
            Suite s; s.name = std::string(b.name) + "-" + kModeName[md]; size_t A = b.alpha ? strlen(b.alpha) : 256; size_t tot = 1; for (int i = 0; i < b.n; i++) tot *= A;
            s.cases = [=](bool) { return (tot + 127) / 128; }; const Bs *p = &b;
            s.describe = [=](size_t i) { return fmt("strings %zu.. after \"", i * 128) + show(p->pre) + "\""; };
            s.run = [=](Ctx &cx, size_t i) {
                InputRig g(kWin8, kModes[md]); std::vector<std::string> in;
                for (size_t k = i * 128; k < std::min(tot, (i + 1) * 128); k++) { std::string t = p->pre; size_t v = k; for (int j = 0; j < p->n; j++) { t += p->alpha ? p->alpha[v % A] : (char)(v % A); v /= A; } in.push_back(t); }
                checkEach(cx, g, in, "bytes");
            };
            s.bounds = fmt("all %zu strings of %d bytes over %zu byte values after \"%s\", each followed by the incomplete-sequence timeout when it leaves something undecided", tot, b.n, A, show(b.pre).c_str()); c.suites.push_back(s);
        }
    }
    return mc::main(argc, argv, c);
}
