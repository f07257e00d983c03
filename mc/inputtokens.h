// Alphabet of complete input items used by the input-side checks.
#pragma once
#include "inputref.h"
namespace mc {
struct Tok { std::string s; const char *name; };
inline const std::vector<Tok> &tokens() {
    static const std::vector<Tok> t = {
        {"x", "x"}, {"\r", "enter"}, {"A", "A"}, {"\x7f", "bs"}, {"\x03", "ctrl-c"}, {"\x01", "ctrl-a"}, {"\xc3\xa9", "e-acute"}, {"\xe2\x82\xac", "euro"}, {"\xf0\x9f\x98\x80", "emoji"},
        {"\x1b[A", "up"}, {"\x1bOB", "ss3-down"}, {"\x1b[1;5C", "ctrl-right"}, {"\x1b[3~", "del"}, {"\x1b[15;2~", "shift-f5"}, {"\x1b[24^", "ctrl-f12"}, {"\x1b\x1b[H", "alt-home"}, {"\x1b\x1b[[C", "alt-f3"}, {"\x1bOP", "f1"}, {"\x1bO5P", "ctrl-f1"}, {"\x1b[Z", "shift-tab"},
        {"\x1bx", "alt-x"}, {"\x1b\xc3\xa9", "alt-e-acute"}, {"\x1b\xf0\x9f\x98\x80", "alt-emoji"}, {"\x1b\x7f", "alt-bs"},
        {"\x1b[<0;3;2M", "sgr-press"}, {"\x1b[<0;3;2m", "sgr-release"}, {"\x1b[<65;20;4M", "sgr-wheel"}, {"\x1b[32;5;3M", "urxvt-press"}, {"\x1b[M !\"", "x10-press"}, {"\x1b[M#\xf1\xff", "x10-release"},
        {"\x1b[12;40R", "dsr-reply"}, {"\xff", "bad-byte"}, {"\xc0\x80", "overlong"}};
    return t;
}
inline bool isDsrReply(const std::string &s) { return s.size() > 4 && s[0] == 27 && s.back() == 'R' && s != "\x1b[R"; }
inline int countStr(const std::string &s, const char *p) { int n = 0; for (size_t i = 0; (i = s.find(p, i)) != std::string::npos; i++) n++; return n; }
} // namespace mc
