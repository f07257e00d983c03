// The winpty program (unix-adapter) with a terminal, the real library and agent.
#pragma once
#include "rpc.h"
#include "posixw.h"
int winpty_unix_main(int argc, char **argv);
struct Rig {
    Ctx *cx; Session S; Posix P; bool on = false; Fiber *mainF = nullptr, *last = nullptr, *pre = nullptr; std::vector<std::string> args; std::vector<char *> av; bool ended = false; int rc = -1;
    Rig(Ctx *c, const OsCfg &os, std::vector<std::string> a, int cols = 40, int rows = 8) : cx(c), S(os), P(S.client, cols, rows), args(std::move(a)) {
        P.files = {"/usr/bin/prog.exe", "/usr/bin/winpty.exe"}; P.env["PATH"] = "/usr/bin:/bin"; P.env["TERM"] = "xterm"; P.env["HOME"] = "/home/u"; S.drain = false;
        for (auto &s : args) av.push_back((char *)s.c_str()); av.push_back(nullptr);
    }
    ~Rig() { S.w.schedPoint = nullptr; S.w.pick = nullptr; S.w.onApi = nullptr; S.w.fault = nullptr; }
    void go() { NoTrack nt; mainF = S.w.spawn(S.client, [this]() { int r = winpty_unix_main((int)args.size(), av.data()); g_track = false; S.w.exitProcess(S.client, r); }); }
    bool exited() { return S.client->exited; }
    void pipes() { if (S.conin) return; for (auto &p : S.w.pipes) { std::string n = narrow(p->name); if (n.find("conin") != std::string::npos) S.conin = p.get(); if (n.find("conout") != std::string::npos) S.conout = p.get(); if (n.find("conerr") != std::string::npos) S.conerr = p.get(); } }
    bool start(int polls = 4) { go(); S.poll(polls); pipes(); return S.child && !exited(); }
    std::string keys() { std::string k; for (auto &r : S.con->inputLog) if (r.EventType == KEY_EVENT && r.Event.KeyEvent.bKeyDown && r.Event.KeyEvent.uChar.UnicodeChar) k += utf8(std::wstring(1, r.Event.KeyEvent.uChar.UnicodeChar)); return k; }
    int W_() { auto &w = S.con->active->win; return w.Right - w.Left + 1; } int H_() { auto &w = S.con->active->win; return w.Bottom - w.Top + 1; }
    void say(const std::string &t) { S.con->writeText(S.con->primary, utf16(t)); }
    bool bad(const std::string &m) { cx->fail(m); return false; }
};

