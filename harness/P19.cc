// Whatever fails inside a call of the library - an allocation, an operating
// system call, the agent - nothing of it is left in the caller's process.
#include "rpc.h"
static const char *opn[] = {"winpty_open", "winpty_spawn", "winpty_set_size", "winpty_get_console_process_list", "winpty_set_size"};
static const UINT64 fl[] = {0, WINPTY_FLAG_CONERR, WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION};
struct Rig {
    Ctx &cx; Session S; Rpc R; std::string where; bool live = false, bare = false; int opNow = 0, refused = 0, events = 0; DWORD err = 5;
    Rig(Ctx &c, const OsCfg &os) : cx(c), S(os), R(S) { S.w.cancelPolicy = [](Io *) { return 1; }; g_watchProc = S.client; g_watchHook = nullptr; }
    ~Rig() { g_watchProc = nullptr; g_watchHook = nullptr; }
    void arm() {
        g_watchHook = [this]() { if (!live || !cx.canDeviate()) return false; if (!cx.choose(2, "allocation")) return false; events++; refused++; where += " an allocation"; return true; };
        S.w.fault = [this](const char *nm) -> DWORD { if (!live || !S.w.cur || curProc() != S.client || !cx.canDeviate()) return 0; if (!cx.choose(2, nm)) return 0; NoTrack nt; events++; where += std::string(" ") + nm; return err; };
        S.w.onApi = [this](const char *nm) { if (!live || !S.w.cur || curProc() != S.client || !cx.canDeviate()) return; Process *v = S.agent && !S.agent->exited ? S.agent : S.desktopAgent; if (!v || v->exited) return; if (!cx.choose(2, "agent ends")) return; NoTrack nt; events++; where += std::string(" agent-ends-at-") + nm; S.w.exitProcess(v, 5); };
    }
    bool bad(const std::string &m) { cx.note += where.empty() ? "" : " (fails:" + where + ")"; cx.fail(m); return false; }
    // one whole session
    bool program(UINT64 flags, bool events_) {
        R.wantErr = !bare; std::vector<HANDLE> hs; bool lost = false;
        for (int i = 0; i < 5; i++) {
            opNow = i; int before = refused; size_t h0 = S.client->table.size(); int ev0 = events; live = events_; Res r;
            switch (i) { case 0: r = R.open(flags, 3000); break; case 1: r = R.spawn(WINPTY_SPAWN_FLAG_AUTO_SHUTDOWN, !bare, !bare); break; case 2: case 4: r = R.size(30 + i, 8); break; default: r = R.list(64); }
            live = false;
            if (!r.returned) return bad(std::string(opn[i]) + " does not return");
            if (!bare) { bool noCount = i == 3 && r.code == 0; std::string e = wellFormed(opn[i], r, !noCount); if (!e.empty()) return bad(e); if (noCount) r.ok = true;
                if (refused != before && r.ok) return bad(fmt("%s reports success although an allocation failed in it", opn[i]));
                if (refused != before && events == 1 && r.code != WINPTY_ERROR_OUT_OF_MEMORY) return bad(fmt("%s: code %d (%s) when memory ran out", opn[i], r.code, nmsg(r).c_str()));
                if (refused == before && !lost && r.code == WINPTY_ERROR_OUT_OF_MEMORY) return bad(fmt("%s reports that memory ran out, but it did not", opn[i]));
                if (events == ev0 && !lost && !r.ok) return bad(fmt("%s failed without a cause: %s", opn[i], nmsg(r).c_str()));
            }
            if (i == 1 && !bare) { if (r.ok) hs = {r.ph, r.th}; else if (r.ph == (HANDLE)0x77 ? 0 : r.ph || r.th) return bad("a failed winpty_spawn returned a handle"); }
            if (i == 1 && r.ok && !bare && (!S.client->get(r.ph) || !S.client->get(r.th))) return bad("winpty_spawn returned a handle that is not open");
            if (i == 1 && r.ok && bare && S.client->table.size() != h0) return bad("winpty_spawn opened a handle nobody asked for");
            if (i > 1 && S.client->table.size() > h0) return bad(fmt("%s leaves a handle open", opn[i]));
            if (events != ev0) lost = true; // what the later calls do is the concern of P16; here only that they leave nothing behind
            cx.outcome(mix(mix(i, r.code), hash(narrow(r.msg.substr(0, 12))))); if (i == 0) { if (!S.wp) break; if (S.w.pipes.size() && r.ok) R.pipes(); }
        }
        if (hs.size()) { Res r = R.closeHandles(hs[0], hs[1]); if (!r.returned) return bad("CloseHandle"); }
        live = events_; if (S.wp) { opNow = 5; Res r = R.free(); if (!r.returned) return bad("winpty_free does not return"); } live = false;
        S.run(2000); for (Process *p : {S.agent, S.desktopAgent}) if (p && !p->exited) return bad("an agent is still running after the session was freed");
        cx.stepTo(S.w.apiCalls); cx.validated(); cx.state(mix(hash(where), opNow)); return true;
    }
    struct Left { size_t handles; int64_t live, bytes; int la, sid, mod, crypt, st; WinSta *ws; Desktop *dk; };
    Left left() { return {S.client->table.size(), g_watchLive, g_watchBytes, S.w.openLocalAllocs, S.w.openSids, S.w.openModules, S.w.openCrypt, S.w.openStations, S.client->winsta, S.client->desktop}; }
    bool compare(const Left &a, const Left &b, bool mem) {
        if (a.ws != b.ws) return bad("the process is left on another window station"); if (a.st != b.st) return bad(fmt("%d window stations or desktops are left open", b.st - a.st));
        if (b.handles != a.handles) return bad(fmt("%d handles are left open", (int)b.handles - (int)a.handles));
        if (b.la != a.la) return bad(fmt("%d LocalAlloc blocks are left", b.la - a.la)); if (b.sid != a.sid) return bad(fmt("%d SIDs are left", b.sid - a.sid));
        if (b.mod > a.mod) return bad(fmt("%d modules are left loaded", b.mod - a.mod)); if (b.crypt != a.crypt) return bad("a cryptographic context is left open");
        if (mem && b.live != a.live) return bad(fmt("%lld allocations (%lld bytes) are left", (long long)(b.live - a.live), (long long)(b.bytes - a.bytes)));
        return S.ok(cx);
    }
};
int main(int argc, char **argv) {
    Check c; c.id = "P19";
    c.assumptions = {"exception objects themselves can always be allocated", "setting the original window station again and closing handles cannot fail", "the agent's own memory does not run out"};
    for (int oo = 0; oo < 5; oo++) for (int bare = 0; bare < 2; bare++) { bool dbl = oo == 4;
        // flags: CONERR does not change the library's resources, so it is left to the deeper exploration; the desktop flag only matters on XP
        static const DWORD errs[] = {5, ERROR_NO_DATA};
        Suite s; s.name = fmt("%s%s%s", dbl ? "two" : "one-", dbl ? "" : kOs[oo].name, bare ? "-noout" : ""); s.recycle = 300; s.cases = [=](bool t) -> size_t { return dbl ? (t ? 12 : bare ? 0 : 4) : 3 * 2; }; s.bound = [=](bool) { return dbl ? 2 : 1; };
        s.describe = [=](size_t i) { i = dbl ? i / 4 : i; return fmt("open(flags %llx), spawn, set_size, list, set_size, free%s; failing calls give error %u", (unsigned long long)fl[i % 3], bare ? " with every optional result omitted" : "", errs[i / 3]); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); int o = dbl ? i % 4 : oo; i = dbl ? i / 4 : i; Rig g(cx, kOs[o]); g.bare = bare; g.err = errs[i / 3]; UINT64 f = fl[i % 3];
            if (!g.program(f, false)) return; g.S.agent = g.S.desktopAgent = nullptr; auto a = g.left(); g.arm(); if (!g.program(f, true)) return; auto b = g.left(); if (!g.compare(a, b, true)) return;
            // and the library still works in this process
            g.S.agent = g.S.desktopAgent = nullptr; g.where += " (then a second session)"; if (!g.program(f, false)) return; g.compare(a, g.left(), true);
        };
        s.bounds = "a session of every kind of call; at every allocation and every operating system call of the library: it fails, or the agent ends; two such events in every combination"; c.suites.push_back(s);
    }
    // the first session of a process also sets up the library's own static state
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = fmt("cold-%s", kOs[o].name); s.recycle = 1; s.cases = [](bool) { return (size_t)2; }; s.bound = [](bool) { return 1; };
        s.describe = [=](size_t i) { return fmt("the first session of a process, open(flags %llx)", (unsigned long long)fl[i * 2]); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[o]); auto a = g.left(); g.arm(); if (!g.program(fl[i * 2], true)) return; if (!g.compare(a, g.left(), false)) return;
            g.S.agent = g.S.desktopAgent = nullptr; g.where += " (then a second session)"; if (!g.program(fl[i * 2], false)) return; auto b = g.left(); if (!g.compare(a, b, false)) return;
            g.S.agent = g.S.desktopAgent = nullptr; if (!g.program(fl[i * 2], false)) return; g.compare(b, g.left(), true);
        };
        s.bounds = "one event in the first session of a fresh process"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
