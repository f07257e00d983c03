// Every API call returns in time with the right error when the agent dies, hangs, misbehaves or the OS refuses.
#include "rpc.h"
static const char *opn[] = {"winpty_open", "winpty_spawn", "winpty_set_size", "winpty_get_console_process_list", "winpty_set_size", "winpty_free"};
static const DWORD kTimeout = 3000;
struct Rig {
    Ctx &cx; Session S; Rpc R; bool sick = false; std::string where; int opNow = 0; bool bad = false;
    Rig(Ctx &c, const OsCfg &os) : cx(c), S(os), R(S) { S.w.cancelPolicy = [](Io *) { return 1; }; }
    bool chk(const char *w, const Res &r) { std::string e = wellFormed(w, r); if (!e.empty()) { fail(e); return false; } return true; }
    void fail(const std::string &m) { bad = true; cx.note += where.empty() ? "" : " (fault " + where + ")"; cx.fail(m); }
    // runs the program; judge() looks at each result
    void program(UINT64 flags, UINT64 sf, std::function<bool(int, const Res &)> judge) {
        bool broken = false; std::vector<HANDLE> hs; int i = 0;
        for (; i < 5 && !bad; i++) {
            opNow = i; Res r; switch (i) { case 0: r = R.open(flags, kTimeout); break; case 1: r = R.spawn(sf); break; case 2: case 4: r = R.size(30 + i, 8); break; default: r = R.list(64); }
            if (i == 3 && !r.ok && r.returned && r.code == 0 && where.find("GetConsoleProcessList") != where.npos) r.ok = true, r.count = 1; // the system does not tell: zero processes, no error
            if (!chk(opn[i], r)) return; if (r.ok && i == 1) hs = {r.ph, r.th}; if (!r.ok && i == 1 && (r.ph || r.th)) { fail("a failed winpty_spawn returned a handle"); return; }
            if (!r.ok && i == 1 && r.code != WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED && r.cpErr) { fail("winpty_spawn set create_process_error although CreateProcess was not the cause"); return; }
            if (r.ok && i == 3) { if (r.count < 1 || r.count > 64) { fail(fmt("process count %d", r.count)); return; } }
            if (broken) { if (r.ok) { fail(std::string(opn[i]) + " succeeded after an earlier call had lost the agent"); return; } if (r.ms) { fail(fmt("%s took %llu ms after an earlier call had lost the agent", opn[i], (unsigned long long)r.ms)); return; } }
            else if (!judge(i, r)) return;
            if (!r.ok && r.code != WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED) broken = true; cx.outcome(mix(mix(i, r.code), mix(hash(narrow(r.msg.substr(0, 12))), r.ms))); if (i == 0 && !r.ok) break; if (i == 0) R.pipes();
        }
        if (hs.size() == 2) { Res r = R.closeHandles(hs[0], hs[1]); if (!r.returned) fail("CloseHandle"); }
        if (S.wp) { opNow = 5; Res r = R.free(); if (!r.returned) { fail("winpty_free does not return"); return; } if (r.ms > kTimeout + 100) { fail("winpty_free takes too long"); return; } }
        for (Process *p : {S.agent, S.desktopAgent}) if (p && p->suspended) { p->suspended = false; } S.run(2000); cx.stepTo(S.w.apiCalls); cx.validated(); cx.state(mix(hash(where), opNow));
        for (Process *p : {S.agent, S.desktopAgent}) if (p && !p->exited) { fail("an agent is still running after the session was freed"); return; } S.ok(cx);
    }
};
static void put64(std::string &s, uint64_t v) { s.append((char *)&v, 8); }
static std::string pk(const std::string &body) { std::string s; put64(s, 8 + body.size()); return s + body; }
static std::string i32(int v) { std::string s(1, 0); s.append((char *)&v, 4); return s; } static std::string i64(int64_t v) { std::string s(1, 1); s.append((char *)&v, 8); return s; }
static std::string wst(const std::wstring &w) { std::string s(1, 2); put64(s, w.size()); s.append((char *)w.data(), w.size() * 2); return s; }
// reference decoder of the wire format
struct Dec { std::string b; size_t o = 0; bool bad = false; int32_t g32() { if (o + 5 > b.size() || b[o] != 0) { bad = true; return 0; } int32_t v; memcpy(&v, &b[o + 1], 4); o += 5; return v; } int64_t g64() { if (o + 9 > b.size() || b[o] != 1) { bad = true; return 0; } int64_t v; memcpy(&v, &b[o + 1], 8); o += 9; return v; } std::wstring gs() { if (o + 9 > b.size() || b[o] != 2) { bad = true; return L""; } uint64_t n; memcpy(&n, &b[o + 1], 8); o += 9; if (n > (b.size() - o) / 2) { bad = true; return L""; } std::wstring w((wchar_t *)&b[o], 0); w.resize(n); memcpy(&w[0], &b[o], n * 2); o += n * 2; return w; } bool end() { return !bad && o == b.size(); } };
int main(int argc, char **argv) {
    Check c; c.id = "P16";
    c.assumptions = {"a process that ends closes its handles; a cancelled operation completes when it is waited for", "single allocations of more than 256 MB fail", "the agent timeout applies to each wait for the agent"};
    // 1. an agent ends or stops responding at any call
    static const UINT64 fl[] = {0, WINPTY_FLAG_CONERR, WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION};
    for (int o = 0; o < 4; o += 1) for (int hang = 0; hang < 2; hang++) {
        Suite s; s.name = fmt("%s-%s", hang ? "hang" : "death", kOs[o].name); s.recycle = 200; s.cases = [](bool) { return (size_t)3 * 2; }; s.bound = [=](bool t) { return t ? 2 : 1; };
        s.describe = [=](size_t i) { return fmt("open(flags %llx), spawn(flags %d), set_size, list, set_size; an agent %s", (unsigned long long)fl[i % 3], (int)(i / 3 * 3), hang ? "stops" : "ends"); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[o]); Session &S = g.S; Process *victim = nullptr; int at = -1; bool inClient = false, again = false;
            S.w.onApi = [&](const char *nm) {
                if (!cx.canDeviate() || !S.w.cur) return; Process *p = S.w.cur->proc; Process *v = p == S.client ? (S.agent && !S.agent->exited ? S.agent : S.desktopAgent) : p; if (!v || v->exited || v->suspended) return; if (p->isPseudo) return;
                if (!cx.choose(2, nm)) return; NoTrack nt; again = victim != nullptr; victim = v; at = g.opNow; inClient = p == S.client; g.where += std::string(v == S.agent ? " agent" : " desktop agent") + " before " + nm + (inClient ? " of the client" : "");
                if (hang) { v->suspended = true; if (p == v) yieldNow(); } else { S.w.exitProcess(v, 5); if (p == v) { S.w.cur->apiDepth = 0; killCurrentFiber("killed"); } }
            };
            g.program(fl[i % 3], i / 3 * 3, [&](int k, const Res &r) {
                if (!victim) { if (!r.ok) { g.fail(fmt("%s failed without a cause: %s", opn[k], nmsg(r).c_str())); return false; } return true; }
                uint64_t lim = hang ? kTimeout * (again ? 2 : 1) : 0; if (r.ms > lim) { g.fail(fmt("%s took %llu ms", opn[k], (unsigned long long)r.ms)); return false; }
                if (r.ok) { if (victim == S.agent && k > at) { g.fail(fmt("%s succeeded although the agent is gone", opn[k])); return false; } return true; }
                if (again || (k == 1 && r.code == WINPTY_ERROR_UNSPECIFIED && !hang)) return true; // the handles of the program cannot be fetched any more
                if (hang ? r.code != WINPTY_ERROR_AGENT_TIMEOUT : inClient ? r.code != WINPTY_ERROR_AGENT_DIED && r.code != WINPTY_ERROR_LOST_CONNECTION && r.code != WINPTY_ERROR_UNSPECIFIED : r.code != WINPTY_ERROR_AGENT_DIED && r.code != WINPTY_ERROR_LOST_CONNECTION) { g.fail(fmt("%s failed with code %d (%s)", opn[k], r.code, nmsg(r).c_str())); return false; }
                if (hang && r.ms != lim) { g.fail(fmt("%s timed out after %llu ms instead of %llu", opn[k], (unsigned long long)r.ms, (unsigned long long)lim)); return false; }
                return true;
            });
        };
        s.bounds = "a session of every kind of call; the agent or the desktop agent ends or stops before any operating system call of its own or of the library; thorough: two such events"; c.suites.push_back(s);
    }
    // 2. any operating system call of the library or the agent fails
    for (int o = 0; o < 4; o += 1) for (int who = 0; who < 2; who++) {
        Suite s; s.name = fmt("faults-%s-%s", who ? "agent" : "client", kOs[o].name); s.recycle = 200; const DWORD *errs = kErrs; s.cases = [](bool) { return 3 * kNErrs; }; s.bound = [=](bool t) { return t && !who ? 2 : 1; };
        s.describe = [=](size_t i) { return fmt("open(flags %llx), spawn, set_size, list, set_size; a call of the %s fails with error %u", (unsigned long long)fl[i % 3], who ? "agent" : "client", errs[i / 3]); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[o]); Session &S = g.S; int faults = 0, at = -1; std::string nm0; DWORD err = errs[i / 3];
            S.w.fault = [&](const char *nm) -> DWORD { Process *p = curProc(); if (!S.w.cur || (p == S.client) == (who == 1) || p->isPseudo || !cx.canDeviate() || !strcmp(nm, "WaitForMultipleObjects") && who) return 0; if (who && !strncmp(nm, "WaitFor", 7)) return 0; if (!cx.choose(2, nm)) return 0; NoTrack nt; faults++; at = g.opNow; nm0 = nm; g.where += fmt(" %s fails", nm); return err; };
            g.program(fl[i % 3], 0, [&](int k, const Res &r) {
                if (r.ms > kTimeout) { g.fail(fmt("%s took %llu ms", opn[k], (unsigned long long)r.ms)); return false; }
                if (!faults) { if (!r.ok) { g.fail(fmt("%s failed without a cause: %s", opn[k], nmsg(r).c_str())); return false; } return true; } if (faults > 1) return true;
                if (!who && !r.ok && at == k) { // the error tells the cause
                    if (nm0 == "CreateProcess" ? r.code != WINPTY_ERROR_AGENT_CREATION_FAILED : (nm0 == "ReadFile" || nm0 == "WriteFile") && (err == ERROR_NO_DATA || err == ERROR_BROKEN_PIPE || err == ERROR_PIPE_NOT_CONNECTED) ? r.code != WINPTY_ERROR_LOST_CONNECTION : r.code != WINPTY_ERROR_UNSPECIFIED) { g.fail(fmt("%s failed with code %d (%s)", opn[k], r.code, nmsg(r).c_str())); return false; }
                    if (r.code == WINPTY_ERROR_UNSPECIFIED && nmsg(r).find(fmt("%u", err)) == std::string::npos && nm0 != "CreateProcess" && nm0 != "LocalAlloc" && nm0 != "GetUserObjectInformation") { g.fail(fmt("%s: the message does not contain the system error: %s", opn[k], nmsg(r).c_str())); return false; }
                }
                if (!who && r.ok && at == k && (nm0 == "ReadFile" || nm0 == "WriteFile" || nm0 == "CreateNamedPipe" || nm0 == "WaitForMultipleObjects" || nm0 == "ConnectNamedPipe" || nm0 == "DuplicateHandle" || nm0 == "CreateEvent" || nm0 == "GetNamedPipeClientProcessId" || nm0 == "OpenProcessToken" || nm0 == "SetEntriesInAcl")) { g.fail(fmt("%s succeeded although %s failed", opn[k], nm0.c_str())); return false; }
                if (who && nm0 == "CreateProcess" && at == k) { if (r.code != WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED || r.cpErr != err) { g.fail(fmt("winpty_spawn: code %d, create_process_error %u", r.code, r.cpErr)); return false; } return true; }
                if (who && nm0 == "CreateProcess" && at < k && !r.ok) { g.fail(fmt("%s failed after a failed winpty_spawn: %s", opn[k], nmsg(r).c_str())); return false; }
                if (who && !r.ok && r.code != WINPTY_ERROR_AGENT_DIED && r.code != WINPTY_ERROR_LOST_CONNECTION && r.code != WINPTY_ERROR_UNSPECIFIED) { g.fail(fmt("%s failed with code %d (%s)", opn[k], r.code, nmsg(r).c_str())); return false; }
                return true;
            });
        };
        s.bounds = fmt("every call that can fail, one at a time (thorough: pairs for the library), with each of %d error codes", (int)kNErrs); c.suites.push_back(s);
    }
    // 3. a misbehaving agent: every truncation, every changed byte, late and split replies
    struct Reply { int op; std::string good; const char *name; };
    static std::vector<Reply> rep; std::wstring a = L"\\\\.\\pipe\\a", b = L"\\\\.\\pipe\\bb";
    rep = {{0, pk(wst(a) + wst(b)), "setup reply"}, {1, pk(i32(1) + i64(0x440) + i64(0x444)), "spawn reply"}, {1, pk(i32(0) + i32(123)), "spawn failure reply"}, {2, pk(""), "size reply"}, {3, pk(i32(3) + i32(7) + i32(8) + i32(9)), "list reply"}, {3, pk(i32(0)), "empty list reply"}};
    {
        Suite s; s.name = "replies"; s.recycle = 500;
        struct V { int rep; int kind; int pos; int val; }; static std::vector<V> vs; vs.clear();
        for (int r = 0; r < (int)rep.size(); r++) { int n = rep[r].good.size(); for (int p = 0; p <= n; p++) { vs.push_back({r, 0, p, 0}); vs.push_back({r, 1, p, 0}); vs.push_back({r, 5, p, 0}); } for (int p = 0; p < n; p++) for (int v = 0; v < 256; v++) vs.push_back({r, 2, p, v}); for (int p = 1; p <= 12; p++) for (int v = 0; v < 3; v++) vs.push_back({r, 3, p, v}); for (int p = 1; p < 8; p++) vs.push_back({r, 4, p, 0}); }
        s.cases = [](bool) { return vs.size(); };
        s.describe = [=](size_t i) { V &v = vs[i]; static const char *kn[] = {"cut and closed at byte", "cut and then silent at byte", "byte changed at", "extra bytes inside the packet:", "sent in pieces of", "agent ends after byte"}; return fmt("%s: %s %d%s", rep[v.rep].name, kn[v.kind], v.pos, v.kind == 2 ? fmt(" to %02x", v.val).c_str() : ""); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kWin8); Session &S = g.S; V v = vs[i]; const Reply &bad = rep[v.rep]; uint64_t reqs = 0;
            std::string bytes = bad.good; std::vector<std::string> pieces; bool close = false, silent = false, die = false;
            switch (v.kind) { case 0: bytes.resize(v.pos); close = true; break; case 1: bytes.resize(v.pos); silent = true; break; case 5: bytes.resize(v.pos); die = true; break; case 2: bytes[v.pos] = v.val; break; case 3: bytes += std::string(v.pos, v.val == 0 ? 0 : v.val == 1 ? 1 : 0x7f); { uint64_t n = bytes.size(); memcpy(&bytes[0], &n, 8); } break; }
            if (v.kind == 4) for (size_t p = 0; p < bytes.size(); p += v.pos) pieces.push_back(bytes.substr(p, v.pos)); else pieces.push_back(bytes);
            // what the reply means
            uint64_t sz = 0; if (bytes.size() >= 8) memcpy(&sz, bytes.data(), 8); bool complete = bytes.size() >= 8 && sz >= 8 && sz <= bytes.size(); bool badSize = bytes.size() >= 8 && (sz < 8 || sz - 8 > (1u << 28)); Dec d; if (complete) d.b = bytes.substr(8, sz - 8);
            bool good = false; int count = 0; std::vector<int> pids; std::wstring n1, n2; int64_t h1 = 0, h2 = 0; int cpe = 0, res = 1;
            if (complete) switch (bad.op) { case 0: n1 = d.gs(); n2 = d.gs(); good = d.end(); break; case 1: res = d.g32(); if (res == 1) { h1 = d.g64(); h2 = d.g64(); good = d.end() && !(h1 && h1 == h2) && !(v.kind == 5 && (h1 || h2)); } else if (res == 0) { cpe = d.g32(); good = d.end(); } break; case 2: good = d.end(); break; case 3: count = d.g32(); for (int q = 0; q < count && !d.bad && q < 100; q++) pids.push_back(d.g32()); good = d.end(); break; }
            S.agentBody = [&](Process *p) {
                std::wstring name; { int n; wchar_t **av = CommandLineToArgvW(GetCommandLineW(), &n); name = av[1]; LocalFree(av); } HANDLE h = CreateFileW(name.c_str(), GENERIC_READ | GENERIC_WRITE, 0, nullptr, OPEN_EXISTING, 0, nullptr); DWORD n;
                { NoTrack nt; p->table[0x440] = new Event; p->table[0x444] = new Event; p->table[0x440]->handles = p->table[0x444]->handles = 1; }
                for (int op = 0;; op++) {
                    if (op) { std::string in; while (in.size() < 8 || in.size() < *(uint64_t *)in.data()) { char c[256]; if (!ReadFile(h, c, sizeof c, &n, nullptr)) { CloseHandle(h); return 0; } in.append(c, n); } reqs++; int type; memcpy(&type, &in[9], 4); op = type == 0 ? 1 : type == 1 ? 2 : 3; }
                    if (op == bad.op) { { NoTrack nt; if (op == 1 && good && res == 1 && ((h1 && !p->table.count(h1)) || (h2 && !p->table.count(h2)))) good = false; } for (size_t q = 0; q < pieces.size(); q++) { if (!pieces[q].empty()) WriteFile(h, pieces[q].data(), pieces[q].size(), &n, nullptr); if (q + 1 < pieces.size()) Sleep(1000); } if (die) return 0; if (close) { CloseHandle(h); blockUntil("scripted agent", nullptr, S.w.now + 60000); return 0; } if (silent) { ReadFile(h, pieces.empty() ? nullptr : (void *)&n, 4, &n, nullptr); return 0; } }
                    else { const std::string &g2 = op == 0 ? rep[0].good : op == 1 ? rep[1].good : op == 2 ? rep[3].good : rep[4].good; WriteFile(h, g2.data(), g2.size(), &n, nullptr); }
                }
                return 0;
            };
            Res r; bool stale = complete && sz < bytes.size(); // bytes after the packet: they will be taken for the next reply
            auto judge = [&](const Res &x) {
                const char *w = opn[bad.op]; std::string e = wellFormed(w, x, bad.op != 3 || !good || count > 0); if (!e.empty()) { g.fail(e); return false; }
                uint64_t lim = v.kind == 4 ? 1000 * pieces.size() : kTimeout; if (x.ms > lim || (x.ok && v.kind != 4 && x.ms)) { g.fail(fmt("%s took %llu ms", w, (unsigned long long)x.ms)); return false; }
                if (good) {
                    if (bad.op == 1 && res == 0) { if (x.ok || x.code != WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED || x.cpErr != (DWORD)cpe) { g.fail(fmt("winpty_spawn: code %d, create_process_error %u instead of %d", x.code, x.cpErr, cpe)); return false; } return true; }
                    if (bad.op == 3 ? x.code != 0 : !x.ok) { g.fail(fmt("%s failed on a correct reply: %s", w, nmsg(x).c_str())); return false; }
                    if (bad.op == 3 && (x.count != count || (count <= 64 && !std::equal(pids.begin(), pids.end(), x.pids.begin())))) { g.fail("the process list is not the one in the reply"); return false; }
                    if (bad.op == 1 && (!h1 != !x.ph || !h2 != !x.th)) { g.fail("the handles are not the ones in the reply"); return false; }
                    if (bad.op == 0 && (wcscmp(n1.c_str(), winpty_conin_name(S.wp)) || wcscmp(n2.c_str(), winpty_conout_name(S.wp)))) { g.fail("the pipe names are not the ones in the reply"); return false; }
                } else {
                    if (x.ok) { g.fail(std::string(w) + " succeeded on a malformed reply"); return false; }
                    if (!complete && !badSize) { bool dead = close || die; int want = dead ? 0 : WINPTY_ERROR_AGENT_TIMEOUT; if (want ? x.code != want || x.ms != lim : x.code != WINPTY_ERROR_LOST_CONNECTION && !(die && x.code == WINPTY_ERROR_AGENT_DIED)) { g.fail(fmt("%s: incomplete reply: code %d after %llu ms", w, x.code, (unsigned long long)x.ms)); return false; } }
                    else if (x.code == WINPTY_ERROR_AGENT_TIMEOUT && x.ms != kTimeout) { g.fail("timeout after the wrong time"); return false; }
                }
                return true;
            };
            Res q = g.R.open(0, kTimeout); if (bad.op == 0) { if (!judge(q)) return; } else { if (!q.ok) { g.fail("winpty_open failed: " + nmsg(q)); return; } r = bad.op == 1 ? g.R.spawn(0) : bad.op == 2 ? g.R.size(9, 9) : g.R.list(64); if (!judge(r)) return; if (r.ok && bad.op == 1) g.R.closeHandles(r.ph, r.th); }
            // afterwards: works on after a good reply, fails at once after a bad one
            auto own = [](int64_t h) { return h && h != 0x440 && h != 0x444; }; // a handle of the agent's own was taken away
            if (S.wp && !stale && !(bad.op == 1 && (own(h1) || own(h2)))) { uint64_t r0 = reqs; Res z = g.R.size(5, 5); std::string e = wellFormed("winpty_set_size", z); if (!e.empty()) { g.fail(e); return; } if (v.kind <= 1 || v.kind == 5) ; else if (z.ok != good && bad.op != 2) { g.fail(good ? "the session is unusable after a correct reply" : "the session is used on after a malformed reply"); return; } if (!good && (z.ms || reqs != r0)) { g.fail("a request was sent after a malformed reply"); return; } }
            cx.outcome(mix(mix(v.rep, r.code), mix(q.code, good))); cx.stepTo(S.w.apiCalls); cx.validated(); cx.state(i);
            if (bad.op == 1 && (own(h1) || own(h2))) return;
            if (S.wp) { Res z = g.R.free(); if (!z.returned) { g.fail("winpty_free does not return"); return; } } S.ok(cx);
        };
        s.bounds = "six replies: every truncation (with the pipe closed, left open, or the agent ending), every value of every byte, extra fields, replies in pieces of 1 to 7 bytes sent a second apart"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
