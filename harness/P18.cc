// Nobody but the user's own agent and client can take part in a session.
#include "rpc.h"
#include <set>
static const UINT64 fl[] = {0, WINPTY_FLAG_CONERR, WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION};
// every pipe that exists, whatever has happened
static std::string checkPipe(const Session &S, const Pipe &p, std::set<std::string> owners) {
    std::string n = narrow(p.name), pre = "\\\\.\\pipe\\winpty-"; if (n.compare(0, pre.size(), pre)) return "an unexpected pipe name: " + n;
    if (!p.hasSd || p.nullDacl) return n + " has no access control list";
    std::set<std::string> got(p.aceSid.begin(), p.aceSid.end()), want = {"S-1-5-18", "S-1-5-32-544"}; bool owner = false; for (auto &g : got) { if (owners.count(g)) owner = true; else if (!want.count(g)) return n + " grants access to " + g; } if (!owner) return n + " does not grant access to the user"; for (auto &w : want) if (!got.count(w)) return n + " does not grant access to " + w;
    if (!(p.openMode & FILE_FLAG_FIRST_PIPE_INSTANCE)) return n + " could be created by somebody else first"; if (p.maxInst != 1) return n + " allows more than one instance";
    if (S.w.major >= 6 && !(p.pipeMode & 8)) return n + " accepts remote clients"; if (S.w.major < 6 && p.pipeMode & 8) return n + " has a flag that this Windows version rejects"; if (p.pipeMode & 4) return n + " is a message pipe";
    DWORD dir = p.openMode & 3, wantDir = n.find("conin") != n.npos ? PIPE_ACCESS_INBOUND : n.find("conout") != n.npos || n.find("conerr") != n.npos ? PIPE_ACCESS_OUTBOUND : PIPE_ACCESS_DUPLEX; if (dir != wantDir) return fmt("%s has direction %u", n.c_str(), dir);
    return "";
}
static std::string checkAll(const Session &S, std::set<std::string> owners = {"S-1-5-21-777-1001"}) { std::set<std::wstring> names; for (auto &p : S.w.pipes) { std::string e = checkPipe(S, *p, owners); if (!e.empty()) return e; std::wstring l; for (wchar_t c : p->name) l += c >= 'A' && c <= 'Z' ? c + 32 : c; if (!names.insert(l).second) return "two pipes are called " + narrow(p->name); } return ""; }
// a name without the short decimal numbers in it (the counter of pipes created so far)
static std::wstring noCounter(const std::wstring &n) { std::wstring r, t; auto put = [&]() { bool num = !t.empty() && t.size() <= 8; for (wchar_t c : t) num &= c >= '0' && c <= '9'; r += num ? std::wstring(L"N") : t; t.clear(); }; for (wchar_t c : n) if (c == '-') { put(); r += c; } else t += c; put(); return r; }
static std::string checkAgentConn(const Session &S) { for (auto &p : S.w.pipes) if (p->cli && p->clientPid && S.client && p->clientPid != S.client->pid && !p->virtualPeer) { DWORD f = p->cliFlags; if (!(f & SECURITY_SQOS_PRESENT) || (f & 0x30000) > SECURITY_IDENTIFICATION) return "the agent lets the pipe server impersonate it on " + narrow(p->name); } return ""; }
int main(int argc, char **argv) {
    Check c; c.id = "P18";
    c.assumptions = {"the system enforces access control lists, the single-instance and the reject-remote flags", "before Windows Vista a pipe's client process cannot be told, so an intruder is not detected there", "the random number generator is unpredictable when it works"};
    {   // all configurations and identities
        Suite s; s.name = "acl"; s.recycle = 200; s.cases = [](bool) { return (size_t)4 * 3 * 4 * 3; }; static const char *idn[] = {"user", "owner is Administrators", "client thread impersonates", "agent thread impersonates"}; static const char *rn[] = {"random numbers", "CryptoAPI only", "no random numbers"};
        s.describe = [=](size_t i) { return fmt("%s, flags %llx, %s, %s", kOs[i % 4].name, (unsigned long long)fl[i / 4 % 3], idn[i / 12 % 4], rn[i / 48]); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Session S(kOs[i % 4]); Rpc R(S); int id = i / 12 % 4, rm = i / 48; S.w.haveRtlGenRandom = rm == 0; if (rm == 2) S.w.fault = [](const char *n) -> DWORD { return !strncmp(n, "Crypt", 5) ? 5 : 0; };
            S.w.adminOwner = id == 1; if (id == 2) S.w.impersonating = S.client; S.onAgent = [&](Process *p) { if (id == 3) S.w.impersonating = p; };
            Res r = R.open(fl[i / 4 % 3]); if (!r.ok) { cx.fail("winpty_open failed: " + nmsg(r)); return; } R.pipes(); std::set<std::string> ow = {"S-1-5-21-777-1001"};
            for (auto &p : S.w.pipes) { bool ctl = p->name.find(L"control") != std::wstring::npos; std::set<std::string> o = id == 1 ? std::set<std::string>{"S-1-5-32-544"} : id == 2 && ctl ? std::set<std::string>{"S-1-5-21-777-1777"} : id == 3 && !ctl ? std::set<std::string>{"S-1-5-21-777-1777"} : ow; std::string e = checkPipe(S, *p, o); if (!e.empty()) { cx.fail(e); return; } }
            std::string e = checkAgentConn(S); if (!e.empty()) { cx.fail(e); return; } size_t want = 1 + 2 + (fl[i / 4 % 3] & 1) + (i % 4 == 0 && !(fl[i / 4 % 3] & 8)); if (S.w.pipes.size() != want) { cx.fail(fmt("%d pipes", (int)S.w.pipes.size())); return; }
            R.spawn(); if (S.w.pipes.size() != want) cx.fail("spawning created a pipe"); cx.state(i); cx.validated(); cx.stepTo(S.w.apiCalls); R.free(); S.run(500); S.ok(cx);
        };
        s.bounds = "4 Windows versions x 3 flag sets x 4 identities x 3 states of the random number generator"; c.suites.push_back(s);
    }
    // an intruder is first at the control pipe
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = fmt("intruder-%s", kOs[o].name); s.recycle = 300; s.cases = [](bool) { return (size_t)3 * 3; }; s.bound = [](bool t) { return t ? 3 : 2; };
        s.describe = [=](size_t i) { static const char *w[] = {"stays silent", "sends a setup reply", "disconnects"}; return fmt("open(flags %llx); somebody else connects first to a control pipe and %s", (unsigned long long)fl[i % 3], w[i / 3]); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Session S(kOs[o]); Rpc R(S); S.w.cancelPolicy = [](Io *) { return 1; }; S.w.haveClientPidApi = kOs[o].major >= 6; std::vector<Pipe *> taken; int mode = i / 3;
            S.w.onApi = [&](const char *nm) {
                if (!cx.canDeviate() || !S.w.cur) return; NoTrack nt; Pipe *t = nullptr; for (auto &p : S.w.pipes) if (p->name.find(L"control") != std::wstring::npos && !p->connected && !p->everConnected && !p->srvClosed) t = p.get(); if (!t || !cx.choose(2, nm)) return;
                S.w.peerConnect(t, 4242); taken.push_back(t); if (mode == 1) { std::string b; auto ws = [&](const wchar_t *w) { b += '\2'; uint64_t n = wcslen(w); b.append((char *)&n, 8); b.append((char *)w, n * 2); }; ws(L"\\\\.\\pipe\\evil-in"); ws(L"\\\\.\\pipe\\evil-out"); if (fl[i % 3] & 1) ws(L"\\\\.\\pipe\\evil-err"); uint64_t n = b.size() + 8; std::string q((char *)&n, 8); S.w.peerSend(t, q + b); } if (mode == 2) S.w.peerClose(t);
            };
            Res r = R.open(fl[i % 3], 3000); std::string e = wellFormed("winpty_open", r); if (!e.empty()) { cx.fail(e); return; }
            if (taken.empty()) { if (!r.ok) { cx.fail("winpty_open failed without a cause: " + nmsg(r)); return; } } else if (S.w.haveClientPidApi) {
                if (r.ok) { cx.fail("winpty_open accepts a stranger in place of the agent"); return; } if (r.code != WINPTY_ERROR_UNSPECIFIED && mode != 2 && r.code != WINPTY_ERROR_AGENT_DIED) { cx.fail(fmt("winpty_open: code %d (%s)", r.code, nmsg(r).c_str())); return; } for (Pipe *t : taken) if (!t->everWritten[1].empty()) { cx.fail("something was sent to the stranger"); return; }
            }
            if ((e = checkAll(S)).size()) { cx.fail(e); return; } if (r.ok) { if (!taken.empty()) { S.wp = nullptr; } else R.free(); } S.run(4000); cx.outcome(mix(r.code, taken.size())); cx.stepTo(S.w.apiCalls); cx.validated(); cx.state(mix(i, taken.empty() ? 0 : hash(narrow(taken[0]->name))));
            if (S.w.haveClientPidApi) for (Process *p : {S.agent, S.desktopAgent}) if (p && !p->exited) { cx.fail("an agent is left running"); return; } if (S.w.haveClientPidApi) S.ok(cx);
        };
        s.bounds = "at every operating system call of library and agents while a control pipe is listening (thorough: twice)"; c.suites.push_back(s);
    }
    {   // somebody else already owns a pipe of that name
        Suite s; s.name = "squat"; s.cases = [](bool) { return (size_t)4 * 3 * 5; }; s.describe = [=](size_t i) { return fmt("%s, flags %llx, pipe %d already exists", kOs[i % 4].name, (unsigned long long)fl[i / 4 % 3], (int)(i / 12)); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Session S(kOs[i % 4]); Rpc R(S); S.w.cancelPolicy = [](Io *) { return 1; }; int n = 0, k = i / 12; bool hit = false; S.w.squatted = [&](const std::wstring &) { if (n++ == k) { hit = true; return true; } return false; }; Res r = R.open(fl[i / 4 % 3], 3000); std::string e = wellFormed("winpty_open", r); if (!e.empty()) { cx.fail(e); return; } if (r.ok == hit) { cx.fail(hit ? "the session uses a pipe that somebody else has created" : "winpty_open failed without a cause"); return; }
            if ((e = checkAll(S)).size()) { cx.fail(e); return; } if (r.ok) R.free(); S.run(4000); for (Process *p : {S.agent, S.desktopAgent}) if (p && !p->exited) { cx.fail("an agent is left running"); return; } cx.state(i); cx.validated(); cx.stepTo(S.w.apiCalls); S.ok(cx);
        };
        s.bounds = "each pipe of each configuration"; c.suites.push_back(s);
    }
    // no failure leads to a pipe without protection
    for (int all = 0; all < 2; all++) for (int o = 0; o < 4; o++) {
        static const DWORD few[] = {5, 8, ERROR_NO_TOKEN}; const DWORD *errs = all ? kErrs : few; size_t ne = all ? kNErrs : 3;
        Suite s; s.name = fmt("%s-%s", all ? "codes" : "faults", kOs[o].name); s.recycle = 300; s.cases = [=](bool) { return (size_t)3 * ne; }; s.bound = [=](bool t) { return (t ? 3 : 2) - all; };
        s.describe = [=](size_t i) { return fmt("open(flags %llx) with calls failing with error %u", (unsigned long long)fl[i % 3], errs[i / 3]); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Session S(kOs[o]); Rpc R(S); S.w.cancelPolicy = [](Io *) { return 1; }; std::string what; bool check = false; S.w.fault = [&](const char *nm) -> DWORD { if (!S.w.cur || curProc()->isPseudo || !cx.canDeviate() || !strncmp(nm, "WaitFor", 7)) return 0; if (!cx.choose(2, nm)) return 0; NoTrack nt; what += std::string(" ") + nm; if (!strcmp(nm, "GetNamedPipeClientProcessId")) check = true; return errs[i / 3]; };
            Res r = R.open(fl[i % 3], 3000); cx.note += what.empty() ? "" : " (fails:" + what + ")"; std::string e = wellFormed("winpty_open", r); if (!e.empty()) { cx.fail(e); return; } if (r.ok && check) { cx.fail("winpty_open succeeded although it could not tell who its agent is"); return; } if ((e = checkAll(S)).size() || (e = checkAgentConn(S)).size()) { cx.fail(e); return; }
            S.w.fault = nullptr; if (r.ok) R.free(); S.run(4000); for (Process *p : {S.agent, S.desktopAgent}) if (p && !p->exited) { cx.fail("an agent is left running"); return; } cx.outcome(r.code); cx.validated(); cx.stepTo(S.w.apiCalls); cx.state(hash(what)); S.ok(cx);
        };
        s.bounds = all ? fmt("every system call of library and agents, one at a time (thorough: in pairs), with each of %d error codes", (int)ne) : "every system call of library and agents, in pairs (thorough: triples), with three error codes"; c.suites.push_back(s);
    }
    {   // each bit of at least 128 random bits is in the names
        Suite s; s.name = "random"; s.recycle = 100; s.cases = [](bool) { return (size_t)4 * 3 * 2; }; s.describe = [=](size_t i) { return fmt("%s, flags %llx, %s", kOs[i % 4].name, (unsigned long long)fl[i / 4 % 3], i / 12 ? "CryptoAPI" : "RtlGenRandom"); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); std::vector<std::wstring> base; size_t total = 0;
            auto run1 = [&](long bit) { Session S(kOs[i % 4]); Rpc R(S); S.w.haveRtlGenRandom = i < 12; long n = 0; S.w.onRandom = [&]() -> BYTE { long k = n++; return k == bit / 8 ? 1 << (bit % 8) : 0; }; if (bit < 0) S.w.onRandom = [&]() -> BYTE { n++; return 0; }; std::vector<std::wstring> v; Res r = R.open(fl[i / 4 % 3]); if (!r.ok) { cx.fail("winpty_open failed"); return v; } for (auto &p : S.w.pipes) v.push_back(noCounter(p->name)); if (bit < 0) total = n; R.free(); S.run(100); cx.stepTo(S.w.apiCalls); return v; };
            base = run1(-1); if (cx.failed()) return; std::vector<int> bits(base.size()); for (size_t b = 0; b < total * 8; b++) { auto v = run1(b); if (v.size() != base.size()) { cx.fail("another number of pipes"); return; } for (size_t q = 0; q < v.size(); q++) bits[q] += v[q] != base[q]; cx.state(mix(i, b)); } cx.validated();
            for (size_t q = 0; q < bits.size(); q++) if (bits[q] < 128) { cx.fail(fmt("only %d random bits are in the name %s", bits[q], narrow(base[q]).c_str())); return; }
        };
        s.bounds = "each bit delivered by the random number generator flipped in turn"; c.suites.push_back(s);
    }
    {   // names never collide, not even without random numbers and with a stopped clock
        Suite s; s.name = "unique"; s.cases = [](bool) { return (size_t)4 * 2 * 2 * 3; }; s.describe = [=](size_t i) { return fmt("%s: 6 sessions, %s, %s, flags %llx", kOs[i % 4].name, i / 4 % 2 ? "no random numbers" : "constant random numbers", i / 8 % 2 ? "freed in between" : "open together", (unsigned long long)fl[i / 16]); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Session S(kOs[i % 4]); Rpc R(S); bool none = i / 4 % 2; S.w.onRandom = [&]() -> BYTE { return 0; }; S.w.fault = [none](const char *n) -> DWORD { return none && (!strcmp(n, "RtlGenRandom") || !strncmp(n, "Crypt", 5)) ? 5 : 0; }; std::vector<winpty_t *> all;
            for (int k = 0; k < 6; k++) { S.w.randSeed = 1; Res r = R.open(fl[i / 16]); if (!r.ok) { cx.fail("winpty_open failed: " + nmsg(r)); return; } std::string e = checkAll(S); if (e.size()) { cx.fail(e); return; } if (i / 8 % 2) R.free(); else all.push_back(S.wp); }
            for (auto *p : all) { S.wp = p; R.free(); } S.run(500); cx.state(i); cx.validated(); cx.stepTo(S.w.apiCalls); S.ok(cx);
        };
        s.bounds = "six sessions of one process in one instant of time"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
