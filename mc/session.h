// A whole winpty session in the simulated world: a client process that calls
// the real libwinpty API, the real agent, one console, and the harness in the
// place of the terminal (which opens the CONIN/CONOUT/CONERR pipes) and of the
// program that runs in the console.
#pragma once
#include <windows.h>
#include <winpty.h>
#include "mc.h"
#include "sim.h"

int winpty_agent_main();

extern int64_t g_productLive, g_productBytes; extern uint64_t g_productAllocs; extern int64_t g_failAllocAt; extern void *g_watchProc; extern int64_t g_watchLive, g_watchBytes; extern uint64_t g_watchAllocs; extern std::function<bool()> g_watchHook;

namespace mc {

struct OsCfg { int major = 6, minor = 2; bool newConsole = false; int titleMode = 2; const char *name = "win8"; };
static const OsCfg kXp = {5, 1, false, 0, "xp"}, kWin7 = {6, 1, false, 1, "win7"}, kWin8 = {6, 2, false, 2, "win8"}, kWin10 = {10, 0, true, 2, "win10"};

struct Session {
    sim::World w; sim::Process *client = nullptr, *agent = nullptr, *desktopAgent = nullptr; sim::Fiber *agentFiber = nullptr; winpty_t *wp = nullptr;
    sim::Console *con = nullptr; sim::Pipe *conin = nullptr, *conout = nullptr, *conerr = nullptr, *control = nullptr;
    std::string out, err; bool drain = true;
    sim::Process *child = nullptr; std::vector<sim::Process *> children;
    int conW = 80, conH = 25; COORD largest{240, 120};
    struct Worker { sim::Fiber *f = nullptr; std::function<void()> job; bool busy = false; };
    std::vector<std::unique_ptr<Worker>> workers;
    std::function<bool(sim::CreateProcessRec &)> onChild; // decides whether the child can be created
    std::function<void(sim::Console *)> onConsole;        // when the agent's console exists
    std::function<int(sim::Process *)> agentBody;         // a scripted agent instead of the real one
    std::function<void(sim::Process *)> onAgent;          // before the agent process starts running

    explicit Session(const OsCfg &os) {
        w.major = os.major; w.minor = os.minor; w.newConsole = os.newConsole; w.titleMode = os.titleMode;
        client = w.newProcess(L"C:\\client.exe", nullptr);
        w.onCreateProcess = [this](sim::CreateProcessRec &r) { return createProcess(r); };
        addWorker();
    }
    int addWorker() {
        sim::NoTrack nt; workers.emplace_back(new Worker); Worker *wk = workers.back().get();
        wk->f = w.spawn(client, [wk]() {
            for (;;) {
                { sim::ApiScope a("client idle", false); sim::blockUntil("idle", [wk]() { return wk->busy; }); }
                wk->job(); { sim::NoTrack n2; wk->job = nullptr; } wk->busy = false;
            }
        });
        return (int)workers.size() - 1;
    }
    bool createProcess(sim::CreateProcessRec &r) {
        sim::NoTrack nt;
        if (r.cmd.find(L"winpty-agent.exe") != std::wstring::npos && r.creator == client) {
            sim::Process *p = r.proc; p->modulePath = L"C:\\Program Files\\winpty\\winpty-agent.exe";
            if (r.cmd.find(L"--create-desktop") != std::wstring::npos) { desktopAgent = p; }
            else {
                agent = p; con = w.newConsole_(conW, conH); con->largest = largest; p->console = con; con->procs.push_back(p->pid);
                p->stdh[0] = p->add(con->in); p->stdh[1] = p->add(con->primary); p->stdh[2] = p->add(con->primary);
                if (onConsole) onConsole(con);
            }
            p->env = client->env;
            if (onAgent) onAgent(p);
            sim::Fiber *f = w.spawn(p, [this, p]() { if (agentBody) sim::g_track = false; int rc = 3; try { rc = agentBody ? agentBody(p) : ::winpty_agent_main(); } catch (...) { sim::g_track = false; if (!sim::W->fault) sim::W->noteBad("an exception ended the agent"); } sim::g_track = false; sim::W->exitProcess(p, rc); });
            if (p == agent) agentFiber = f;
            return true;
        }
        sim::Process *p = r.proc; p->isPseudo = true;
        if (onChild && !onChild(r)) return false;
        child = p; children.push_back(p);
        return true;
    }
    // Runs everything that can run without the clock advancing.
    void settle() {
        for (int i = 0; i < 1000; i++) {
            bool any = w.runAllIdle();
            if (drain) any |= drainOut();
            if (!any || w.hitLimit) return;
        }
        w.noteBad("the session does not settle");
    }
    bool drainOut() {
        bool any = false;
        if (conout && conout->connected) { std::string s = w.peerRecv(conout); if (!s.empty()) { out += s; any = true; } }
        if (conerr && conerr->connected) { std::string s = w.peerRecv(conerr); if (!s.empty()) { err += s; any = true; } }
        return any;
    }
    // Lets `ms` milliseconds of virtual time pass.
    void run(uint64_t ms) {
        uint64_t end = w.now + ms; settle();
        while (!w.hitLimit) { uint64_t d = w.nextDeadline(); if (d > end) break; w.advanceTo(d); settle(); }
        w.advanceTo(end); settle();
    }
    void poll(int n = 1) { for (int i = 0; i < n; i++) run(25); }
    bool start(int k, std::function<void()> job) { sim::NoTrack nt; Worker *wk = workers[k].get(); if (wk->busy) return false; wk->job = std::move(job); wk->busy = true; return true; }
    // Calls into the library from the client process; false if the call did not return within `limit` ms.
    bool call(std::function<void()> job, uint64_t limit = 200000, int k = 0) {
        if (!start(k, std::move(job))) return false;
        uint64_t end = w.now + limit; settle();
        while (workers[k]->busy && !w.hitLimit) { uint64_t d = w.nextDeadline(); if (d > end) return false; w.advanceTo(d); settle(); }
        return !workers[k]->busy;
    }
    sim::Pipe *pipeNamed(LPCWSTR n) { return n ? w.findPipe(n) : nullptr; }
    bool open(UINT64 flags = 0, int cols = 80, int rows = 25, int mouse = WINPTY_MOUSE_MODE_NONE, DWORD timeout = 0) {
        std::wstring a, b, c; bool hasErr = false;
        bool ret = call([&, this]() {
            winpty_config_t *cfg = winpty_config_new(flags, nullptr); if (!cfg) return;
            winpty_config_set_initial_size(cfg, cols, rows); winpty_config_set_mouse_mode(cfg, mouse); if (timeout) winpty_config_set_agent_timeout(cfg, timeout);
            wp = winpty_open(cfg, nullptr); winpty_config_free(cfg); if (!wp) return;
            sim::NoTrack nt; a = winpty_conin_name(wp); b = winpty_conout_name(wp); if (winpty_conerr_name(wp)) { hasErr = true; c = winpty_conerr_name(wp); }
        });
        if (!ret || !wp) return false;
        conin = w.findPipe(a); conout = w.findPipe(b); conerr = hasErr ? w.findPipe(c) : nullptr; control = w.findPipePrefix(L"\\\\.\\pipe\\winpty-control-", w.pipes.size() > 4 ? 1 : 0);
        return conin && conout;
    }
    void connect() { w.peerConnect(conin, client->pid); w.peerConnect(conout, client->pid); if (conerr) w.peerConnect(conerr, client->pid); settle(); }
    void send(const std::string &bytes) { w.peerSend(conin, bytes); settle(); }
    BOOL spawn(UINT64 sflags, bool wantProc = false, HANDLE *ph = nullptr, HANDLE *th = nullptr, LPCWSTR cmd = L"cmd.exe") {
        BOOL ok = FALSE; HANDLE hp = nullptr; (void)wantProc;
        bool r = call([&, this]() { winpty_spawn_config_t *sc = winpty_spawn_config_new(sflags, nullptr, cmd, nullptr, nullptr, nullptr); ok = winpty_spawn(wp, sc, ph ? ph : &hp, th, nullptr, nullptr); winpty_spawn_config_free(sc); });
        return r && ok;
    }
    bool setSize(int c, int r) { BOOL ok = FALSE; return call([&, this]() { ok = winpty_set_size(wp, c, r, nullptr); }) && ok; }
    void exitChild(DWORD code = 0) { if (child) w.exitProcess(child, code); }
    bool agentAlive() { return agent && !agent->exited; }
    bool ok(Ctx &cx) { if (!w.bad.empty()) { cx.fail("discipline: " + w.bad[0], "discipline:" + w.bad[0]); return false; } return true; }
};
} // namespace mc
