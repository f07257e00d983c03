// Calls of the libwinpty API with everything an API user can see recorded.
#pragma once
#include "screen.h"
using namespace mc; using namespace sim;
// plausible error codes of failing calls (those that mean that an operation has succeeded or is pending are left out)
static const DWORD kErrs[] = {1, 2, 3, 5, 6, 8, 13, 14, 21, 31, 32, 50, 53, 65, 87, 109, 110, 120, 121, 122, 123, 126, 127, 161, 170, 183, 193, 206, 229, 230, 231, 232, 233, 234, 258, 259, 267, 487, 536, 995, 998, 1008, 1114, 1168, 1223, 1300, 1307, 1314, 1332, 1336, 1338, 1450, 1455, 1460, 1816, 10054, 0x80070005u, 0xffffffffu}; static const size_t kNErrs = sizeof kErrs / sizeof *kErrs;
static const OsCfg kOs[] = {kXp, kWin7, kWin8, kWin10};
struct Res { bool returned = false, ok = false; int code = -1; std::wstring msg; uint64_t ms = 0, allocs = 0; DWORD cpErr = 0; HANDLE ph = nullptr, th = nullptr; int count = 0; std::vector<int> pids; uint64_t apis = 0; bool errNull = true; };
static std::string nmsg(const Res &r) { return narrow(r.msg); }
struct Rpc {
    Session &S; uint64_t limit = 100000; bool wantErr = true;
    explicit Rpc(Session &s) : S(s) {}
    void fetch(Res &r, winpty_error_ptr_t e) { r.errNull = !e; if (wantErr) { r.code = winpty_error_code(e); LPCWSTR m = winpty_error_msg(e); NoTrack nt; for (; m && *m; m++) r.msg += *m; } winpty_error_free(e); }
    template <class F> Res go(F f, int k = 0) { auto r = std::make_shared<Res>(); uint64_t t0 = S.w.now, a0 = S.w.apiCalls; bool b = S.call([this, r, f]() { winpty_error_ptr_t e = (winpty_error_ptr_t)1; f(*r, wantErr ? &e : nullptr); if (!wantErr) e = nullptr; fetch(*r, e); }, limit, k); Res out = *r; out.returned = b; out.ms = S.w.now - t0; out.apis = S.w.apiCalls - a0; return out; }
    Res open(UINT64 flags = 0, DWORD timeout = 5000, int cols = 20, int rows = 5) {
        return go([=](Res &r, winpty_error_ptr_t *e) {
            winpty_error_ptr_t ce = nullptr; winpty_config_t *cfg = winpty_config_new(flags, &ce); if (!cfg) { if (e) *e = ce; else winpty_error_free(ce); return; }
            winpty_config_set_initial_size(cfg, cols, rows); winpty_config_set_agent_timeout(cfg, timeout); S.wp = winpty_open(cfg, e); winpty_config_free(cfg); r.ok = S.wp != nullptr;
        });
    }
    void pipes() { S.conin = S.w.findPipe(winpty_conin_name(S.wp)); S.conout = S.w.findPipe(winpty_conout_name(S.wp)); S.conerr = winpty_conerr_name(S.wp) ? S.w.findPipe(winpty_conerr_name(S.wp)) : nullptr; }
    Res spawn(UINT64 fl = 0, bool wp = true, bool wt = true, LPCWSTR app = nullptr, LPCWSTR cmd = L"cmd.exe", LPCWSTR cwd = nullptr, LPCWSTR env = nullptr, int k = 0) {
        return go([=](Res &r, winpty_error_ptr_t *e) {
            winpty_error_ptr_t ce = nullptr; winpty_spawn_config_t *sc = winpty_spawn_config_new(fl, app, cmd, cwd, env, &ce); if (!sc) { if (e) *e = ce; else winpty_error_free(ce); return; }
            r.ph = r.th = (HANDLE)0x77; r.cpErr = 0x77; r.ok = winpty_spawn(S.wp, sc, wp ? &r.ph : nullptr, wt ? &r.th : nullptr, &r.cpErr, e); winpty_spawn_config_free(sc);
        }, k);
    }
    Res size(int c, int r_, int k = 0) { return go([=](Res &r, winpty_error_ptr_t *e) { r.ok = winpty_set_size(S.wp, c, r_, e); }, k); }
    Res list(int n, int k = 0) { return go([=](Res &r, winpty_error_ptr_t *e) { int v[256]; for (int i = 0; i < 256; i++) v[i] = -77; r.count = winpty_get_console_process_list(S.wp, v, n, e); r.ok = r.count > 0; NoTrack nt; r.pids.assign(v, v + 256); }, k); }
    Res free() { winpty_t *p = S.wp; S.wp = nullptr; return go([=](Res &r, winpty_error_ptr_t *e) { winpty_free(p); r.ok = true; if (e) *e = nullptr; }); }
    Res closeHandles(HANDLE a, HANDLE b) { return go([=](Res &r, winpty_error_ptr_t *e) { if (a) CloseHandle(a); if (b) CloseHandle(b); r.ok = true; if (e) *e = nullptr; }); }
};
// What must hold for every result: an error object exactly on failure, with a documented code and a message.
static std::string wellFormed(const char *what, const Res &r, bool fallible = true) {
    if (!r.returned) return std::string(what) + " does not return";
    if (r.ok && r.code != 0) return fmt("%s succeeded but set error %d", what, r.code);
    if (r.ok && !r.errNull) return std::string(what) + " succeeded but returned an error object";
    if (!r.ok && fallible && (r.code <= 0 || r.code > 8)) return fmt("%s failed with error code %d", what, r.code);
    if (!r.ok && fallible && r.msg.empty()) return std::string(what) + " failed without a message";
    return "";
}
