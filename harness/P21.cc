// The console process list: exactly the processes attached to the console, for
// every number of processes, every array size, and while the list changes.
#include "rpc.h"
static Res listN(Rpc &R, int n, int cap = 4096) {
    return R.go([=](Res &r, winpty_error_ptr_t *e) { NoTrack *nt = new NoTrack; std::vector<int> v(cap, -77); delete nt; r.count = winpty_get_console_process_list(R.S.wp, v.data(), n, e); r.ok = r.count > 0; NoTrack n2; r.pids = v; });
}
// What is wrong with the answer, given the processes attached (in the console's order)?
static std::string judge(const Res &r, int n, const std::vector<DWORD> &want) {
    std::string m = wellFormed("winpty_get_console_process_list", r); if (!m.empty()) return m; if (!r.ok) return "winpty_get_console_process_list failed: " + nmsg(r);
    if (r.count != (int)want.size()) return fmt("winpty_get_console_process_list returned %d with %d processes attached", r.count, (int)want.size());
    for (size_t k = n < 0 ? 0 : n; k < r.pids.size(); k++) if (r.pids[k] != -77) return fmt("element %d of an array of %d was written", (int)k, n);
    if (r.count > n) return ""; std::vector<DWORD> got; for (int k = 0; k < r.count; k++) got.push_back((DWORD)r.pids[k]); std::vector<DWORD> a = got, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    for (size_t k = 0; k < a.size(); k++) if (a[k] != b[k]) return fmt("the list has process %u where %u is attached", a[k], b[k]); for (size_t k = r.count; k < (size_t)std::max(n, 0); k++) if (r.pids[k] != -77) return fmt("element %d was written, the list has %d", (int)k, r.count); return "";
}
struct Rig {
    Ctx &cx; Session S; Rpc R; Rig(Ctx &c, const OsCfg &os) : cx(c), S(os), R(S) {}
    ~Rig() { S.w.processList = nullptr; }
    bool bad(const std::string &m) { cx.fail(m); return false; }
    bool up(UINT64 fl = 0) { if (!S.open(fl, 20, 5)) return bad("winpty_open failed"); S.connect(); S.poll(2); return true; }
    // the session still works
    bool usable() { Res r = R.size(21, 6); if (!r.ok) return bad("winpty_set_size failed afterwards: " + nmsg(r)); size_t o = S.out.size(); S.con->writeText(S.con->primary, L"~"); S.poll(2); if (S.out.find('~', o) == std::string::npos) return bad("no more output afterwards"); return true; }
};
static const int kN[] = {1, 2, 3, 62, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 1000, 2100, 4000};
int main(int argc, char **argv) {
    Check c; c.id = "P21"; c.assumptions = {"GetConsoleProcessList stores nothing and returns the number needed when the array is too small"};
    {   // how many processes, how large an array
        Suite s; s.name = "sizes"; s.recycle = 400; s.cases = [](bool) { return (size_t)(sizeof kN / sizeof *kN) * 12 * 4; };
        auto cap = [](size_t i) { int n = kN[i / 4 % (sizeof kN / sizeof *kN)]; int j = i / 4 / (sizeof kN / sizeof *kN); int v[] = {n, n - 1, n + 1, 0, 1, 2, 63, 64, 65, 128, 4096, n / 2}; return v[j]; };
        s.describe = [=](size_t i) { return fmt("%d processes, array of %d, %s", kN[i / 4 % (sizeof kN / sizeof *kN)], cap(i), kOs[i % 4].name); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[i % 4]); if (!g.up()) return; int n = kN[i / 4 % (sizeof kN / sizeof *kN)]; auto &pr = g.S.con->procs; while ((int)pr.size() < n) pr.push_back(pr.size() % 7 == 3 ? 0x80000000u + 4 * pr.size() : pr.size() % 5 == 2 ? 0xfffffff0u - 4 * pr.size() : 1000 + 4 * pr.size());
            std::vector<DWORD> want(pr.begin(), pr.end()); for (int k = 0; k < 3; k++) { std::string m = judge(listN(g.R, k == 1 ? 4096 : cap(i)), k == 1 ? 4096 : cap(i), want); if (!m.empty()) { g.bad(m); return; } cx.validated(); } if (!g.usable()) return; std::string m = judge(listN(g.R, 4096), 4096, want); if (!m.empty()) { g.bad("afterwards, " + m); return; }
            cx.state(i); cx.stepTo(g.S.w.apiCalls); g.S.ok(cx);
        };
        s.bounds = "1 to 4000 processes around every size boundary x twelve array sizes"; c.suites.push_back(s);
    }
    for (int o : {0, 3}) {   // the list changes between the reads of one request
        Suite s; s.name = fmt("changing-%s", kOs[o].name); s.recycle = 400; static const int start[] = {1, 63, 64, 65, 128, 129}; s.cases = [](bool) { return (size_t)6 * 3; }; s.bound = [](bool t) { return t ? 4 : 3; };
        s.describe = [=](size_t i) { return fmt("%d processes at first, array of %s", start[i % 6], i / 6 == 0 ? "4096" : i / 6 == 1 ? "64" : "129"); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[o]); if (!g.up()) return; int cap = i / 6 == 0 ? 4096 : i / 6 == 1 ? 64 : 129; static const int to[] = {0, 1, 2, 63, 64, 65, 127, 128, 129, 256, 257, 600}; auto &pr = g.S.con->procs; int serial = 0; auto fill = [&](size_t n) { while (pr.size() > n) pr.erase(pr.begin() + 1 % pr.size()); while (pr.size() < n) pr.push_back(5000 + 4 * serial++); }; fill(start[i % 6]);
            std::vector<std::vector<DWORD>> seen; int reads = 0; bool armed = true;
            g.S.w.processList = [&](DWORD *a, DWORD n) -> DWORD { NoTrack nt; seen.push_back(std::vector<DWORD>(pr.begin(), pr.end())); DWORD cnt = pr.size(); if (a && n >= cnt) for (DWORD k = 0; k < cnt; k++) a[k] = pr[cnt - 1 - k]; if (++reads > 200) g.S.w.noteBad("the process list is read more than 200 times"); 
                if (armed && cx.canDeviate()) { int k = cx.choose(12, "process list"); if (k) { cx.note += fmt(", then %d", to[k]); fill(to[k]); serial++; } } return cnt; };
            for (int q = 0; q < 2; q++) {
                seen.clear(); Res r = listN(g.R, cap); if (seen.empty()) { g.bad("the process list was not read"); return; } std::string m; bool any = false; for (auto &w : seen) { std::string t = judge(r, cap, w); if (t.empty()) any = true; else m = t; } if (!any) { g.bad(m); return; } cx.validated(); if (seen.size() > 64) { g.bad(fmt("%d reads for one request", (int)seen.size())); return; }
            }
            armed = false; if (!g.usable()) return; Res r = listN(g.R, 4096); std::string m = judge(r, 4096, std::vector<DWORD>(pr.begin(), pr.end())); if (!m.empty()) { g.bad("afterwards, " + m); return; } cx.state(hash(cx.note)); cx.outcome(r.count); cx.stepTo(g.S.w.apiCalls); g.S.ok(cx);
        };
        s.bounds = "the list changing to any of eleven lengths after any read, up to three (thorough: four) times"; c.suites.push_back(s);
    }
    {   // the list grows again and again while it is being read
        Suite s; s.name = "growing"; s.recycle = 400; static const int step[] = {1, 2, 7, 16, 17, 33, 63, 64, 65, 100, 129, 500, -2, -3}; static const int caps[] = {64, 1000, 4096}; s.cases = [](bool t) { return (size_t)14 * (t ? 40 : 12) * 3 * 3; };
        s.describe = [=](size_t i) { return fmt("%d processes at first, %s at each of %d reads, array of %d", i / 14 % 3 ? i / 14 % 3 == 1 ? 64 : 65 : 2, step[i % 14] > 0 ? fmt("%d more", step[i % 14]).c_str() : fmt("%d times as many", -step[i % 14]).c_str(), (int)(i / 126) + 1, caps[i / 42 % 3]); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); int rounds = i / 126 + 1, st = step[i % 14], cap = caps[i / 42 % 3]; Rig g(cx, kOs[i % 4]); if (!g.up()) return; auto &pr = g.S.con->procs; int serial = 0; auto fill = [&](size_t n) { while (pr.size() < n) pr.push_back(5000 + 4 * serial++); }; fill(i / 14 % 3 ? i / 14 % 3 == 1 ? 64 : 65 : 2);
            std::vector<DWORD> last; int reads = 0; g.S.w.processList = [&](DWORD *a, DWORD n) -> DWORD { NoTrack nt; last.assign(pr.begin(), pr.end()); DWORD cnt = pr.size(); if (a && n >= cnt) for (DWORD k = 0; k < cnt; k++) a[k] = pr[cnt - 1 - k]; if (reads++ < rounds && cnt * (st < 0 ? -st : 1) < 4000) fill(st > 0 ? cnt + st : cnt * -st); if (reads > 200) g.S.w.noteBad("the process list is read more than 200 times"); return cnt; };
            for (int q = 0; q < 2; q++) { Res r = listN(g.R, cap); std::string m = judge(r, cap, last); if (!m.empty()) { g.bad(m); return; } cx.validated(); }
            if (!g.usable()) return; cx.state(i); cx.stepTo(g.S.w.apiCalls); g.S.ok(cx);
        };
        s.bounds = "lists growing by a constant or by a factor at each of up to 12 (thorough: 40) successive reads"; c.suites.push_back(s);
    }
    {   // the processes of a session: histories of programs starting and ending, requests in between
        Suite s; s.name = "histories"; s.recycle = 400; s.cases = [](bool t) { size_t n = 1; for (int k = 0; k < (t ? 6 : 5); k++) n *= 6; return n * 2; };
        auto ops = [](size_t i) { size_t n = i / 2; std::vector<int> v; size_t t = n; for (int k = 0; k < 6; k++) { v.push_back(t % 6); t /= 6; } return v; };
        static const char *nm[] = {"list", "list(1)", "program starts", "program ends", "resize", "output"};
        s.describe = [=](size_t i) { std::string t = i % 2 ? "with CONERR:" : ""; for (int v : ops(i)) t += std::string(" ") + nm[v] + ","; return t + " list"; };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[1 + i % 3]); if (!g.up(i % 2 ? WINPTY_FLAG_CONERR : 0)) return; Session &S = g.S; std::vector<DWORD> live; g.R.spawn(0); if (!S.child) { g.bad("no program"); return; } if (std::find(S.con->procs.begin(), S.con->procs.end(), S.child->pid) == S.con->procs.end()) S.con->procs.push_back(S.child->pid); live.push_back(S.child->pid); DWORD next = 9000; int lines = 0; auto v = ops(i); v.push_back(0);
            for (int o : v) {
                if (o <= 1) { int n = o ? 1 : 64; std::string m = judge(listN(g.R, n), n, std::vector<DWORD>(S.con->procs.begin(), S.con->procs.end())); if (!m.empty()) { g.bad(m); return; } if (std::find(S.con->procs.begin(), S.con->procs.end(), S.agent->pid) == S.con->procs.end()) { g.bad("the agent is not attached to its console"); return; } cx.validated(); }
                else if (o == 2) { S.con->procs.push_back(next += 4); live.push_back(next); } else if (o == 3) { if (live.size() > 1) { S.con->procs.erase(std::find(S.con->procs.begin(), S.con->procs.end(), live.back())); live.pop_back(); } } else if (o == 4) { Res r = g.R.size(20 + lines, 5 + lines); if (!r.ok) { g.bad("winpty_set_size failed"); return; } lines++; } else { S.con->writeText(S.con->primary, L"x\r\n"); S.poll(1); }
            }
            cx.state(i); cx.stepTo(S.w.apiCalls); S.ok(cx);
        };
        s.bounds = "all sequences of five (thorough: six) events over six kinds"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
