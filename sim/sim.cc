#include "sim.h"
#include <wincrypt.h>
#include <aclapi.h>
#include <stdio.h>
#include <stdlib.h>
#include <new>
#include <algorithm>
#include <exception>
#include <sys/mman.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#define SIM_ASAN 1
#endif

extern "C" void *__cxa_get_globals() noexcept;

namespace sim {

World *W;
thread_local bool g_track = false;
int (*agentMain)();

// ---------------------------------------------------------------- fibers
extern "C" void sim_switch(void **from, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

static void *g_mainSp;
static void *g_mainFake;
static const void *g_mainBottom; static size_t g_mainSize;
static std::vector<char *> g_stackPool;
static const size_t kStack = 512 * 1024;
static Fiber *g_starting;

static void switchToMain(Fiber *f, bool dying) {
    void *eh[2]; void **g = (void **)__cxa_get_globals();
    memcpy(eh, g, sizeof eh); memcpy(f->eh, eh, sizeof eh); memset(g, 0, sizeof eh);
#ifdef SIM_ASAN
    __sanitizer_start_switch_fiber(dying ? nullptr : &f->fakeStack, g_mainBottom, g_mainSize);
#endif
    sim_switch(&f->sp, g_mainSp);
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(f->fakeStack, &g_mainBottom, &g_mainSize);
#endif
    memcpy(__cxa_get_globals(), f->eh, sizeof f->eh);
}

static void fiberEntry() {
    Fiber *f = g_starting;
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &g_mainBottom, &g_mainSize);
#endif
    try {
        f->body();
        f->exitWhy = "returned";
    } catch (...) {
        W->noteBad("uncaught C++ exception left a thread's entry function");
        f->exitWhy = "exception";
    }
    g_track = false;
    f->done = true; if (f->thread) f->thread->exited = true;
    switchToMain(f, true);
    __builtin_trap();
}

void World::run(Fiber *f) {
    if (f->done) return;
    Fiber *prev = cur; cur = f; f->blocked = false; f->pred = nullptr; f->deadline = ~0ull;
    bool savedTrack = g_track;
    if (!f->started) {
        f->started = true;
        char *st;
        if (!g_stackPool.empty()) { st = g_stackPool.back(); g_stackPool.pop_back(); }
        else st = (char *)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
#ifdef SIM_ASAN
        __asan_unpoison_memory_region(st, kStack);
#endif
        f->stack = st; f->stackSize = kStack;
        void **sp = (void **)(st + kStack - 64);
        sp = (void **)((uintptr_t)sp & ~(uintptr_t)15);
        *--sp = nullptr;                 // alignment / fake return address
        *--sp = (void *)fiberEntry;
        for (int i = 0; i < 6; i++) *--sp = nullptr;
        f->sp = sp;
        g_starting = f;
    }
    g_track = f->tracking;
    void *eh[2]; memcpy(eh, __cxa_get_globals(), sizeof eh);
    memcpy(__cxa_get_globals(), f->eh, sizeof eh);
#ifdef SIM_ASAN
    __sanitizer_start_switch_fiber(&g_mainFake, f->stack, f->stackSize);
#endif
    sim_switch(&g_mainSp, f->sp);
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(g_mainFake, nullptr, nullptr);
#endif
    memcpy(__cxa_get_globals(), eh, sizeof eh);
    f->tracking = false; // re-entered inside an API scope, which restores it
    g_track = savedTrack; cur = prev;
}

bool World::enabled(Fiber *f) {
    if (f->done || f->proc->suspended) return false;
    if (!f->blocked) return true;
    if (f->deadline <= now) return true;
    return f->pred && f->pred();
}

bool World::runAllIdle() {
    bool any = false, again = true;
    if (pick) {
        for (;;) { std::vector<Fiber *> en; for (auto &f : fibers) if (enabled(f.get())) en.push_back(f.get()); if (en.empty()) return any; run(en.size() == 1 ? en[0] : pick(en)); any = true; if (hitLimit) return any; }
    }
    while (again) {
        again = false;
        for (size_t i = 0; i < fibers.size(); i++) if (enabled(fibers[i].get())) { run(fibers[i].get()); again = any = true; if (hitLimit) return any; break; }
    }
    return any;
}

uint64_t World::nextDeadline() {
    uint64_t d = ~0ull;
    for (auto &f : fibers) if (!f->done && f->blocked && !f->proc->suspended) d = std::min(d, f->deadline);
    return d;
}

Fiber *World::spawn(Process *p, std::function<void()> body) {
    NoTrack nt;
    fibers.emplace_back(new Fiber); Fiber *f = fibers.back().get();
    f->proc = p; f->tid = nextTid; nextTid += 4; f->body = std::move(body);
    return f;
}

void killCurrentFiber(const std::string &why) {
    Fiber *f = W->cur;
    g_track = false;
    if (!f) { fprintf(stderr, "sim: fatal outside a simulated thread: %s\n", why.c_str()); fflush(stdout); _Exit(97); }
    { NoTrack nt; f->done = true; f->exited = true; f->exitWhy = why; if (f->thread) f->thread->exited = true; }
    switchToMain(f, true);
    __builtin_trap();
}

void blockUntil(const char *where, std::function<bool()> pred, uint64_t deadline) {
    Fiber *f = W->cur;
    for (;;) {
        if (pred && pred()) return;
        if (W->now >= deadline) return;
        f->blocked = true; f->pred = pred; f->deadline = deadline; f->where = where;
        switchToMain(f, false);
        f->blocked = false;
    }
}
void yieldNow() { Fiber *f = W->cur; f->blocked = false; switchToMain(f, false); }

NoTrack::NoTrack() : saved(g_track) { g_track = false; }
NoTrack::~NoTrack() { g_track = saved; }

ApiScope::ApiScope(const char *name, bool point) : f(W->cur), saved(g_track) {
    g_track = false;
    if (!f) return;
    if (++W->apiCalls > W->apiLimit) { W->hitLimit = true; W->noteBad(std::string("execution did not quiesce: API-call limit reached in ") + name); killCurrentFiber("limit"); }
    if (W->logging) W->log.push_back(name);
    if (f->apiDepth++ == 0) {
        if (point && W->schedPoint) W->schedPoint();
        if (W->onApi) W->onApi(name);
    }
}
ApiScope::~ApiScope() { if (f) f->apiDepth--; g_track = saved; }

#define API(name) ApiScope _api(name)
#define FAULT(name, failval) do { if (W->fault && _api.f) { DWORD _e = W->fault(name); if (_e) { SetLastError(_e); return failval; } } } while (0)

// ---------------------------------------------------------------- world
Obj::Obj(Kind k) : kind(k) { W->objs.emplace_back(this); }
Process *curProc() { return W->cur ? W->cur->proc : nullptr; }
Fiber *curFiber() { return W->cur; }

World::World() {
    NoTrack nt; W = this;
    winsta0 = new WinSta; winsta0->name = L"WinSta0"; desk0 = new Desktop; desk0->name = L"Default"; desk0->ws = winsta0;
}
World::~World() {
    for (auto &f : fibers) if (f->stack) g_stackPool.push_back(f->stack);
    if (W == this) W = nullptr;
}
void World::noteBad(const std::string &s) { NoTrack nt; if (bad.size() < 50) bad.push_back(s); }

Process *World::newProcess(const std::wstring &module, Console *con) {
    NoTrack nt;
    Process *p = new Process; p->pid = nextPid; nextPid += 4; p->modulePath = module; p->console = con; p->nextHandle = 0x40 + 0x400 * procs.size();
    p->winsta = winsta0; p->desktop = desk0; procs.push_back(p);
    if (con) con->procs.push_back(p->pid);
    if (con) { p->stdh[0] = p->add(con->in); p->stdh[1] = p->add(con->primary); p->stdh[2] = p->add(con->primary); }
    return p;
}
HANDLE Process::add(Obj *o, bool inh) { NoTrack nt; uintptr_t h = nextHandle; nextHandle += 4; table[h] = o; inherit[h] = inh; o->handles++; return (HANDLE)h; }
Obj *Process::get(HANDLE h) { auto it = table.find((uintptr_t)h); return it == table.end() ? nullptr : it->second; }

static void dbgGone(Obj *o) { // the last handle of an end was closed
    DbgPipe &d = W->dbg; if (o == d.srv) { d.srv = nullptr; d.cli = nullptr; d.q[0].clear(); d.q[1].clear(); d.gen++; } else if (o == d.cli) { d.cli = nullptr; d.q[1].clear(); if (d.st == DbgPipe::Connected) d.st = DbgPipe::Closing; }
}
void World::exitProcess(Process *p, DWORD code) {
    NoTrack nt;
    if (p->exited) return;
    p->exited = true; p->exitCode = code;
    if (p->console) { auto &v = p->console->procs; v.erase(std::remove(v.begin(), v.end(), p->pid), v.end()); }
    // the kernel closes every handle
    auto t = p->table; p->table.clear();
    for (auto &kv : t) { Obj *o = kv.second; if (--o->handles == 0 && o->kind == kFile) dbgGone(o); if (o->handles == 0 && o->kind == kPipeEnd) { PipeEnd *e = (PipeEnd *)o; e->open = false; for (Io *io : e->ios) { io->done = true; io->observed = true; } if (e->server) e->pipe->srvClosed = true; else e->pipe->cliClosed = true; if (!manualIo) pump(e->pipe); } }
    for (auto &f : fibers) if (f->proc == p && f.get() != cur) { f->done = true; f->exited = true; f->exitWhy = "process exited"; }
}

static PipeEnd *pipeEnd(HANDLE h) { Obj *o = curProc()->get(h); return o && o->kind == kPipeEnd ? (PipeEnd *)o : nullptr; }
static std::string hx(HANDLE h) { char b[32]; snprintf(b, sizeof b, "%p", h); return b; }

Pipe *World::findPipe(const std::wstring &n) { for (auto &p : pipes) if (p->name == n && !(p->srvClosed && p->cliClosed)) return p.get(); return nullptr; }
Pipe *World::findPipePrefix(const std::wstring &pre, int nth) { for (auto &p : pipes) if (p->name.compare(0, pre.size(), pre) == 0 && nth-- == 0) return p.get(); return nullptr; }

void World::complete(Io *io, DWORD err, DWORD n) {
    NoTrack nt;
    if (io->done) return;
    io->done = true; io->err = err; io->n = n;
    if (io->ev && io->ev->handles == 0) noteBad("event closed while an overlapped operation that signals it is outstanding");
    if (io->op == Io::Write && io->end->open && memcmp(io->buf, io->wdata.data(), io->wdata.size())) noteBad("the buffer of an outstanding write was changed");
    io->ov->Internal = err; io->ov->InternalHigh = n;
    if (io->ev) io->ev->signaled = true;
}

std::vector<Io *> World::pendingIo() { std::vector<Io *> r; for (auto &i : iolist) if (!i->done) r.push_back(i.get()); return r; }

void World::pump(Pipe *p) {
    NoTrack nt; bool again = true;
    while (again) { again = false; for (PipeEnd *e : {p->srv, p->cli}) {
        if (!e || !e->open) continue;
        for (size_t k = 0; k < e->ios.size(); k++) {
            Io *io = e->ios[k];
            if (io->done) continue;
            if (io->op == Io::Connect) { if (p->connected) complete(io, 0, 0); continue; }
            int rd = e->server ? 0 : 1; bool otherClosed = e->server ? p->cliClosed : p->srvClosed;
            if (io->op == Io::Read) {
                std::string &q = p->q[rd];
                if (!q.empty()) { size_t n = std::min<size_t>(q.size(), io->size); memcpy(io->buf, q.data(), n); q.erase(0, n); complete(io, 0, n); again = true; }
                else if (otherClosed) complete(io, ERROR_BROKEN_PIPE, 0);
            } else {
                std::string &q = p->q[1 - rd];
                size_t space = p->cap[1 - rd] > q.size() ? p->cap[1 - rd] - q.size() : 0; size_t n = std::min<size_t>(space, io->size - io->off);
                if (otherClosed) { complete(io, ERROR_BROKEN_PIPE, io->off); continue; }
                q.append(io->wdata, io->off, n); p->everWritten[1 - rd].append(io->wdata, io->off, n); io->off += n; again |= n != 0;
                if (io->off == io->size) complete(io, 0, io->size);
            }
        }
        e->ios.erase(std::remove_if(e->ios.begin(), e->ios.end(), [](Io *i) { return i->done && i->observed; }), e->ios.end());
    } }
}

bool World::peerConnect(Pipe *p, DWORD pid) {
    NoTrack nt;
    if (p->connected || p->srvClosed) return false;
    p->connected = p->everConnected = true; p->virtualPeer = true; p->clientPid = pid; if (!manualIo) pump(p); return true;
}
static int peerOut(Pipe *p) { return p->srv ? 0 : 1; } // direction of bytes sent by the harness
void World::peerSend(Pipe *p, const std::string &b) { NoTrack nt; p->q[peerOut(p)] += b; p->everWritten[peerOut(p)] += b; if (!manualIo) pump(p); }
std::string World::peerRecv(Pipe *p, size_t max) { NoTrack nt; std::string &q = p->q[1 - peerOut(p)]; size_t n = std::min(max, q.size()); std::string r = q.substr(0, n); q.erase(0, n); if (!manualIo) pump(p); return r; }
void World::peerClose(Pipe *p) { NoTrack nt; if (p->srv) p->cliClosed = true; else p->srvClosed = true; if (!manualIo) pump(p); }
bool World::pipeWriterClosed(Pipe *p) { return p->srv ? p->srvClosed : p->cliClosed; }

std::string narrow(const std::wstring &s) { std::string r; for (wchar_t c : s) r += c < 128 ? (char)c : '?'; return r; }
std::wstring widen(const std::string &s) { std::wstring r; for (char c : s) r += (wchar_t)(unsigned char)c; return r; }
uint64_t hashBytes(const void *p, size_t n, uint64_t h) { const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return h; }
} // namespace sim
using namespace sim;

// ---------------------------------------------------------------- allocation
// Counts the product's own live allocations (leak checks); nothing else.
struct Hdr { uint64_t magic; uint64_t owned; };
// One process can be watched on its own: its allocations are counted apart, and g_watchHook may refuse each of them.
void *g_watchProc; int64_t g_watchLive, g_watchBytes; uint64_t g_watchAllocs; std::function<bool()> g_watchHook; static const uint64_t kWatched = 1ull << 62;
static bool counted() { return !g_watchProc || (W && W->cur && W->cur->proc == g_watchProc); }
static bool watchedNow() { return g_watchProc && g_track && W && W->cur && W->cur->proc == g_watchProc; }
static const uint64_t kMagic = 0x51a51a51a51a51aull;
int64_t g_productLive = 0, g_productBytes = 0; uint64_t g_productAllocs = 0; int64_t g_failAllocAt = -1;
static void *allocImpl(size_t n) {
    if (g_track) { g_productAllocs++; if (g_failAllocAt >= 0 && (int64_t)g_productAllocs > g_failAllocAt) { g_failAllocAt = -1; return nullptr; } }
    bool wa = watchedNow();
    if (wa) { g_watchAllocs++; if (g_watchHook) { NoTrack nt; if (g_watchHook()) return nullptr; } }
    if (n > (size_t)1 << 40 || (g_track && n > (size_t)1 << 28)) return nullptr; // the product gets at most 256 MB at once
    Hdr *h = (Hdr *)malloc(sizeof(Hdr) + n + 8); if (!h) return nullptr;
    h->magic = kMagic; h->owned = g_track ? (n + 1) | (wa ? kWatched : 0) : 0; if (g_track) { g_productLive++; g_productBytes += n; } if (wa) { g_watchLive++; g_watchBytes += n; }
    if (g_track) { memset(h + 1, 0xa5, n); memcpy((char *)(h + 1) + n, &kMagic, 8); } // what the code under test does not initialise is always the same garbage
    if (raceWatching && g_track) raceFreed(h + 1, n);
    return h + 1;
}
static void freeImpl(void *p) {
    if (!p) return;
    Hdr *h = (Hdr *)p - 1;
    if (h->magic != kMagic) { fprintf(stderr, "sim: bad delete\n"); abort(); }
    if (raceWatching && g_track) raceDeleted(p, h->owned ? (h->owned & ~kWatched) - 1 : 0, __builtin_return_address(0));
    if (h->owned) { size_t n = (h->owned & ~kWatched) - 1; if (memcmp((char *)p + n, &kMagic, 8) && W) { NoTrack nt; W->noteBad("memory behind an allocated block was written"); } memset(p, 0xdd, n); }
    h->magic = 0; if (h->owned & kWatched) { h->owned &= ~kWatched; g_watchLive--; g_watchBytes -= h->owned - 1; } if (h->owned) { g_productLive--; g_productBytes -= h->owned - 1; }
    free(h);
}
void *operator new(size_t n) { void *p = allocImpl(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = allocImpl(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return allocImpl(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return allocImpl(n); }
void operator delete(void *p) noexcept { freeImpl(p); }
void operator delete[](void *p) noexcept { freeImpl(p); }
void operator delete(void *p, size_t) noexcept { freeImpl(p); }
void operator delete[](void *p, size_t) noexcept { freeImpl(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { freeImpl(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { freeImpl(p); }

// ---------------------------------------------------------------- process end
extern "C" {
void __real_exit(int) __attribute__((noreturn)); void __real_abort() __attribute__((noreturn));
void __wrap_exit(int c) __attribute__((noreturn));
void __wrap_exit(int c) { if (W && W->cur) { bool t = g_track; (void)t; g_track = false; Process *p = curProc(); simFlush(p); W->exitProcess(p, c); killCurrentFiber(W->wmClose ? "WM_CLOSE" : "exit"); } __real_exit(c); }
void __wrap_abort() __attribute__((noreturn));
void __wrap_abort() { if (W && W->cur) { g_track = false; W->noteBad("abort() called"); W->exitProcess(curProc(), 3); killCurrentFiber("abort"); } __real_abort(); }
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *) __attribute__((noreturn));
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *) { if (W && W->cur) { g_track = false; W->noteBad(std::string("assertion failed: ") + e); W->exitProcess(curProc(), 3); killCurrentFiber("assert"); } fprintf(stderr, "assert %s %s:%u\n", e, f, l); __real_abort(); }
}
struct TermInit { TermInit() { std::set_terminate([]() { if (W && W->cur) { g_track = false; W->noteBad("std::terminate called (exception escaped a noexcept function or thread)"); W->exitProcess(curProc(), 3); killCurrentFiber("terminate"); } __real_abort(); }); } } g_ti;

// ---------------------------------------------------------------- basic API
static DWORD g_mainLastError;
DWORD GetLastError() { return W && W->cur ? W->cur->lastError : g_mainLastError; }
void SetLastError(DWORD e) { if (W && W->cur) W->cur->lastError = e; else g_mainLastError = e; }

static const uintptr_t kPseudoProc = (uintptr_t)-1, kPseudoThread = (uintptr_t)-2;
static Process *procOf(HANDLE h) { if ((uintptr_t)h == kPseudoProc) return curProc(); Obj *o = curProc()->get(h); return o && o->kind == kProcess ? (Process *)o : nullptr; }

static void dropObj(Obj *o) {
    if (--o->handles > 0) return;
    if (o->kind == kFile) dbgGone(o);
    if (o->kind == kPipeEnd) {
        PipeEnd *e = (PipeEnd *)o;
        for (Io *io : e->ios) if (!io->done) { W->noteBad("pipe handle closed while an overlapped operation is still outstanding (its buffer and OVERLAPPED may be written later)"); io->done = io->observed = true; }
        e->open = false; if (e->server) e->pipe->srvClosed = true; else e->pipe->cliClosed = true;
        if (!W->manualIo) W->pump(e->pipe);
    } else if (o->kind == kScreen) { ScreenBuffer *b = (ScreenBuffer *)o; (void)b; }
}
static bool closeIn(Process *p, HANDLE h) {
    auto it = p->table.find((uintptr_t)h); if (it == p->table.end()) return false;
    Obj *o = it->second; p->table.erase(it); dropObj(o); return true;
}
BOOL CloseHandle(HANDLE h) {
    API("CloseHandle");
    if (!closeIn(curProc(), h)) { W->noteBad("CloseHandle on an invalid or already closed handle"); SetLastError(ERROR_INVALID_HANDLE); return FALSE; }
    return TRUE;
}
BOOL DuplicateHandle(HANDLE sp, HANDLE sh, HANDLE tp, LPHANDLE out, DWORD, BOOL inh, DWORD opt) {
    API("DuplicateHandle");
    Process *s = procOf(sp), *t = procOf(tp);
    if (!s || !t) { SetLastError(ERROR_INVALID_HANDLE); return FALSE; }
    if (W->fault && _api.f) { DWORD e = W->fault("DuplicateHandle"); if (e) { if (opt & DUPLICATE_CLOSE_SOURCE) closeIn(s, sh); SetLastError(e); return FALSE; } }
    Obj *o = s->get(sh);
    if (!o) { if (s->exited) { SetLastError(ERROR_ACCESS_DENIED); return FALSE; } SetLastError(ERROR_INVALID_HANDLE); return FALSE; }
    HANDLE r = t->add(o, inh); if (opt & DUPLICATE_CLOSE_SOURCE) closeIn(s, sh);
    if (out) *out = r;
    return TRUE;
}
BOOL GetHandleInformation(HANDLE h, LPDWORD f) { API("GetHandleInformation"); if (!curProc()->get(h)) { SetLastError(ERROR_INVALID_HANDLE); return FALSE; } *f = curProc()->inherit[(uintptr_t)h] ? HANDLE_FLAG_INHERIT : 0; return TRUE; }
BOOL SetHandleInformation(HANDLE h, DWORD m, DWORD f) { API("SetHandleInformation"); if (!curProc()->get(h)) { SetLastError(ERROR_INVALID_HANDLE); return FALSE; } if (m & HANDLE_FLAG_INHERIT) curProc()->inherit[(uintptr_t)h] = f & HANDLE_FLAG_INHERIT; return TRUE; }

HANDLE CreateEventW(LPSECURITY_ATTRIBUTES sa, BOOL man, BOOL init, LPCWSTR) { API("CreateEvent"); FAULT("CreateEvent", nullptr); Event *e = new Event; e->manual = man; e->signaled = init; return curProc()->add(e, sa && sa->bInheritHandle); }
HANDLE CreateEventA(LPSECURITY_ATTRIBUTES sa, BOOL man, BOOL init, LPCSTR) { return CreateEventW(sa, man, init, nullptr); }
BOOL SetEvent(HANDLE h) { API("SetEvent"); Obj *o = curProc()->get(h); if (!o || o->kind != kEvent) { W->noteBad("SetEvent on a bad handle"); SetLastError(ERROR_INVALID_HANDLE); return FALSE; } ((Event *)o)->signaled = true; raceRelease(o); return TRUE; }
BOOL ResetEvent(HANDLE h) { API("ResetEvent"); Obj *o = curProc()->get(h); if (!o || o->kind != kEvent) { W->noteBad("ResetEvent on a bad handle"); SetLastError(ERROR_INVALID_HANDLE); return FALSE; } ((Event *)o)->signaled = false; return TRUE; }

static bool signaled(Obj *o) {
    switch (o->kind) {
    case kEvent: return ((Event *)o)->signaled;
    case kProcess: return ((Process *)o)->exited;
    case kThread: return ((Thread *)o)->exited || (((Thread *)o)->proc && ((Thread *)o)->proc->exited);
    case kConIn: return !((ConIn *)o)->con->input.empty();
    default: return false;
    }
}
static DWORD waitImpl(DWORD n, const HANDLE *hs, BOOL all, DWORD ms, const char *nm) {
    ApiScope _api(nm);
    FAULT(nm, WAIT_FAILED);
    if (n == 0 || n > MAXIMUM_WAIT_OBJECTS) { SetLastError(ERROR_INVALID_PARAMETER); W->noteBad("wait with a bad handle count"); return WAIT_FAILED; }
    W->waits++;
    std::vector<Obj *> os;
    for (DWORD i = 0; i < n; i++) { Obj *o = curProc()->get(hs[i]); if (!o && (uintptr_t)hs[i] == kPseudoProc) o = curProc(); if (!o) { W->noteBad("wait on an invalid handle"); SetLastError(ERROR_INVALID_HANDLE); return WAIT_FAILED; } os.push_back(o); }
    auto ready = [&os, all]() { if (all) { for (Obj *o : os) if (!signaled(o)) return false; return true; } for (Obj *o : os) if (signaled(o)) return true; return false; };
    W->cur->waitingFor.clear(); for (DWORD i = 0; i < n; i++) W->cur->waitingFor.push_back(os[i]);
    blockUntil(nm, ready, ms == INFINITE ? ~0ull : W->now + ms);
    if (!ready()) return WAIT_TIMEOUT;
    for (Obj *o : os) if (signaled(o)) raceAcquire(o);
    DWORD idx = 0;
    for (DWORD i = 0; i < n; i++) if (signaled(os[i])) { idx = i; break; }
    if (all) { for (Obj *o : os) if (o->kind == kEvent && !((Event *)o)->manual) ((Event *)o)->signaled = false; return WAIT_OBJECT_0; }
    if (os[idx]->kind == kEvent && !((Event *)os[idx])->manual) ((Event *)os[idx])->signaled = false;
    return WAIT_OBJECT_0 + idx;
}
DWORD WaitForSingleObject(HANDLE h, DWORD ms) { return waitImpl(1, &h, FALSE, ms, "WaitForSingleObject"); }
DWORD WaitForSingleObjectEx(HANDLE h, DWORD ms, BOOL) { return WaitForSingleObject(h, ms); }
DWORD WaitForMultipleObjects(DWORD n, const HANDLE *h, BOOL all, DWORD ms) { return waitImpl(n, h, all, ms, "WaitForMultipleObjects"); }
DWORD WaitForMultipleObjectsEx(DWORD n, const HANDLE *h, BOOL all, DWORD ms, BOOL) { return waitImpl(n, h, all, ms, "WaitForMultipleObjects"); }
void Sleep(DWORD ms) {
    API("Sleep"); W->sleeps++;
    if (W->wmClose) { Console *c = curProc()->console; for (size_t i = 0; i < W->procs.size(); i++) if (c && W->procs[i]->console == c && W->procs[i] != curProc()) W->exitProcess(W->procs[i], 0xC000013A); W->exitProcess(curProc(), 0xC000013A); killCurrentFiber("WM_CLOSE"); }
    if (ms == 0) { yieldNow(); return; }
    blockUntil("Sleep", nullptr, ms == INFINITE ? ~0ull : W->now + ms);
}
DWORD SleepEx(DWORD ms, BOOL) { Sleep(ms); return 0; }
BOOL SwitchToThread() { Sleep(0); return TRUE; }

struct Cs { Fiber *owner = nullptr; int depth = 0; };
void InitializeCriticalSection(LPCRITICAL_SECTION c) { NoTrack nt; c->impl = new Cs; c->init = 0x1234; }
BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION c, DWORD) { InitializeCriticalSection(c); return TRUE; }
void DeleteCriticalSection(LPCRITICAL_SECTION c) { NoTrack nt; if (((Cs *)c->impl)->owner) W->noteBad("critical section deleted while owned"); delete (Cs *)c->impl; c->impl = nullptr; c->init = 0; }
void EnterCriticalSection(LPCRITICAL_SECTION c) {
    API("EnterCriticalSection");
    if (c->init != 0x1234) { W->noteBad("use of an uninitialized or deleted critical section"); return; }
    Cs *s = (Cs *)c->impl; Fiber *me = W->cur;
    blockUntil("EnterCriticalSection", [s, me]() { return !s->owner || s->owner == me; });
    s->owner = me; s->depth++; raceAcquire(s);
}
BOOL TryEnterCriticalSection(LPCRITICAL_SECTION c) { API("TryEnterCriticalSection"); Cs *s = (Cs *)c->impl; if (s->owner && s->owner != W->cur) return FALSE; s->owner = W->cur; s->depth++; raceAcquire(s); return TRUE; }
void LeaveCriticalSection(LPCRITICAL_SECTION c) {
    API("LeaveCriticalSection");
    if (c->init != 0x1234) { W->noteBad("use of an uninitialized or deleted critical section"); return; }
    Cs *s = (Cs *)c->impl; if (s->owner != W->cur) { W->noteBad("LeaveCriticalSection by a thread that does not own it"); return; } raceRelease(s); if (--s->depth == 0) s->owner = nullptr;
}
BOOL InitializeCriticalSectionEx(LPCRITICAL_SECTION c, DWORD, DWORD) { InitializeCriticalSection(c); return TRUE; }
DWORD SetCriticalSectionSpinCount(LPCRITICAL_SECTION, DWORD) { return 0; }
struct Srw { Fiber *owner = nullptr; int readers = 0; };
static Srw *srw(PSRWLOCK l) { NoTrack nt; if (!l->p) l->p = new Srw; return (Srw *)l->p; }
void InitializeSRWLock(PSRWLOCK l) { l->p = nullptr; }
void AcquireSRWLockExclusive(PSRWLOCK l) { API("AcquireSRWLock"); Srw *s = srw(l); if (s->owner == W->cur) W->noteBad("an SRW lock is acquired twice"); blockUntil("AcquireSRWLock", [s]() { return !s->owner && !s->readers; }); s->owner = W->cur; raceAcquire(s); }
void ReleaseSRWLockExclusive(PSRWLOCK l) { API("ReleaseSRWLock"); Srw *s = srw(l); if (s->owner != W->cur) { W->noteBad("an SRW lock is released by a thread that does not own it"); return; } raceRelease(s); s->owner = nullptr; }
void AcquireSRWLockShared(PSRWLOCK l) { API("AcquireSRWLock"); Srw *s = srw(l); blockUntil("AcquireSRWLock", [s]() { return !s->owner; }); s->readers++; raceAcquire(s); }
void ReleaseSRWLockShared(PSRWLOCK l) { API("ReleaseSRWLock"); Srw *s = srw(l); raceRelease(s); s->readers--; }
unsigned char TryAcquireSRWLockExclusive(PSRWLOCK l) { API("AcquireSRWLock"); Srw *s = srw(l); if (s->owner || s->readers) return 0; s->owner = W->cur; raceAcquire(s); return 1; }
unsigned char TryAcquireSRWLockShared(PSRWLOCK l) { API("AcquireSRWLock"); Srw *s = srw(l); if (s->owner) return 0; s->readers++; raceAcquire(s); return 1; }
LONG InterlockedIncrement(LONG volatile *p) { API("Interlocked"); raceAcquire((const void *)p); raceRelease((const void *)p); *p = *p + 1; return *p; }
LONG InterlockedDecrement(LONG volatile *p) { API("Interlocked"); raceAcquire((const void *)p); raceRelease((const void *)p); *p = *p - 1; return *p; }
LONG InterlockedExchange(LONG volatile *p, LONG v) { API("Interlocked"); raceAcquire((const void *)p); raceRelease((const void *)p); LONG o = *p; *p = v; return o; }
LONG InterlockedExchangeAdd(LONG volatile *p, LONG v) { API("Interlocked"); raceAcquire((const void *)p); raceRelease((const void *)p); LONG o = *p; *p = o + v; return o; }
LONG InterlockedCompareExchange(LONG volatile *p, LONG x, LONG c) { API("Interlocked"); raceAcquire((const void *)p); raceRelease((const void *)p); LONG o = *p; if (o == c) *p = x; return o; }
PVOID InterlockedCompareExchangePointer(PVOID volatile *p, PVOID x, PVOID c) { API("Interlocked"); raceAcquire((const void *)p); raceRelease((const void *)p); PVOID o = *p; if (o == c) *p = x; return o; }
PVOID InterlockedExchangePointer(PVOID volatile *p, PVOID v) { API("Interlocked"); raceAcquire((const void *)p); raceRelease((const void *)p); PVOID o = *p; *p = v; return o; }
DWORD GetTickCount() { API("GetTickCount"); return (DWORD)(W->now + W->tickBase); }
ULONGLONG GetTickCount64() { API("GetTickCount"); return W->now + W->tickBase; }
void GetSystemTimeAsFileTime(LPFILETIME t) { API("GetSystemTimeAsFileTime"); uint64_t v = 130000000000000000ull + W->now * 10000; t->dwLowDateTime = (DWORD)v; t->dwHighDateTime = (DWORD)(v >> 32); }
BOOL QueryPerformanceCounter(LARGE_INTEGER *l) { l->QuadPart = W ? W->now * 1000 : 0; return TRUE; }
BOOL QueryPerformanceFrequency(LARGE_INTEGER *l) { l->QuadPart = 1000000; return TRUE; }
HANDLE GetCurrentProcess() { return (HANDLE)kPseudoProc; }
DWORD GetCurrentProcessId() { return curProc() ? curProc()->pid : 1; }
HANDLE GetCurrentThread() { return (HANDLE)kPseudoThread; }
DWORD GetCurrentThreadId() { return W->cur ? W->cur->tid : 1; }

// ---------------------------------------------------------------- the debug server's pipe
namespace { struct DbgEnd : Obj { bool server; DbgEnd(bool s) : Obj(kFile), server(s) {} }; }
static DbgEnd *dbgEnd(HANDLE h) { Obj *o = curProc()->get(h); return o && o->kind == kFile ? (DbgEnd *)o : nullptr; }
static bool isDbgName(LPCWSTR n) { std::wstring up = n; for (auto &c : up) if (c >= 'a' && c <= 'z') c -= 32; return up == L"\\\\.\\PIPE\\DEBUGSERVER"; }
static void captureSd(Pipe *p, LPSECURITY_ATTRIBUTES sa);
static HANDLE dbgCreate(DWORD om, DWORD pm, DWORD maxInst, LPSECURITY_ATTRIBUTES sa) {
    DbgPipe &d = W->dbg; NoTrack nt; if (d.srv) { SetLastError(om & FILE_FLAG_FIRST_PIPE_INSTANCE ? ERROR_ACCESS_DENIED : ERROR_PIPE_BUSY); return INVALID_HANDLE_VALUE; }
    d.sd = Pipe(); d.sd.openMode = om; d.sd.pipeMode = pm; d.sd.maxInst = maxInst; captureSd(&d.sd, sa); d.srvMsgRead = pm & PIPE_READMODE_MESSAGE; d.st = DbgPipe::Listening; d.connecting = false; d.cli = nullptr; d.server = curProc(); d.srv = new DbgEnd(true); d.gen++;
    return curProc()->add(d.srv, sa && sa->bInheritHandle);
}
static HANDLE dbgOpen() {
    DbgPipe &d = W->dbg; NoTrack nt; if (!d.srv) { SetLastError(ERROR_FILE_NOT_FOUND); return INVALID_HANDLE_VALUE; } if (d.st != DbgPipe::Listening) { SetLastError(ERROR_PIPE_BUSY); return INVALID_HANDLE_VALUE; }
    d.st = DbgPipe::Connected; d.cli = new DbgEnd(false); d.client = curProc(); d.msgRead = false; return curProc()->add(d.cli, false);
}
static BOOL dbgConnect(DbgEnd *e) {
    DbgPipe &d = W->dbg; if (!e->server) { SetLastError(ERROR_INVALID_FUNCTION); return FALSE; }
    if (d.st == DbgPipe::Connected) { SetLastError(ERROR_PIPE_CONNECTED); return FALSE; } if (d.st == DbgPipe::Closing) { SetLastError(ERROR_NO_DATA); return FALSE; }
    d.st = DbgPipe::Listening; blockUntil("ConnectNamedPipe", [&d]() { return d.st != DbgPipe::Listening; }); return TRUE;
}
static BOOL dbgDisconnect(DbgEnd *e) { DbgPipe &d = W->dbg; if (!e->server) { SetLastError(ERROR_INVALID_FUNCTION); return FALSE; } d.st = DbgPipe::Disconnected; d.q[0].clear(); d.q[1].clear(); d.cli = nullptr; d.gen++; return TRUE; }
static BOOL dbgFail(DWORD e, LPDWORD n) { if (n) *n = 0; SetLastError(e); return FALSE; }
static BOOL dbgRead(DbgEnd *e, LPVOID buf, DWORD size, LPDWORD got) {
    DWORD fe = 0;
    DbgPipe &d = W->dbg; int k = e->server ? 0 : 1; if (e->server ? d.st == DbgPipe::Listening || d.st == DbgPipe::Disconnected : d.cli != e) return dbgFail(e->server && d.st == DbgPipe::Listening ? ERROR_PIPE_LISTENING : ERROR_PIPE_NOT_CONNECTED, got);
    blockUntil("ReadFile", [&d, k, e]() { return !d.q[k].empty() || (e->server ? d.st != DbgPipe::Connected : d.cli != e || !d.srv); });
    if (e->server && W->fault) { fe = W->fault("DebugReadFile"); if (fe) return dbgFail(fe, got); }
    if (d.q[k].empty()) return dbgFail(ERROR_BROKEN_PIPE, got);
    NoTrack nt; std::string &m = d.q[k].front(); size_t n = std::min<size_t>(size, m.size()); memcpy(buf, m.data(), n); if (got) *got = n; bool msg = e->server ? d.srvMsgRead : d.msgRead; if (e->server) { d.received.push_back({d.client->pid, std::string((char *)buf, n)}); }
    if (n < m.size()) { m.erase(0, n); if (msg) { SetLastError(ERROR_MORE_DATA); return FALSE; } } else d.q[k].pop_front(); return TRUE;
}
static BOOL dbgWrite(DbgEnd *e, LPCVOID buf, DWORD size, LPDWORD put) {
    if (e->server && W->fault) { DWORD fe = W->fault("DebugWriteFile"); if (fe) return dbgFail(fe, put); }
    DbgPipe &d = W->dbg; if (e->server ? d.st != DbgPipe::Connected : d.cli != e) return dbgFail(e->server && d.st == DbgPipe::Closing ? ERROR_NO_DATA : ERROR_PIPE_NOT_CONNECTED, put);
    NoTrack nt; d.q[e->server ? 1 : 0].push_back(std::string((const char *)buf, size)); if (!e->server) d.sent.push_back({curProc()->pid, std::string((const char *)buf, size)}); if (put) *put = size; return TRUE;
}
static BOOL dbgTransact(DbgEnd *e, LPVOID in, DWORD n, LPVOID out, DWORD m, LPDWORD got) {
    DbgPipe &d = W->dbg; if (!(d.sd.pipeMode & PIPE_TYPE_MESSAGE) || !d.msgRead || e->server) return dbgFail(ERROR_BAD_PIPE, got); if (!d.q[1].empty()) return dbgFail(ERROR_PIPE_BUSY, got);
    DWORD k; if (!dbgWrite(e, in, n, &k)) return FALSE; return dbgRead(e, out, m, got);
}
static BOOL dbgWait(DWORD tmo) {
    DbgPipe &d = W->dbg; if (!d.srv) { SetLastError(ERROR_FILE_NOT_FOUND); return FALSE; } Obj *s = d.srv; uint64_t end = tmo == NMPWAIT_WAIT_FOREVER ? ~0ull : W->now + (tmo == 0 ? 10000 : tmo);
    blockUntil("WaitNamedPipe", [&d, s]() { return d.srv != s || d.st == DbgPipe::Listening; }, end);
    if (d.srv != s) { SetLastError(ERROR_FILE_NOT_FOUND); return FALSE; } if (d.st != DbgPipe::Listening) { SetLastError(ERROR_SEM_TIMEOUT); return FALSE; } return TRUE;
}
// ---------------------------------------------------------------- standard output of simulated programs
static std::string simFormat(const char *f, va_list ap) {
    std::string r; for (; *f; f++) {
        if (*f != '%') { r += *f; continue; } std::string sp = "%"; f++; while (*f && strchr("-+ #0123456789.", *f)) sp += *f++; std::string mod; while (*f && strchr("lhzjtLI", *f)) { if (*f == 'I' && !strncmp(f, "I64", 3)) { mod = "ll"; f += 3; continue; } mod += *f++; }
        char b[2048]; char c = *f; if (!c) break; if (c == '%') { r += '%'; continue; }
        if (c == 's' && mod == "l") { const wchar_t *w = va_arg(ap, const wchar_t *); r += w ? narrow(w) : "(null)"; }
        else if (c == 's') { const char *s = va_arg(ap, const char *); r += s ? s : "(null)"; }
        else if (strchr("diuxXoc", c)) { if (mod == "l" || mod == "ll" || mod == "z" || mod == "j") { snprintf(b, sizeof b, (sp + "ll" + c).c_str(), va_arg(ap, long long)); } else snprintf(b, sizeof b, (sp + c).c_str(), va_arg(ap, int)); r += b; }
        else if (c == 'p') { snprintf(b, sizeof b, "%p", va_arg(ap, void *)); r += b; } else if (strchr("fgeFGE", c)) { snprintf(b, sizeof b, (sp + c).c_str(), va_arg(ap, double)); r += b; }
    } return r;
}
static std::string &simStream(FILE *f) { return (f == stderr ? W->errText : W->outBuf)[curProc()]; } // stdout is buffered
void sim::simFlush(Process *p) { auto it = W->outBuf.find(p); if (it == W->outBuf.end()) return; W->outText[p] += it->second; W->outBuf.erase(it); }
extern "C" {
#define SIMOUT(name) ApiScope _a(name); NoTrack nt
int sim_vfprintf(FILE *f, const char *s, va_list ap) { SIMOUT("stdio"); std::string t = simFormat(s, ap); simStream(f) += t; return t.size(); }
int sim_fprintf(FILE *f, const char *s, ...) { va_list ap; va_start(ap, s); int n = sim_vfprintf(f, s, ap); va_end(ap); return n; }
int sim_printf(const char *s, ...) { va_list ap; va_start(ap, s); int n = sim_vfprintf(stdout, s, ap); va_end(ap); return n; }
int sim_fprintf_chk(FILE *f, int, const char *s, ...) { va_list ap; va_start(ap, s); int n = sim_vfprintf(f, s, ap); va_end(ap); return n; }
int sim_printf_chk(int, const char *s, ...) { va_list ap; va_start(ap, s); int n = sim_vfprintf(stdout, s, ap); va_end(ap); return n; }
size_t sim_fwrite(const void *p, size_t a, size_t n, FILE *f) { SIMOUT("stdio"); simStream(f).append((const char *)p, a * n); return n; }
int sim_fputs(const char *s, FILE *f) { SIMOUT("stdio"); simStream(f) += s; return 1; }
int sim_puts(const char *s) { SIMOUT("stdio"); simStream(stdout) += std::string(s) + "\n"; return 1; }
int sim_fputc(int c, FILE *f) { SIMOUT("stdio"); simStream(f) += (char)c; return c; }
int sim_putchar(int c) { return sim_fputc(c, stdout); }
int sim_fflush(FILE *f) { SIMOUT("stdio"); if (f != stderr) simFlush(curProc()); return 0; }
}

// ---------------------------------------------------------------- pipes
static void captureSd(Pipe *p, LPSECURITY_ATTRIBUTES sa);
HANDLE CreateNamedPipeW(LPCWSTR name, DWORD om, DWORD pm, DWORD maxInst, DWORD outSz, DWORD inSz, DWORD, LPSECURITY_ATTRIBUTES sa) {
    API("CreateNamedPipe"); FAULT("CreateNamedPipe", INVALID_HANDLE_VALUE);
    if (isDbgName(name)) return dbgCreate(om, pm, maxInst, sa);
    Pipe *old = W->findPipe(name);
    if (W->squatted && W->squatted(name)) { if (om & FILE_FLAG_FIRST_PIPE_INSTANCE) { SetLastError(ERROR_ACCESS_DENIED); return INVALID_HANDLE_VALUE; } W->noteBad("an instance was added to a pipe that somebody else has created"); }
    if (old && (om & FILE_FLAG_FIRST_PIPE_INSTANCE)) { SetLastError(ERROR_ACCESS_DENIED); return INVALID_HANDLE_VALUE; }
    if (old) { SetLastError(ERROR_PIPE_BUSY); return INVALID_HANDLE_VALUE; }
    W->pipes.emplace_back(new Pipe); Pipe *p = W->pipes.back().get();
    p->name = name; p->openMode = om; p->pipeMode = pm; p->maxInst = maxInst; p->serverPid = curProc()->pid;
    p->cap[0] = std::max<DWORD>(inSz, 1); p->cap[1] = std::max<DWORD>(outSz, 1);
    captureSd(p, sa);
    PipeEnd *e = new PipeEnd; e->pipe = p; e->server = true; e->overlapped = om & FILE_FLAG_OVERLAPPED; e->canRead = om & PIPE_ACCESS_INBOUND; e->canWrite = om & PIPE_ACCESS_OUTBOUND; e->ownerPid = curProc()->pid;
    p->srv = e; return curProc()->add(e, sa && sa->bInheritHandle);
}
HANDLE CreateFileW(LPCWSTR name, DWORD acc, DWORD, LPSECURITY_ATTRIBUTES sa, DWORD, DWORD flags, HANDLE) {
    API("CreateFile");
    std::wstring n(name); std::wstring up = n; for (auto &c : up) if (c >= 'a' && c <= 'z') c -= 32;
    if (up == L"CONOUT$" || up == L"CONIN$") {
        Console *c = curProc()->console; if (!c) { SetLastError(ERROR_INVALID_HANDLE); return INVALID_HANDLE_VALUE; }
        return curProc()->add(up == L"CONIN$" ? (Obj *)c->in : (Obj *)c->active, sa && sa->bInheritHandle);
    }
    if (up == L"\\\\.\\PIPE\\DEBUGSERVER") {
        if (!(flags & SECURITY_SQOS_PRESENT) || (flags & 0x30000) > SECURITY_IDENTIFICATION) W->noteBad("the debug server may impersonate its client"); int m = W->debugServer; if (m == 6) return dbgOpen(); if (m == 0) { SetLastError(ERROR_FILE_NOT_FOUND); return INVALID_HANDLE_VALUE; } if (m == 4) { SetLastError(ERROR_ACCESS_DENIED); return INVALID_HANDLE_VALUE; }
        if (m == 5 || (m == 2 && W->debugBusy++ % 3 != 2)) { SetLastError(ERROR_PIPE_BUSY); return INVALID_HANDLE_VALUE; } Token *t = new Token; HANDLE h = curProc()->add(t, false); W->debugHandles.insert(t); SetLastError(4321); return h;
    }
    FAULT("CreateFile", INVALID_HANDLE_VALUE);
    Pipe *p = W->findPipe(n);
    if (!p || !p->srv || p->srvClosed) { SetLastError(ERROR_FILE_NOT_FOUND); return INVALID_HANDLE_VALUE; }
    if (p->connected) { SetLastError(ERROR_PIPE_BUSY); return INVALID_HANDLE_VALUE; }
    bool wantR = acc & (GENERIC_READ | GENERIC_ALL), wantW = acc & (GENERIC_WRITE | GENERIC_ALL);
    if ((wantR && !(p->openMode & PIPE_ACCESS_OUTBOUND)) || (wantW && !(p->openMode & PIPE_ACCESS_INBOUND))) { SetLastError(ERROR_ACCESS_DENIED); return INVALID_HANDLE_VALUE; }
    PipeEnd *e = new PipeEnd; e->pipe = p; e->server = false; e->overlapped = flags & FILE_FLAG_OVERLAPPED; e->canRead = wantR; e->canWrite = wantW; e->ownerPid = curProc()->pid;
    p->cli = e; p->connected = p->everConnected = true; p->clientPid = curProc()->pid; p->cliFlags = flags; HANDLE h = curProc()->add(e, sa && sa->bInheritHandle);
    if (!W->manualIo) W->pump(p);
    return h;
}
HANDLE CreateFileA(LPCSTR n, DWORD a, DWORD b, LPSECURITY_ATTRIBUTES c, DWORD d, DWORD e, HANDLE f) { return CreateFileW(widen(n).c_str(), a, b, c, d, e, f); }

static Io *newIo(PipeEnd *e, Io::Op op, OVERLAPPED *ov) {
    W->iolist.emplace_back(new Io); Io *io = W->iolist.back().get(); io->end = e; io->op = op; io->ov = ov; e->ios.push_back(io);
    Obj *o = curProc()->get(ov->hEvent); io->ev = o && o->kind == kEvent ? (Event *)o : nullptr;
    if (!io->ev) W->noteBad("overlapped I/O without a valid event");
    ov->Internal = STATUS_PENDING; ov->InternalHigh = 0; if (io->ev) io->ev->signaled = false;
    for (Io *x : e->ios) if (x != io && !x->done && x->ov == ov) W->noteBad("OVERLAPPED structure reused while an operation that uses it is outstanding");
    for (auto &x : W->iolist) if (x.get() != io && !x->done && x->ev && x->ev == io->ev) W->noteBad("one event shared by two outstanding overlapped operations");
    return io;
}
static BOOL immediate(OVERLAPPED *ov, DWORD n, LPDWORD actual) {
    if (ov) { ov->Internal = 0; ov->InternalHigh = n; Obj *o = curProc()->get(ov->hEvent); if (o && o->kind == kEvent) ((Event *)o)->signaled = true; }
    if (actual) *actual = n;
    return TRUE;
}
static BOOL failIo(OVERLAPPED *ov, DWORD err, LPDWORD actual) { (void)ov; if (actual) *actual = 0; SetLastError(err); return FALSE; }

BOOL ConnectNamedPipe(HANDLE h, LPOVERLAPPED ov) {
    API("ConnectNamedPipe"); FAULT("ConnectNamedPipe", FALSE); if (DbgEnd *d = dbgEnd(h)) return dbgConnect(d);
    PipeEnd *e = pipeEnd(h); if (!e || !e->server) { W->noteBad("ConnectNamedPipe on a bad handle"); SetLastError(ERROR_INVALID_HANDLE); return FALSE; }
    if (e->pipe->cliClosed) { SetLastError(ERROR_NO_DATA); return FALSE; }
    if (e->pipe->connected) { SetLastError(ERROR_PIPE_CONNECTED); return FALSE; }
    if (!e->overlapped || !ov) { Pipe *p = e->pipe; blockUntil("ConnectNamedPipe", [p]() { return p->connected; }); return TRUE; }
    newIo(e, Io::Connect, ov);
    SetLastError(ERROR_IO_PENDING); return FALSE;
}
BOOL DisconnectNamedPipe(HANDLE h) { API("DisconnectNamedPipe"); if (DbgEnd *d = dbgEnd(h)) return dbgDisconnect(d); PipeEnd *e = pipeEnd(h); if (!e) { SetLastError(ERROR_INVALID_HANDLE); return FALSE; } e->pipe->q[0].clear(); e->pipe->q[1].clear(); e->pipe->srvClosed = true; W->pump(e->pipe); return TRUE; }
BOOL WaitNamedPipeW(LPCWSTR n, DWORD t) { API("WaitNamedPipe"); if (W->debugServer == 6 && isDbgName(n)) return dbgWait(t); if (W->debugServer == 2) return TRUE; SetLastError(ERROR_FILE_NOT_FOUND); return FALSE; }
BOOL SetNamedPipeHandleState(HANDLE h, LPDWORD m, LPDWORD, LPDWORD) { API("SetNamedPipeHandleState"); if (DbgEnd *d = dbgEnd(h)) { DbgPipe &q = W->dbg; if (!d->server && q.cli != d) { SetLastError(ERROR_PIPE_NOT_CONNECTED); return FALSE; } bool mm = m && *m & PIPE_READMODE_MESSAGE; if (mm && !(q.sd.pipeMode & PIPE_TYPE_MESSAGE)) { SetLastError(ERROR_INVALID_PARAMETER); return FALSE; } (d->server ? q.srvMsgRead : q.msgRead) = mm; return TRUE; } if (W->debugServer == 3) { SetLastError(ERROR_BROKEN_PIPE); return FALSE; } return TRUE; }
std::function<BOOL(const std::string &, std::string &)> g_transact;
BOOL TransactNamedPipe(HANDLE h, LPVOID in, DWORD n, LPVOID out, DWORD m, LPDWORD got, LPOVERLAPPED) {
    API("TransactNamedPipe"); if (DbgEnd *d = dbgEnd(h)) return dbgTransact(d, in, n, out, m, got); NoTrack nt; Obj *o = curProc()->get(h); if (!o || !W->debugHandles.count(o)) { W->noteBad("TransactNamedPipe on a bad handle"); SetLastError(ERROR_INVALID_HANDLE); return FALSE; } if (W->debugServer == 3) { SetLastError(ERROR_BROKEN_PIPE); return FALSE; }
    W->traced.push_back(std::to_string(curProc()->pid) + ":" + std::string((const char *)in, n)); if (m >= 2) memcpy(out, "OK", 2); *got = 2; SetLastError(1234); return TRUE;
}
BOOL PeekNamedPipe(HANDLE h, LPVOID, DWORD, LPDWORD, LPDWORD av, LPDWORD) { API("PeekNamedPipe"); PipeEnd *e = pipeEnd(h); if (!e) { SetLastError(ERROR_INVALID_HANDLE); return FALSE; } if (av) *av = e->pipe->q[e->server ? 0 : 1].size(); return TRUE; }
BOOL FlushFileBuffers(HANDLE h) {
    API("FlushFileBuffers"); if (DbgEnd *e = dbgEnd(h)) { DbgPipe &d = W->dbg; int k = e->server ? 1 : 0; blockUntil("FlushFileBuffers", [&d, k]() { return d.q[k].empty() || d.st != DbgPipe::Connected; }); }
    return TRUE;
}

BOOL ReadFile(HANDLE h, LPVOID buf, DWORD size, LPDWORD actual, LPOVERLAPPED ov) {
    API("ReadFile"); if (DbgEnd *d = dbgEnd(h)) return dbgRead(d, buf, size, actual);
    PipeEnd *e = pipeEnd(h); if (!e) { W->noteBad("ReadFile on an invalid handle"); return failIo(ov, ERROR_INVALID_HANDLE, actual); }
    if (!e->canRead) { W->noteBad("ReadFile on a write-only pipe"); return failIo(ov, ERROR_ACCESS_DENIED, actual); }
    if (e->overlapped && !ov) { W->noteBad("ReadFile on an overlapped handle without OVERLAPPED"); return failIo(ov, ERROR_INVALID_PARAMETER, actual); }
    if (W->fault) { DWORD er = W->fault("ReadFile"); if (er) return failIo(ov, er, actual); }
    Pipe *p = e->pipe; int d = e->server ? 0 : 1; bool otherClosed = e->server ? p->cliClosed : p->srvClosed;
    if (e->server && !p->connected) return failIo(ov, ERROR_PIPE_LISTENING, actual);
    if (ov) { Obj *o = curProc()->get(ov->hEvent); if (o && o->kind == kEvent) ((Event *)o)->signaled = false; }
    bool earlierPending = false; for (Io *x : e->ios) if (!x->done && x->op == Io::Read) earlierPending = true;
    size_t avail = p->q[d].size();
    if (!e->overlapped) { blockUntil("ReadFile", [p, d, e]() { return !p->q[d].empty() || (e->server ? p->cliClosed : p->srvClosed); }); avail = p->q[d].size(); otherClosed = e->server ? p->cliClosed : p->srvClosed; }
    if (avail == 0 && otherClosed && !earlierPending) return failIo(ov, ERROR_BROKEN_PIPE, actual);
    if (avail > 0 && !earlierPending) {
        int n = (int)std::min<size_t>(avail, size);
        if (W->ioPolicy && e->overlapped) n = W->ioPolicy(e, true, size, avail);
        if (n >= 0) { memcpy(buf, p->q[d].data(), n); p->q[d].erase(0, n); if (!W->manualIo) W->pump(p); return immediate(ov, n, actual); }
    }
    Io *io = newIo(e, Io::Read, ov); io->buf = (char *)buf; io->size = size;
    SetLastError(ERROR_IO_PENDING); return FALSE;
}
BOOL WriteFile(HANDLE h, LPCVOID buf, DWORD size, LPDWORD actual, LPOVERLAPPED ov) {
    API("WriteFile"); if (DbgEnd *d = dbgEnd(h)) return dbgWrite(d, buf, size, actual);
    Obj *ob = curProc()->get(h);
    if (ob && ob->kind == kScreen) { std::wstring s; for (DWORD i = 0; i < size; i++) s += (wchar_t)(unsigned char)((const char *)buf)[i]; ScreenBuffer *b = (ScreenBuffer *)ob; b->con->writeText(b, s); if (actual) *actual = size; return TRUE; }
    PipeEnd *e = pipeEnd(h); if (!e) { W->noteBad("WriteFile on an invalid handle"); return failIo(ov, ERROR_INVALID_HANDLE, actual); }
    if (!e->canWrite) { W->noteBad("WriteFile on a read-only pipe"); return failIo(ov, ERROR_ACCESS_DENIED, actual); }
    if (e->overlapped && !ov) { W->noteBad("WriteFile on an overlapped handle without OVERLAPPED"); return failIo(ov, ERROR_INVALID_PARAMETER, actual); }
    if (W->fault) { DWORD er = W->fault("WriteFile"); if (er) return failIo(ov, er, actual); }
    Pipe *p = e->pipe; int d = e->server ? 1 : 0; bool otherClosed = e->server ? p->cliClosed : p->srvClosed;
    if (e->server && !p->connected) return failIo(ov, ERROR_PIPE_LISTENING, actual);
    if (otherClosed) return failIo(ov, ERROR_NO_DATA, actual);
    if (ov) { Obj *o = curProc()->get(ov->hEvent); if (o && o->kind == kEvent) ((Event *)o)->signaled = false; }
    bool earlierPending = false; for (Io *x : e->ios) if (!x->done && x->op == Io::Write) earlierPending = true;
    size_t space = p->cap[d] > p->q[d].size() ? p->cap[d] - p->q[d].size() : 0;
    if (!earlierPending && size <= space) {
        int n = size; if (W->ioPolicy && e->overlapped) n = W->ioPolicy(e, false, size, space);
        if (n >= 0) { p->q[d].append((const char *)buf, n); p->everWritten[d].append((const char *)buf, n); if (!W->manualIo) W->pump(p); return immediate(ov, n, actual); }
    }
    if (!e->overlapped) {
        std::string data((const char *)buf, size); size_t off = 0;
        while (off < size) { blockUntil("WriteFile", [p, d, e]() { return p->q[d].size() < p->cap[d] || (e->server ? p->cliClosed : p->srvClosed); }); if (e->server ? p->cliClosed : p->srvClosed) return failIo(ov, ERROR_NO_DATA, actual); size_t n = std::min(size - off, p->cap[d] - p->q[d].size()); p->q[d].append(data, off, n); p->everWritten[d].append(data, off, n); off += n; W->pump(p); }
        return immediate(ov, size, actual);
    }
    Io *io = newIo(e, Io::Write, ov); io->wdata.assign((const char *)buf, size); io->buf = (char *)buf; io->size = size;
    if (!W->manualIo) { W->pump(p); if (io->done) { // the OS still reported PENDING
        } }
    SetLastError(ERROR_IO_PENDING); return FALSE;
}
static void cancelOne(Io *io) {
    if (io->done) return;
    int c = W->cancelPolicy ? W->cancelPolicy(io) : 0;
    io->cancelRequested = true;
    if (c == 0) W->complete(io, ERROR_OPERATION_ABORTED, 0);
    else if (c == 2 && io->op == Io::Connect) W->complete(io, 0, 0);
}
BOOL CancelIo(HANDLE h) {
    API("CancelIo");
    PipeEnd *e = pipeEnd(h); if (!e) { W->noteBad("CancelIo on an invalid handle"); SetLastError(ERROR_INVALID_HANDLE); return FALSE; }
    for (Io *io : std::vector<Io *>(e->ios)) cancelOne(io);
    return TRUE;
}
BOOL CancelIoEx(HANDLE h, LPOVERLAPPED ov) {
    API("CancelIo");
    PipeEnd *e = pipeEnd(h); if (!e) { W->noteBad("CancelIoEx on an invalid handle"); SetLastError(ERROR_INVALID_HANDLE); return FALSE; }
    bool any = false; for (Io *io : std::vector<Io *>(e->ios)) if (!io->done && (!ov || io->ov == ov)) { any = true; cancelOne(io); }
    if (!any) { SetLastError(ERROR_NOT_FOUND); return FALSE; }
    return TRUE;
}
BOOL GetOverlappedResult(HANDLE h, LPOVERLAPPED ov, LPDWORD n, BOOL wait) {
    API("GetOverlappedResult");
    PipeEnd *e = pipeEnd(h); if (!e) { W->noteBad("GetOverlappedResult on an invalid handle"); SetLastError(ERROR_INVALID_HANDLE); return FALSE; }
    Io *io = nullptr; for (Io *x : e->ios) if (x->ov == ov && !x->observed) io = x;
    if (!io) { *n = ov->InternalHigh; if (ov->Internal == STATUS_PENDING) { SetLastError(ERROR_IO_INCOMPLETE); return FALSE; } return TRUE; }
    if (!io->done && !wait) { SetLastError(ERROR_IO_INCOMPLETE); return FALSE; }
    if (!io->done && io->cancelRequested) W->complete(io, ERROR_OPERATION_ABORTED, 0);
    if (!io->done) blockUntil("GetOverlappedResult", [io]() { return io->done; });
    io->observed = true; *n = io->n;
    DWORD err = io->err; e->ios.erase(std::remove(e->ios.begin(), e->ios.end(), io), e->ios.end());
    if (err) { SetLastError(err); return FALSE; }
    return TRUE;
}
BOOL GetNamedPipeClientProcessId(HANDLE h, PULONG pid) { API("GetNamedPipeClientProcessId"); FAULT("GetNamedPipeClientProcessId", FALSE); PipeEnd *e = pipeEnd(h); if (!e || !e->server) { SetLastError(ERROR_INVALID_HANDLE); return FALSE; } *pid = e->pipe->clientPid; return TRUE; }

// ---------------------------------------------------------------- processes & modules
BOOL CreateProcessW(LPCWSTR app, LPWSTR cmd, LPSECURITY_ATTRIBUTES, LPSECURITY_ATTRIBUTES, BOOL inh, DWORD flags, LPVOID env, LPCWSTR cwd, LPSTARTUPINFOW si, LPPROCESS_INFORMATION pi) {
    API("CreateProcess");
    CreateProcessRec r; r.appNull = !app; if (app) r.app = app; r.cmdNull = !cmd; if (cmd) r.cmd = cmd; r.inherit = inh; r.flags = flags; r.envNull = !env;
    if (env && (flags & CREATE_UNICODE_ENVIRONMENT)) { const wchar_t *p = (const wchar_t *)env; const wchar_t *s = p; if (!*p) p++; else while (*p) { while (*p) p++; p++; } p++; r.env.assign(s, p); }
    r.cwdNull = !cwd; if (cwd) r.cwd = cwd; r.desktopNull = !si->lpDesktop; if (si->lpDesktop) r.desktop = si->lpDesktop; r.si = *si; r.creator = curProc();
    r.creatorStation = r.creator->winsta->name;
    for (auto &kv : r.creator->table) if (r.creator->inherit[kv.first]) r.inheritable.push_back(kv.second);
    if (cmd && *cmd) { wchar_t c = cmd[0]; cmd[0] = L'#'; cmd[0] = c; } // CreateProcessW may write to lpCommandLine
    if (W->fault) { DWORD e = W->fault("CreateProcess"); if (e) { r.error = e; W->created.push_back(r); SetLastError(e); return FALSE; } }
    Process *p = W->newProcess(app ? app : L"C:\\child.exe", nullptr); p->cmdline = r.cmd; r.proc = p;
    if (!(flags & (DETACHED_PROCESS | CREATE_NEW_CONSOLE))) { p->console = r.creator->console; if (p->console) p->console->procs.push_back(p->pid); }
    if (W->onCreateProcess && !W->onCreateProcess(r)) {
        if (p->console) { auto &v = p->console->procs; v.erase(std::remove(v.begin(), v.end(), p->pid), v.end()); }
        p->exited = true; r.proc = nullptr; if (!r.error) r.error = ERROR_FILE_NOT_FOUND; W->created.push_back(r); SetLastError(r.error); return FALSE;
    }
    Thread *t = new Thread; t->proc = p; t->tid = W->nextTid; W->nextTid += 4;
    pi->dwProcessId = p->pid; pi->dwThreadId = t->tid; pi->hProcess = curProc()->add(p); pi->hThread = curProc()->add(t);
    W->created.push_back(r); return TRUE;
}
BOOL TerminateProcess(HANDLE h, UINT c) { API("TerminateProcess"); Process *p = procOf(h); if (!p) { SetLastError(ERROR_INVALID_HANDLE); return FALSE; } W->exitProcess(p, c); if (p == curProc()) killCurrentFiber("TerminateProcess"); return TRUE; }
void ExitProcess(UINT c) { __wrap_exit(c); }
BOOL GetExitCodeProcess(HANDLE h, LPDWORD c) { API("GetExitCodeProcess"); Process *p = procOf(h); if (!p) { SetLastError(ERROR_INVALID_HANDLE); return FALSE; } *c = p->exitCode; return TRUE; }
DWORD GetProcessId(HANDLE h) { Process *p = procOf(h); return p ? p->pid : 0; }
HANDLE OpenProcess(DWORD, BOOL, DWORD pid) { API("OpenProcess"); for (Process *p : W->procs) if (p->pid == pid && !p->exited) return curProc()->add(p); SetLastError(ERROR_INVALID_PARAMETER); return nullptr; }
LPWSTR GetCommandLineW() { return (LPWSTR)curProc()->cmdline.c_str(); }
DWORD GetEnvironmentVariableA(LPCSTR n, LPSTR b, DWORD sz) { API("GetEnvironmentVariable"); auto &m = curProc()->env; auto it = m.find(n); if (it == m.end()) { SetLastError(203); return 0; } if (it->second.size() + 1 > sz) { static const char junk[] = ",trace,"; for (DWORD i = 0; i + 1 < sz; i++) b[i] = junk[i % 7]; if (sz) b[sz - 1] = 0; SetLastError(ERROR_INSUFFICIENT_BUFFER); return it->second.size() + 1; } strcpy(b, it->second.c_str()); SetLastError(7777); return it->second.size(); }
DWORD GetEnvironmentVariableW(LPCWSTR, LPWSTR, DWORD) { SetLastError(203); return 0; }
HLOCAL LocalAlloc(UINT f, SIZE_T n) { API("LocalAlloc"); FAULT("LocalAlloc", nullptr); if (counted()) W->openLocalAllocs++; void *p = malloc(n); if (f & LPTR) memset(p, 0, n); return p; }
HLOCAL LocalFree(HLOCAL p) { API("LocalFree"); if (p) { if (counted()) W->openLocalAllocs--; free(p); } return nullptr; }

// Microsoft's documented argument parsing rules (CommandLineToArgvW).
LPWSTR *CommandLineToArgvW(LPCWSTR cl, int *argc) {
    API("CommandLineToArgvW");
    std::vector<std::wstring> out; const wchar_t *p = cl; std::wstring a;
    if (*p == L'"') { p++; while (*p && *p != L'"') a += *p++; if (*p) p++; } else while (*p && *p != L' ' && *p != L'\t') a += *p++;
    out.push_back(a);
    for (;;) {
        while (*p == L' ' || *p == L'\t') p++;
        if (!*p) break;
        a.clear(); bool q = false;
        while (*p && (q || (*p != L' ' && *p != L'\t'))) {
            if (*p == L'\\') { size_t n = 0; while (*p == L'\\') { n++; p++; } if (*p == L'"') { a.append(n / 2, L'\\'); if (n & 1) { a += L'"'; p++; } else { /* quote handled below */ } } else a.append(n, L'\\'); }
            else if (*p == L'"') { p++; if (q && *p == L'"') { a += L'"'; p++; q = false; } else q = !q; }
            else a += *p++;
        }
        out.push_back(a);
    }
    size_t bytes = (out.size() + 1) * sizeof(wchar_t *); for (auto &s : out) bytes += (s.size() + 1) * sizeof(wchar_t);
    char *blk = (char *)malloc(bytes); if (counted()) W->openLocalAllocs++; wchar_t **v = (wchar_t **)blk; wchar_t *d = (wchar_t *)(blk + (out.size() + 1) * sizeof(wchar_t *));
    for (size_t i = 0; i < out.size(); i++) { v[i] = d; memcpy(d, out[i].c_str(), (out[i].size() + 1) * sizeof(wchar_t)); d += out[i].size() + 1; }
    v[out.size()] = nullptr; *argc = out.size(); return v;
}
HMODULE GetModuleHandleW(LPCWSTR) { return (HMODULE)0x400000; }
BOOL GetModuleHandleExW(DWORD, LPCWSTR, HMODULE *m) { *m = (HMODULE)0x10000000; return TRUE; }
DWORD GetModuleFileNameW(HMODULE m, LPWSTR b, DWORD n) { API("GetModuleFileName"); std::wstring s = m == (HMODULE)0x10000000 ? W->dllPath : curProc()->modulePath; if (s.size() + 1 > n) return n; memcpy(b, s.c_str(), (s.size() + 1) * 2); return s.size(); }
DWORD GetModuleFileNameA(HMODULE, LPSTR b, DWORD n) { std::string s = narrow(curProc()->modulePath); if (s.size() + 1 > n) return n; strcpy(b, s.c_str()); return s.size(); }
DWORD GetFileAttributesW(LPCWSTR n) { API("GetFileAttributes"); if (W->fileExists && !W->fileExists(n)) { SetLastError(ERROR_FILE_NOT_FOUND); return INVALID_FILE_ATTRIBUTES; } return FILE_ATTRIBUTE_NORMAL; }
UINT GetSystemDirectoryW(LPWSTR b, UINT) { memcpy(b, L"C:\\Windows\\system32", 20 * 2); return 19; }
HMODULE LoadLibraryW(LPCWSTR) { API("LoadLibrary"); if (counted()) W->openModules++; return (HMODULE)0x20000000; }
BOOL FreeLibrary(HMODULE) { API("FreeLibrary"); if (counted()) W->openModules--; return TRUE; }
void OutputDebugStringA(LPCSTR) {} void OutputDebugStringW(LPCWSTR) {} BOOL IsDebuggerPresent() { return FALSE; }
BOOL GetVersionExW(LPOSVERSIONINFOW v) { v->dwMajorVersion = W->major; v->dwMinorVersion = W->minor; v->dwBuildNumber = 1; v->dwPlatformId = 2; if (v->dwOSVersionInfoSize >= sizeof(OSVERSIONINFOEXW)) ((OSVERSIONINFOEXW *)v)->wProductType = 1; return TRUE; }
DWORD GetFileVersionInfoSizeW(LPCWSTR, LPDWORD) { SetLastError(ERROR_FILE_NOT_FOUND); return 0; }
BOOL GetFileVersionInfoW(LPCWSTR, DWORD, DWORD, LPVOID) { return FALSE; } BOOL VerQueryValueW(LPCVOID, LPCWSTR, LPVOID *, PUINT) { return FALSE; }

// ---------------------------------------------------------------- security
struct SimSid { uint32_t magic; BYTE auth[6]; BYTE n; DWORD sub[8]; };
static std::string sidStr(PSID s) { SimSid *x = (SimSid *)s; if (!x || x->magic != 0x51d51d) return "INVALID-SID"; std::string r = "S-1-" + std::to_string((int)x->auth[5]); for (int i = 0; i < x->n; i++) r += "-" + std::to_string(x->sub[i]); return r; }
struct SimAce { DWORD mask; int mode; DWORD inh; char sid[64]; };
struct SimAcl { uint32_t magic; int n; SimAce ace[8]; };
struct SimSd { uint32_t magic; int daclPresent; SimAcl *dacl; };
BOOL OpenThreadToken(HANDLE, DWORD, BOOL, PHANDLE h) { API("OpenThreadToken"); FAULT("OpenThreadToken", FALSE); if (W->impersonating == curProc()) { Token *t = new Token; t->thread = true; *h = curProc()->add(t); return TRUE; } SetLastError(ERROR_NO_TOKEN); return FALSE; }
BOOL OpenProcessToken(HANDLE, DWORD, PHANDLE h) { API("OpenProcessToken"); FAULT("OpenProcessToken", FALSE); *h = curProc()->add(new Token); return TRUE; }
BOOL GetTokenInformation(HANDLE h, TOKEN_INFORMATION_CLASS c, LPVOID b, DWORD n, PDWORD need) {
    API("GetTokenInformation"); FAULT("GetTokenInformation", FALSE);
    Obj *o = curProc()->get(h); if (!o || o->kind != kToken) { W->noteBad("GetTokenInformation on a bad handle"); SetLastError(ERROR_INVALID_HANDLE); return FALSE; }
    *need = sizeof(TOKEN_USER) + sizeof(SimSid); if (n < *need) { SetLastError(ERROR_INSUFFICIENT_BUFFER); return FALSE; }
    SimSid *s = (SimSid *)((char *)b + sizeof(TOKEN_USER)); memset(s, 0, sizeof *s); s->magic = 0x51d51d; s->auth[5] = 5; s->n = 3; s->sub[0] = 21; s->sub[1] = 777; s->sub[2] = c == TokenOwner ? (((Token *)o)->thread ? 1777 : 1001) : 1002; if (c == TokenOwner && W->adminOwner) { s->n = 2; s->sub[0] = 32; s->sub[1] = 544; }
    if (c == TokenOwner) ((TOKEN_OWNER *)b)->Owner = s; else { ((TOKEN_USER *)b)->User.Sid = s; ((TOKEN_USER *)b)->User.Attributes = 0; }
    return TRUE;
}
BOOL AllocateAndInitializeSid(PSID_IDENTIFIER_AUTHORITY a, BYTE n, DWORD s0, DWORD s1, DWORD s2, DWORD s3, DWORD s4, DWORD s5, DWORD s6, DWORD s7, PSID *out) {
    API("AllocateAndInitializeSid"); FAULT("AllocateAndInitializeSid", FALSE);
    SimSid *s = (SimSid *)calloc(1, sizeof(SimSid)); s->magic = 0x51d51d; memcpy(s->auth, a->Value, 6); s->n = n; DWORD v[] = {s0, s1, s2, s3, s4, s5, s6, s7}; memcpy(s->sub, v, sizeof v); *out = s; if (counted()) W->openSids++; return TRUE;
}
PVOID FreeSid(PSID s) { API("FreeSid"); if (counted()) W->openSids--; ((SimSid *)s)->magic = 0; free(s); return nullptr; }
BOOL EqualSid(PSID a, PSID b) { return sidStr(a) == sidStr(b); } DWORD GetLengthSid(PSID) { return sizeof(SimSid); }
BOOL InitializeSecurityDescriptor(PSECURITY_DESCRIPTOR d, DWORD) { API("InitializeSecurityDescriptor"); FAULT("InitializeSecurityDescriptor", FALSE); SimSd *s = (SimSd *)d; s->magic = 0x5d5d5d; s->daclPresent = 0; s->dacl = nullptr; return TRUE; }
BOOL SetSecurityDescriptorDacl(PSECURITY_DESCRIPTOR d, BOOL pr, PACL a, BOOL) { API("SetSecurityDescriptorDacl"); FAULT("SetSecurityDescriptorDacl", FALSE); SimSd *s = (SimSd *)d; s->daclPresent = pr; s->dacl = (SimAcl *)a; return TRUE; }
DWORD SetEntriesInAclW(ULONG n, PEXPLICIT_ACCESSW e, PACL, PACL *out) {
    API("SetEntriesInAcl"); FAULT("SetEntriesInAcl", _e);
    SimAcl *a = (SimAcl *)calloc(1, sizeof(SimAcl)); a->magic = 0xac1ac1; a->n = n; if (counted()) W->openLocalAllocs++;
    for (ULONG i = 0; i < n && i < 8; i++) { a->ace[i].mask = e[i].grfAccessPermissions; a->ace[i].mode = e[i].grfAccessMode; a->ace[i].inh = e[i].grfInheritance; snprintf(a->ace[i].sid, 64, "%s", e[i].Trustee.TrusteeForm == TRUSTEE_IS_SID ? sidStr((PSID)e[i].Trustee.ptstrName).c_str() : "NAME"); }
    *out = (PACL)a; return ERROR_SUCCESS;
}
DWORD GetSecurityInfo(HANDLE, SE_OBJECT_TYPE, SECURITY_INFORMATION, PSID *, PSID *, PACL *, PACL *, PSECURITY_DESCRIPTOR *) { return ERROR_NOT_SUPPORTED; }
static void captureSd(Pipe *p, LPSECURITY_ATTRIBUTES sa) {
    if (!sa || !sa->lpSecurityDescriptor) return;
    SimSd *d = (SimSd *)sa->lpSecurityDescriptor;
    if (d->magic != 0x5d5d5d) { W->noteBad("CreateNamedPipe with an invalid security descriptor"); return; }
    p->hasSd = true; p->nullDacl = !d->daclPresent || !d->dacl; if (p->nullDacl) return;
    if (d->dacl->magic != 0xac1ac1) { W->noteBad("CreateNamedPipe with a freed or invalid DACL"); return; }
    for (int i = 0; i < d->dacl->n; i++) { if (d->dacl->ace[i].mode != GRANT_ACCESS && d->dacl->ace[i].mode != SET_ACCESS) continue; p->aceMask.push_back(d->dacl->ace[i].mask); p->aceSid.push_back(d->dacl->ace[i].sid); }
}
static BOOLEAN rtlGenRandom(PVOID b, ULONG n) { API("RtlGenRandom"); FAULT("RtlGenRandom", 0); for (ULONG i = 0; i < n; i++) { W->randSeed = W->randSeed * 6364136223846793005ull + 1442695040888963407ull; ((BYTE *)b)[i] = W->randSeed >> 56; if (W->onRandom) ((BYTE *)b)[i] ^= W->onRandom(); } return 1; }
BOOL CryptAcquireContextW(HCRYPTPROV *p, LPCWSTR, LPCWSTR, DWORD, DWORD) { API("CryptAcquireContext"); FAULT("CryptAcquireContext", FALSE); *p = 7; if (counted()) W->openCrypt++; return TRUE; }
BOOL CryptReleaseContext(HCRYPTPROV, DWORD) { API("CryptReleaseContext"); if (counted()) W->openCrypt--; return TRUE; }
BOOL CryptGenRandom(HCRYPTPROV, DWORD n, BYTE *b) { API("CryptGenRandom"); FAULT("CryptGenRandom", FALSE); for (DWORD i = 0; i < n; i++) { W->randSeed = W->randSeed * 6364136223846793005ull + 1442695040888963407ull; b[i] = W->randSeed >> 56; if (W->onRandom) b[i] ^= W->onRandom(); } return TRUE; }

extern FARPROC simFontProc(LPCSTR n);
FARPROC GetProcAddress(HMODULE, LPCSTR n) {
    API("GetProcAddress"); SetLastError(ERROR_PROC_NOT_FOUND);
    if (!strcmp(n, "SystemFunction036")) return W->haveRtlGenRandom ? (FARPROC)rtlGenRandom : nullptr;
    if (!strcmp(n, "GetNamedPipeClientProcessId")) return W->haveClientPidApi ? (FARPROC)GetNamedPipeClientProcessId : nullptr;
    return simFontProc(n);
}

// ---------------------------------------------------------------- window stations & desktops
HWINSTA GetProcessWindowStation() { API("GetProcessWindowStation"); FAULT("GetProcessWindowStation", nullptr); return (HWINSTA)curProc()->winsta; }
HWINSTA CreateWindowStationW(LPCWSTR, DWORD, DWORD, LPSECURITY_ATTRIBUTES) { API("CreateWindowStation"); FAULT("CreateWindowStation", nullptr); WinSta *w = new WinSta; w->name = L"Service-0x0-" + widen(std::to_string(++W->winstaCounter)) + L"$"; w->handles = 1; if (counted()) W->openStations++; return (HWINSTA)w; }
BOOL SetProcessWindowStation(HWINSTA h) { API("SetProcessWindowStation"); WinSta *w = (WinSta *)h; if (w != W->winsta0) FAULT("SetProcessWindowStation", FALSE); /* going back to the original one cannot fail */ if (w != W->winsta0 && w->handles <= 0) { W->noteBad("SetProcessWindowStation with a closed window station"); SetLastError(ERROR_INVALID_HANDLE); return FALSE; } curProc()->winsta = w; return TRUE; }
BOOL CloseWindowStation(HWINSTA h) { API("CloseWindowStation"); WinSta *w = (WinSta *)h; if (w == W->winsta0) { W->noteBad("the original window station was closed"); return FALSE; } if (w->handles <= 0) { W->noteBad("window station closed twice"); return FALSE; } if (curProc()->winsta == w) { W->noteBad("the current window station was closed while in use"); SetLastError(ERROR_ACCESS_DENIED); return FALSE; } w->handles--; if (counted()) W->openStations--; return TRUE; }
HDESK GetThreadDesktop(DWORD) { API("GetThreadDesktop"); FAULT("GetThreadDesktop", nullptr); return (HDESK)curProc()->desktop; }
HDESK CreateDesktopW(LPCWSTR n, LPCWSTR, void *, DWORD, DWORD, LPSECURITY_ATTRIBUTES) { API("CreateDesktop"); FAULT("CreateDesktop", nullptr); Desktop *d = new Desktop; d->name = n; d->ws = curProc()->winsta; d->handles = 1; if (counted()) W->openStations++; return (HDESK)d; }
BOOL CloseDesktop(HDESK h) { API("CloseDesktop"); Desktop *d = (Desktop *)h; if (d == W->desk0) { W->noteBad("the original desktop was closed"); return FALSE; } if (d->handles <= 0) { W->noteBad("desktop closed twice"); return FALSE; } d->handles--; if (counted()) W->openStations--; return TRUE; }
BOOL SetThreadDesktop(HDESK h) { API("SetThreadDesktop"); curProc()->desktop = (Desktop *)h; return TRUE; }
BOOL GetUserObjectInformationW(HANDLE h, int, PVOID b, DWORD n, LPDWORD need) {
    API("GetUserObjectInformation"); FAULT("GetUserObjectInformation", FALSE);
    Obj *o = (Obj *)h; std::wstring s = o->kind == kWinSta ? ((WinSta *)o)->name : ((Desktop *)o)->name; DWORD nb = (s.size() + 1) * 2;
    if (need) *need = nb;
    if (n < nb) { SetLastError(ERROR_INSUFFICIENT_BUFFER); return FALSE; }
    memcpy(b, s.c_str(), nb); return TRUE;
}

// ---------------------------------------------------------------- strings
int WideCharToMultiByte(UINT cp, DWORD flags, LPCWSTR s, int n, LPSTR d, int dn, LPCSTR, LPBOOL) {
    size_t len = n < 0 ? wcslen(s) + 1 : n; std::string o;
    if (len == 0) { SetLastError(ERROR_INVALID_PARAMETER); return 0; }
    for (size_t i = 0; i < len; i++) {
        uint32_t c = (uint16_t)s[i];
        if (cp != CP_UTF8) { o += c < 128 ? (char)c : '?'; continue; }
        if (c >= 0xD800 && c < 0xDC00 && i + 1 < len && (uint16_t)s[i + 1] >= 0xDC00 && (uint16_t)s[i + 1] < 0xE000) { c = 0x10000 + ((c - 0xD800) << 10) + ((uint16_t)s[++i] - 0xDC00); }
        else if (c >= 0xD800 && c < 0xE000) { if (flags & WC_ERR_INVALID_CHARS) return 0; c = 0xFFFD; }
        if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
    }
    if (dn == 0) return o.size();
    if ((size_t)dn < o.size()) { SetLastError(ERROR_INSUFFICIENT_BUFFER); return 0; }
    memcpy(d, o.data(), o.size()); return o.size();
}
int MultiByteToWideChar(UINT, DWORD, LPCSTR s, int n, LPWSTR d, int dn) {
    size_t len = n < 0 ? strlen(s) + 1 : n; std::wstring o; const unsigned char *p = (const unsigned char *)s;
    for (size_t i = 0; i < len;) { uint32_t c = p[i]; int k = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; if (i + k > len) { o += (wchar_t)0xFFFD; break; } if (k == 2) c = (c & 31) << 6 | (p[i + 1] & 63); else if (k == 3) c = (c & 15) << 12 | (p[i + 1] & 63) << 6 | (p[i + 2] & 63); else if (k == 4) c = (c & 7) << 18 | (p[i + 1] & 63) << 12 | (p[i + 2] & 63) << 6 | (p[i + 3] & 63); i += k; if (c < 0x10000) o += (wchar_t)c; else { c -= 0x10000; o += (wchar_t)(0xD800 + (c >> 10)); o += (wchar_t)(0xDC00 + (c & 0x3ff)); } }
    if (dn == 0) return o.size();
    if ((size_t)dn < o.size()) { SetLastError(ERROR_INSUFFICIENT_BUFFER); return 0; }
    memcpy(d, o.data(), o.size() * 2); return o.size();
}

// 2-byte wide-character C library
extern "C" {
size_t wcslen(const wchar_t *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t wcsnlen(const wchar_t *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int wcscmp(const wchar_t *a, const wchar_t *b) { while (*a && *a == *b) a++, b++; return (int)(uint16_t)*a - (int)(uint16_t)*b; }
int wcsncmp(const wchar_t *a, const wchar_t *b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (int)(uint16_t)*a - (int)(uint16_t)*b : 0; }
wchar_t *wcscpy(wchar_t *d, const wchar_t *s) { wchar_t *r = d; while ((*d++ = *s++)) {} return r; }
wchar_t *wcsncpy(wchar_t *d, const wchar_t *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
wchar_t *wcscat(wchar_t *d, const wchar_t *s) { wcscpy(d + wcslen(d), s); return d; }
wchar_t *wmemcpy(wchar_t *d, const wchar_t *s, size_t n) { return (wchar_t *)memcpy(d, s, n * sizeof(wchar_t)); }
wchar_t *wmemmove(wchar_t *d, const wchar_t *s, size_t n) { return (wchar_t *)memmove(d, s, n * sizeof(wchar_t)); }
wchar_t *wmemset(wchar_t *d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
int wmemcmp(const wchar_t *a, const wchar_t *b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return (uint16_t)a[i] < (uint16_t)b[i] ? -1 : 1; return 0; }
}
// the C++ declarations of these are overloaded on const; provide the plain symbols
extern "C" wchar_t *sim_wcschr(const wchar_t *s, wchar_t c) asm("wcschr"); extern "C" wchar_t *sim_wcschr(const wchar_t *s, wchar_t c) { for (;; s++) { if (*s == c) return (wchar_t *)s; if (!*s) return nullptr; } }
extern "C" wchar_t *sim_wcsrchr(const wchar_t *s, wchar_t c) asm("wcsrchr"); extern "C" wchar_t *sim_wcsrchr(const wchar_t *s, wchar_t c) { const wchar_t *r = nullptr; for (;; s++) { if (*s == c) r = s; if (!*s) return (wchar_t *)r; } }
extern "C" wchar_t *sim_wmemchr(const wchar_t *s, wchar_t c, size_t n) asm("wmemchr"); extern "C" wchar_t *sim_wmemchr(const wchar_t *s, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) if (s[i] == c) return (wchar_t *)s + i; return nullptr; }
extern "C" wchar_t *sim_wcsstr(const wchar_t *h, const wchar_t *n) asm("wcsstr"); extern "C" wchar_t *sim_wcsstr(const wchar_t *h, const wchar_t *n) { size_t l = wcslen(n); for (; ; h++) { if (!wcsncmp(h, n, l)) return (wchar_t *)h; if (!*h) return nullptr; } }

// ---- slack: functions the code does not call today
DWORD GetFileType(HANDLE h) { API("GetFileType"); if (pipeEnd(h) || dbgEnd(h)) return FILE_TYPE_PIPE; Obj *o = curProc()->get(h); if (!o) { SetLastError(ERROR_INVALID_HANDLE); return FILE_TYPE_UNKNOWN; } return FILE_TYPE_CHAR; }
HANDLE GetProcessHeap() { return (HANDLE)0x770000; } LPVOID HeapAlloc(HANDLE, DWORD f, SIZE_T n) { void *p = LocalAlloc(f & 8 ? LPTR : 0, n); return p; } BOOL HeapFree(HANDLE, DWORD, LPVOID p) { LocalFree(p); return TRUE; }
LPVOID GlobalAlloc(UINT f, SIZE_T n) { return LocalAlloc(f, n); } LPVOID GlobalFree(LPVOID p) { return LocalFree(p); }
HANDLE CreateMutexW(LPSECURITY_ATTRIBUTES sa, BOOL own, LPCWSTR n) { return CreateEventW(sa, FALSE, !own, n); } BOOL ReleaseMutex(HANDLE h) { return SetEvent(h); }
