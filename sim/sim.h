// The simulated Win32 world: kernel objects, pipes, consoles, processes, a
// virtual clock and cooperative fibers.  One World exists per execution; the
// harness owns every source of nondeterminism through the hooks below.
#pragma once
#include <windows.h>
#include <stdint.h>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>

namespace sim {

struct Process; struct Console; struct Pipe; struct Fiber; struct World;
extern World *W;
void simFlush(struct Process *p); // flushes stdout of a simulated process

enum Kind { kEvent, kProcess, kThread, kPipeEnd, kScreen, kConIn, kToken, kWinSta, kDesktop, kFile };
struct Obj { Kind kind; int handles = 0; bool dead = false; explicit Obj(Kind k); virtual ~Obj() {} };
struct Event : Obj { bool manual = true, signaled = false; Event() : Obj(kEvent) {} };
struct Token : Obj { bool thread = false; Token() : Obj(kToken) {} };
struct WinSta : Obj { std::wstring name; WinSta() : Obj(kWinSta) {} };
struct Desktop : Obj { std::wstring name; WinSta *ws = nullptr; Desktop() : Obj(kDesktop) {} };
struct Thread : Obj { Process *proc = nullptr; DWORD tid = 0; bool exited = false; Thread() : Obj(kThread) {} };

struct Process : Obj {
    DWORD pid = 0; bool exited = false; DWORD exitCode = STILL_ACTIVE;
    std::wstring app, cmdline, modulePath;
    std::map<uintptr_t, Obj *> table; std::map<uintptr_t, bool> inherit; uintptr_t nextHandle = 0;
    Console *console = nullptr;
    WinSta *winsta = nullptr; Desktop *desktop = nullptr;
    std::map<std::string, std::string> env;
    HANDLE stdh[3] = {nullptr, nullptr, nullptr};
    bool ignoreCtrlC = false; std::vector<PHANDLER_ROUTINE> ctrlHandlers;
    bool isPseudo = false; bool suspended = false; // suspended: its threads do not run
    Process() : Obj(kProcess) {}
    HANDLE add(Obj *o, bool inheritable = false);
    Obj *get(HANDLE h);
};

// One overlapped operation in flight.
struct PipeEnd;
struct Io {
    PipeEnd *end = nullptr; enum Op { Read, Write, Connect } op = Read;
    char *buf = nullptr; std::string wdata; DWORD size = 0; OVERLAPPED *ov = nullptr; Event *ev = nullptr;
    bool done = false, observed = false, cancelRequested = false; DWORD err = 0, n = 0; size_t off = 0;
};
struct PipeEnd : Obj {
    Pipe *pipe = nullptr; bool server = false; bool overlapped = false; bool canRead = true, canWrite = true;
    bool open = true; std::vector<Io *> ios; DWORD ownerPid = 0;
    PipeEnd() : Obj(kPipeEnd) {}
};
struct Pipe {
    std::wstring name; DWORD openMode = 0, pipeMode = 0, maxInst = 0; 
    size_t cap[2] = {4096, 4096};       // cap[0]: towards the server, cap[1]: towards the client
    std::string q[2];                   // bytes in flight
    std::string everWritten[2];         // log of all accepted bytes
    PipeEnd *srv = nullptr, *cli = nullptr; bool connected = false, everConnected = false;
    bool srvClosed = false, cliClosed = false;
    bool virtualPeer = false;           // the other end is driven by the harness
    DWORD clientPid = 0, serverPid = 0, cliFlags = 0;
    std::vector<ACCESS_MASK> aceMask; std::vector<std::string> aceSid; bool hasSd = false, nullDacl = true;
};

struct Cell { WCHAR ch; WORD attr; };
struct ScreenBuffer : Obj {
    Console *con = nullptr; int w = 80, h = 25; std::vector<CHAR_INFO> cells; COORD cur{0, 0}; SMALL_RECT win{0, 0, 79, 24};
    WORD attr = 7; CONSOLE_CURSOR_INFO ci{25, 1}; DWORD mode = 3; 
    ScreenBuffer() : Obj(kScreen) {}
    CHAR_INFO &at(int x, int y) { return cells[(size_t)y * w + x]; }
    void alloc(int w, int h);
};
struct ConIn : Obj { Console *con = nullptr; ConIn() : Obj(kConIn) {} };
struct Console {
    std::vector<ScreenBuffer *> bufs; ScreenBuffer *primary = nullptr, *active = nullptr; ConIn *in = nullptr;
    DWORD inMode = 0x1f7; std::deque<INPUT_RECORD> input; std::vector<INPUT_RECORD> inputLog;
    std::wstring title; bool frozen = false; COORD markSaved{0, 0}; bool markCursor = false;
    COORD largest{240, 120}; int minCols = 1;
    std::vector<DWORD> procs; bool visible = false; UINT cp = 437, outCp = 437;
    // resizable font emulation
    int fontX = 8, fontY = 16; std::wstring face = L"Consolas";
    int freezeCount = 0; std::vector<std::string> ctrlEvents;
    // everything a program reading this console could observe, in order
    struct Ev { int type; INPUT_RECORD ir; UINT msg; WPARAM wp; LPARAM lp; }; // 0 input record, 1 ctrl event, 2 window key message
    std::vector<Ev> events;
    bool wideChars = false;                                          // East Asian characters take two cells
    int closed = 0, resizes = 0;
    bool blockedForChild() const { return frozen; }                  // programs' console calls wait while a selection is active
    // --- operations performed by programs in the console (callable by the harness)
    void writeText(ScreenBuffer *b, const std::wstring &s);
    void setCursor(ScreenBuffer *b, int x, int y);
    void scrollUp(ScreenBuffer *b, int lines);
    void followCursor(ScreenBuffer *b);
    void clearScreen(ScreenBuffer *b);
    bool resizeBuffer(ScreenBuffer *b, int w, int h);
};

struct CreateProcessRec {
    bool appNull; std::wstring app; bool cmdNull; std::wstring cmd; bool inherit; DWORD flags; bool envNull; std::wstring env;
    bool cwdNull; std::wstring cwd; bool desktopNull; std::wstring desktop; STARTUPINFOW si; Process *creator; Process *proc = nullptr;
    std::vector<Obj *> inheritable; DWORD error = 0; std::wstring creatorStation;
};

// A desktop with limited room and fonts of different sizes (only where a check asks for it).
struct FontModel {
    int screenW = 1024, screenH = 768, minPx = 160; struct Font { std::wstring face = L"Consolas"; COORD cell{8, 16}; int index = 0; int height = 16; unsigned family = 0x36, weight = 400; }; std::map<ScreenBuffer *, Font> fonts;
    std::function<bool(const std::wstring &face, int height, unsigned family, unsigned weight, COORD &cell)> choose;   // false: the font is not available, nothing changes
    std::vector<COORD> xp; std::set<int> stuck, refused; std::string missing; bool refuse = false; int sets = 0;
    Font &of(ScreenBuffer *b) { return fonts[b]; }
    void apply(Console *c);
};
// The pipe of the debug server: one instance, message mode, blocking.
struct DbgPipe {
    Obj *srv = nullptr, *cli = nullptr; Process *server = nullptr, *client = nullptr; enum St { Listening, Connected, Closing, Disconnected } st = Listening; bool connecting = false;
    std::deque<std::string> q[2]; bool msgRead = false, srvMsgRead = false; Pipe sd; uint64_t gen = 0; // q[0]: towards the server
    std::vector<std::pair<DWORD, std::string>> sent, received; std::vector<DWORD> receivedFrom;
};
struct Fiber {
    Process *proc = nullptr; DWORD tid = 0; Thread *thread = nullptr; std::function<void()> body; bool done = false, started = false;
    bool running = false, exited = false; std::string exitWhy; DWORD lastError = 0;
    std::function<bool()> pred; uint64_t deadline = ~0ull; bool blocked = false; const char *where = "";
    void *sp = nullptr; char *stack = nullptr; size_t stackSize = 0; void *eh[2] = {nullptr, nullptr}; void *fakeStack = nullptr;
    int apiDepth = 0; std::vector<void *> waitingFor;
    bool tracking = true;
};

struct World {
    // ---- configuration
    FontModel *fontModel = nullptr;
    int debugServer = 0, debugBusy = 0; std::vector<std::string> traced; std::set<void *> debugHandles; // 0 absent, 1 running, 2 busy for a while, 3 closes at once, 4 refuses, 5 gone while waiting for it
    DbgPipe dbg; std::map<Process *, std::string> outText, errText, outBuf; bool blockingConsoleRead = false; // debugServer == 6: a real one
    DWORD major = 6, minor = 2; bool newConsole = true; bool haveClientPidApi = true, haveRtlGenRandom = true; bool haveFontApi = true;
    std::wstring dllPath = L"C:\\Program Files\\winpty\\winpty.dll";
    uint64_t now = 1000; uint32_t tickBase = 0; uint64_t apiLimit = 400000;
    int titleMode = 2; // 0 = XP, 1 = Vista/7 (byte-count bug), 2 = Windows 8+
    // ---- hooks
    std::function<void(const char *)> onApi;                         // at every API entry
    std::function<void(ScreenBuffer *, int row, int col)> onCells;   // an API call changes a cell
    std::function<DWORD(const char *)> fault;                        // nonzero: fail this call with the error
    std::function<bool(CreateProcessRec &)> onCreateProcess;         // true: success
    std::function<int(PipeEnd *, bool isRead, size_t want, size_t avail)> ioPolicy; // -1 pending, else bytes to move now
    std::function<int(Io *)> cancelPolicy;                           // 0 aborted at once, 1 stays in flight until waited for, 2 had completed
    std::function<bool(const std::wstring &)> fileExists;
    std::function<DWORD(DWORD *, DWORD)> processList;                // override for GetConsoleProcessList
    std::function<void()> schedPoint;                                // preemption point (thread harnesses)
    std::function<Fiber *(std::vector<Fiber *> &)> pick;             // which of the enabled threads runs next
    std::function<BYTE()> onRandom;                                  // changes bytes from the random number generator
    std::function<bool(const std::wstring &)> squatted;              // somebody else owns a pipe of this name
    Process *impersonating = nullptr; bool adminOwner = false;       // whose threads impersonate another user; what the owner in tokens is
    bool manualIo = false;                                           // harness completes pending I/O itself
    // ---- state
    std::vector<std::unique_ptr<Obj>> objs; std::vector<std::unique_ptr<Pipe>> pipes; std::vector<std::unique_ptr<Console>> consoles;
    std::vector<std::unique_ptr<Fiber>> fibers; std::vector<std::unique_ptr<Io>> iolist; std::vector<Process *> procs;
    Fiber *cur = nullptr; uint64_t apiCalls = 0; DWORD nextPid = 1000, nextTid = 5000; uint64_t randSeed = 1;
    std::vector<std::string> bad;           // anomalies: misuse of the OS API, broken discipline
    std::vector<CreateProcessRec> created; std::vector<std::string> log; bool logging = false;
    bool wmClose = false; int openLocalAllocs = 0, openSids = 0, openModules = 0, openCrypt = 0, openStations = 0; 
    WinSta *winsta0 = nullptr; Desktop *desk0 = nullptr; int winstaCounter = 0;
    std::map<DWORD, int> sleepCount; uint64_t waits = 0, sleeps = 0; void *heapHead = nullptr; size_t heapLive = 0;
    bool hitLimit = false;

    World(); ~World();
    Process *newProcess(const std::wstring &module, Console *con);
    Console *newConsole_(int w, int h);
    Fiber *spawn(Process *p, std::function<void()> body);
    bool enabled(Fiber *f);
    void run(Fiber *f);                      // until it blocks, yields or ends
    bool runAllIdle();                       // run enabled fibers (lowest first) until none is enabled
    uint64_t nextDeadline();
    void advanceTo(uint64_t t) { if (t > now) now = t; }
    void exitProcess(Process *p, DWORD code);
    Pipe *findPipe(const std::wstring &name);
    Pipe *findPipePrefix(const std::wstring &prefix, int nth = 0);
    void pump(Pipe *p);                      // natural completion of pending I/O
    void complete(Io *io, DWORD err, DWORD n);
    void noteBad(const std::string &s);
    std::vector<Io *> pendingIo();
    // the harness side of a pipe (as its client)
    bool peerConnect(Pipe *p, DWORD pid);
    void peerSend(Pipe *p, const std::string &bytes); std::string peerRecv(Pipe *p, size_t max = ~(size_t)0); void peerClose(Pipe *p);
    bool pipeWriterClosed(Pipe *p); // towards the peer: all data read and the sim side has closed
};

Process *curProc(); Fiber *curFiber();
void blockUntil(const char *where, std::function<bool()> pred, uint64_t deadline = ~0ull);
void yieldNow();
[[noreturn]] void killCurrentFiber(const std::string &why);
std::string narrow(const std::wstring &s); std::wstring widen(const std::string &s);
uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
extern int (*agentMain)();
// data race detection (race.cc)
void raceOn(Process *); void raceOff(); void raceAcquire(const void *); void raceRelease(const void *); void raceBarrier(); void raceFreed(const void *, size_t); void raceDeleted(const void *, size_t, void *pc); uint64_t raceAccesses(); extern bool raceWatching;

// RAII: marks "inside the simulator": allocation tracking is off.
struct ApiScope { Fiber *f; bool saved; explicit ApiScope(const char *name, bool point = true); ~ApiScope(); };
struct NoTrack { bool saved; NoTrack(); ~NoTrack(); };
extern thread_local bool g_track;
} // namespace sim
