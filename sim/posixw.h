// The POSIX side of the simulated world (Cygwin's, as far as the unix-adapter
// can tell): one terminal, pipes, threads, signals and a small file system.
#pragma once
#include "sim.h"
#include <termios.h>
#include <sys/ioctl.h>
#include <set>
namespace sim {
struct Posix {
    struct Fd { enum { Closed, Std, PipeR, PipeW } kind = Closed; int pipe = -1; bool nonblock = false; };
    std::map<int, Fd> fds; std::vector<std::string> pipes; std::vector<int> pipeWriters; int nextFd = 10;
    Process *proc = nullptr; bool isTty[3] = {true, true, true}; struct termios mode, original; int modeSets = 0; bool flushed = false; // all three refer to one terminal
    struct winsize ws; int wsErr = 0; std::string in; bool eof = false; int inErr = 0; std::string out[3];
    void (*winch)(int) = nullptr; bool winchRestart = false; int pendingSig = 0;
    std::map<std::string, std::string> env; std::set<std::string> files, readableOnly; std::string cwd = "/home/u"; bool synced = false;
    std::function<int(int fd, size_t n)> onWrite;      // how many bytes are taken, or -errno
    std::function<int(size_t n)> onRead;               // how many of the n bytes ready on stdin are returned
    std::function<bool(int fd)> blocked;               // the terminal has been stopped
    std::function<int(const char *)> fault;            // errno
    std::set<Fiber *> interrupted; std::map<unsigned long, Fiber *> threads; std::set<Fiber *> inPosix; int joins = 0;
    Posix(Process *p, int cols, int rows); ~Posix();
    void resize(int c, int r) { ws.ws_col = c; ws.ws_row = r; if (winch) { pendingSig++; deliver(nullptr); } }
    void deliver(Fiber *victim); // runs the signal handler; the victim's blocking call is interrupted
    std::vector<Fiber *> blockedThreads();
    bool raw();
};
extern Posix *PX;
std::wstring utf16(const std::string &s); std::string utf8(const std::wstring &s);
} // namespace sim
