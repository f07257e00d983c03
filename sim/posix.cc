#include "posixw.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <unistd.h>
namespace sim {
Posix *PX = nullptr;
std::wstring utf16(const std::string &s) { std::wstring r; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; uint32_t u = n == 1 ? c : c & (0xff >> (n + 1)); for (int k = 1; k < n && i + k < s.size(); k++) u = u << 6 | (s[i + k] & 0x3f); i += n; if (u >= 0x10000) { u -= 0x10000; r += (wchar_t)(0xd800 + (u >> 10)); r += (wchar_t)(0xdc00 + (u & 0x3ff)); } else r += (wchar_t)u; } return r; }
std::string utf8(const std::wstring &s) { std::string r; for (size_t i = 0; i < s.size(); i++) { uint32_t u = (uint16_t)s[i]; if (u >= 0xd800 && u < 0xdc00 && i + 1 < s.size()) { u = 0x10000 + ((u - 0xd800) << 10) + ((uint16_t)s[++i] - 0xdc00); } if (u < 0x80) r += (char)u; else if (u < 0x800) { r += (char)(0xc0 | u >> 6); r += (char)(0x80 | (u & 63)); } else if (u < 0x10000) { r += (char)(0xe0 | u >> 12); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); } else { r += (char)(0xf0 | u >> 18); r += (char)(0x80 | (u >> 12 & 63)); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); } } return r; }
Posix::Posix(Process *p, int cols, int rows) {
    NoTrack nt; PX = this; proc = p; memset(&ws, 0, sizeof ws); ws.ws_col = cols; ws.ws_row = rows; for (int i = 0; i < 3; i++) fds[i].kind = Fd::Std;
    memset(&mode, 0, sizeof mode); mode.c_iflag = BRKINT | ICRNL | IXON | IMAXBEL; mode.c_oflag = OPOST | ONLCR; mode.c_lflag = ECHO | ICANON | IEXTEN | ISIG | ECHOE | ECHOK; mode.c_cflag = CS8 | CREAD; mode.c_cc[VMIN] = 4; mode.c_cc[VTIME] = 2; original = mode;
}
Posix::~Posix() { PX = nullptr; }
bool Posix::raw() { return !(mode.c_lflag & (ECHO | ICANON | IEXTEN | ISIG)) && !(mode.c_iflag & (BRKINT | ICRNL | INPCK | ISTRIP | IXON)) && !(mode.c_oflag & OPOST) && (mode.c_cflag & CSIZE) == CS8 && !(mode.c_cflag & PARENB) && mode.c_cc[VMIN] == 1 && mode.c_cc[VTIME] == 0; }
std::vector<Fiber *> Posix::blockedThreads() { std::vector<Fiber *> r; for (auto &f : W->fibers) if (!f->done && f->blocked && inPosix.count(f.get())) r.push_back(f.get()); return r; }
void Posix::deliver(Fiber *victim) { NoTrack nt; if (!winch || !pendingSig || proc->exited) return; pendingSig = 0; auto h = winch; W->spawn(proc, [h]() { h(SIGWINCH); }); if (victim) interrupted.insert(victim); }
// Blocks in a system call that a signal may interrupt; false: it was interrupted.
static bool blockIntr(const char *where, std::function<bool()> ready) {
    Fiber *f = W->cur; PX->interrupted.erase(f); PX->inPosix.insert(f); blockUntil(where, [=]() { return ready() || PX->interrupted.count(f); }); PX->inPosix.erase(f); bool i = PX->interrupted.count(f); PX->interrupted.erase(f); return !(i && !ready()) && !i;
}
} // namespace sim
using namespace sim;
#define PAPI(n) ApiScope _api(n); if (PX->fault) { int _e = PX->fault(n); if (_e) { errno = _e; return -1; } }
static int bad(const char *what) { W->noteBad(std::string(what) + " on a bad file descriptor"); errno = EBADF; return -1; }
static bool ready(int fd) { auto it = PX->fds.find(fd); if (it == PX->fds.end()) return true; auto &d = it->second; if (d.kind == Posix::Fd::Std) return fd == 0 && (!PX->in.empty() || PX->eof || PX->inErr); if (d.kind == Posix::Fd::PipeR) return !PX->pipes[d.pipe].empty() || !PX->pipeWriters[d.pipe]; return false; }
extern "C" {
ssize_t simx_read(int fd, void *buf, size_t n) {
    PAPI("read"); auto it = PX->fds.find(fd); if (it == PX->fds.end()) return bad("read"); auto &d = it->second;
    if (d.kind == Posix::Fd::PipeR) { std::string &q = PX->pipes[d.pipe]; if (q.empty() && d.nonblock && PX->pipeWriters[d.pipe]) { errno = EAGAIN; return -1; } if (q.empty() && !blockIntr("read", [=]() { return ready(fd); })) { errno = EINTR; return -1; } size_t k = std::min(n, q.size()); memcpy(buf, q.data(), k); q.erase(0, k); return k; }
    if (d.kind != Posix::Fd::Std || fd != 0) return bad("read");
    if (!ready(0) && !blockIntr("read", []() { return ready(0); })) { errno = EINTR; return -1; }
    if (PX->in.empty()) { if (PX->inErr) { errno = PX->inErr; return -1; } return 0; }
    size_t k = std::min(n, PX->in.size()); if (PX->onRead) k = std::min<size_t>(k, std::max(1, PX->onRead(k))); memcpy(buf, PX->in.data(), k); PX->in.erase(0, k); return k;
}
ssize_t simx_write(int fd, const void *buf, size_t n) {
    PAPI("write"); auto it = PX->fds.find(fd); if (it == PX->fds.end()) return bad("write"); auto &d = it->second;
    if (d.kind == Posix::Fd::PipeW) { std::string &q = PX->pipes[d.pipe]; if (q.size() >= 65536) { if (d.nonblock) { errno = EAGAIN; return -1; } int p = d.pipe; if (!blockIntr("write", [p]() { return PX->pipes[p].size() < 65536; })) { errno = EINTR; return -1; } } size_t k = std::min(n, 65536 - q.size()); q.append((const char *)buf, k); if (W->schedPoint && W->cur) W->schedPoint(); return k; } // what follows a wakeup may come later
    if (d.kind != Posix::Fd::Std || fd == 0) return bad("write");
    if (PX->blocked && PX->blocked(fd) && !blockIntr("write", [fd]() { return !PX->blocked(fd); })) { errno = EINTR; return -1; }
    int k = n; if (PX->onWrite) { k = PX->onWrite(fd, n); if (k < 0) { errno = -k; return -1; } if ((size_t)k > n) k = n; }
    PX->out[fd].append((const char *)buf, k); return k;
}
int simx_close(int fd) { PAPI("close"); auto it = PX->fds.find(fd); if (it == PX->fds.end()) return bad("close"); if (it->second.kind == Posix::Fd::PipeW) PX->pipeWriters[it->second.pipe]--; PX->fds.erase(it); return 0; }
int simx_pipe(int *p) { PAPI("pipe"); PX->pipes.push_back(""); PX->pipeWriters.push_back(1); int k = PX->pipes.size() - 1; p[0] = PX->nextFd++; p[1] = PX->nextFd++; PX->fds[p[0]].kind = Posix::Fd::PipeR; PX->fds[p[1]].kind = Posix::Fd::PipeW; PX->fds[p[0]].pipe = PX->fds[p[1]].pipe = k; return 0; }
int simx_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); int a = va_arg(ap, int); va_end(ap); PAPI("fcntl"); auto it = PX->fds.find(fd); if (it == PX->fds.end()) return bad("fcntl"); if (cmd == F_GETFL) return O_RDWR | (it->second.nonblock ? O_NONBLOCK : 0); if (cmd == F_SETFL) it->second.nonblock = a & O_NONBLOCK; return 0; }
int simx_isatty(int fd) { ApiScope _api("isatty"); return fd >= 0 && fd < 3 && PX->isTty[fd]; }
int simx_ioctl(int fd, unsigned long req, ...) { va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap); PAPI("ioctl"); if (fd < 0 || fd > 2 || !PX->isTty[fd]) { errno = ENOTTY; return -1; } if (req == TIOCGWINSZ) { if (PX->wsErr) { errno = PX->wsErr; return -1; } *(struct winsize *)a = PX->ws; return 0; } errno = EINVAL; return -1; }
int simx_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *) {
    PAPI("select"); fd_set want = *r; auto any = [=]() { for (int i = 0; i < n; i++) if (FD_ISSET(i, &want) && ready(i)) return true; return false; };
    for (int i = 0; i < n; i++) if (FD_ISSET(i, &want) && !PX->fds.count(i)) return bad("select"); if (!blockIntr("select", any)) { errno = EINTR; return -1; } // the set is left as it was
    int k = 0; FD_ZERO(r); for (int i = 0; i < n; i++) if (FD_ISSET(i, &want) && ready(i)) { FD_SET(i, r); k++; } if (w) FD_ZERO(w); if (e) FD_ZERO(e); return k;
}
int simx_poll(struct pollfd *p, nfds_t n, int) {
    PAPI("poll"); auto any = [=]() { for (nfds_t i = 0; i < n; i++) if (p[i].fd >= 0 && ready(p[i].fd)) return true; return false; }; if (!blockIntr("poll", any)) { errno = EINTR; return -1; }
    int k = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = p[i].fd >= 0 && ready(p[i].fd) ? POLLIN : 0; k += p[i].revents != 0; } return k;
}
int simx_tcgetattr(int fd, struct termios *t) { PAPI("tcgetattr"); if (fd < 0 || fd > 2 || !PX->isTty[fd]) { errno = ENOTTY; return -1; } *t = PX->mode; return 0; }
int simx_tcsetattr(int fd, int act, const struct termios *t) { PAPI("tcsetattr"); if (fd < 0 || fd > 2 || !PX->isTty[fd]) { errno = ENOTTY; return -1; } PX->mode = *t; PX->modeSets++; if (act == TCSAFLUSH) PX->in.clear(); return 0; }
int simx_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *a) { ApiScope _api("pthread_create"); NoTrack nt; Fiber *x = W->spawn(curProc(), [f, a]() { f(a); }); *t = PX->threads.size() + 1; PX->threads[*t] = x; return 0; }
int simx_pthread_join(pthread_t t, void **) { ApiScope _api("pthread_join"); auto it = PX->threads.find(t); if (it == PX->threads.end()) { W->noteBad("pthread_join of an unknown or already joined thread"); return ESRCH; } Fiber *x = it->second; blockUntil("pthread_join", [x]() { return x->done; }); NoTrack nt; PX->threads.erase(t); PX->joins++; return 0; }
int simx_pthread_detach(pthread_t) { return 0; }
int simx_sigaction(int s, const struct sigaction *a, struct sigaction *) { PAPI("sigaction"); if (s == SIGWINCH && a) { PX->winch = a->sa_handler == SIG_IGN || a->sa_handler == SIG_DFL ? nullptr : a->sa_handler; PX->winchRestart = a->sa_flags & SA_RESTART; } return 0; }
void (*simx_signal(int s, void (*h)(int)))(int) { ApiScope _api("signal"); if (s == SIGWINCH) PX->winch = h == SIG_IGN || h == SIG_DFL ? nullptr : h; return SIG_DFL; }
static int vout(int fd, const char *f, va_list ap) { char b[65536]; int n = vsnprintf(b, sizeof b, f, ap); NoTrack nt; if (PX) PX->out[fd].append(b, std::min<int>(n, sizeof b - 1)); return n; }
int simx_printf(const char *f, ...) { ApiScope _api("printf"); va_list ap; va_start(ap, f); int n = vout(1, f, ap); va_end(ap); return n; }
int simx_fprintf(FILE *o, const char *f, ...) { ApiScope _api("fprintf"); va_list ap; va_start(ap, f); int n = vout(o == stderr ? 2 : 1, f, ap); va_end(ap); return n; }
void simx_perror(const char *s) { simx_fprintf(stderr, "%s: %s\n", s, strerror(errno)); }
int simx_putchar(int c) { simx_printf("%c", c); return c; } int simx_fflush(FILE *) { return 0; } int simx_puts(const char *s) { return simx_printf("%s\n", s); } int simx_fputs(const char *s, FILE *f) { return simx_fprintf(f, "%s", s); }
static std::string canon(const std::string &p) { std::string s = p.empty() || p[0] != '/' ? PX->cwd + "/" + p : p; std::vector<std::string> v; size_t i = 0; while (i <= s.size()) { size_t j = s.find('/', i); if (j == std::string::npos) j = s.size(); std::string c = s.substr(i, j - i); i = j + 1; if (c.empty() || c == ".") continue; if (c == "..") { if (!v.empty()) v.pop_back(); continue; } v.push_back(c); } std::string r; for (auto &c : v) r += "/" + c; return r.empty() ? "/" : r; }
static bool have(const std::string &p) { return PX->files.count(p) || PX->readableOnly.count(p); }
char *simx_realpath(const char *p, char *out) { ApiScope _api("realpath"); NoTrack nt; if (!*p) { errno = ENOENT; return nullptr; } std::string c = canon(p); bool slash = p[strlen(p) - 1] == '/'; if (slash && have(c)) { errno = ENOTDIR; return nullptr; } if (!have(c) && !have(c + ".exe")) { bool dir = false; for (auto &f : PX->files) if (f.compare(0, c.size() + 1, c + "/") == 0) dir = true; if (!dir) { errno = ENOENT; return nullptr; } } strcpy(out, c.c_str()); return out; }
int simx_access(const char *p, int m) { ApiScope _api("access"); NoTrack nt; std::string c = canon(p); bool x = PX->files.count(c), r = x || PX->readableOnly.count(c); if ((m & X_OK) ? x : r) return 0; errno = r ? EACCES : ENOENT; return -1; }
char *simx_getenv(const char *n) { auto it = PX->env.find(n); return it == PX->env.end() ? nullptr : (char *)it->second.c_str(); }
size_t simx_mbstowcs(wchar_t *d, const char *s, size_t n) { NoTrack nt; std::wstring w = utf16(s); size_t k = std::min(n, w.size()); for (size_t i = 0; i < k; i++) d[i] = w[i]; if (k < n) d[k] = 0; return k; }
size_t simx_wcstombs(char *d, const wchar_t *s, size_t n) { NoTrack nt; std::string m = utf8(s); if (!d) return m.size(); size_t k = std::min(n, m.size()); memcpy(d, m.data(), k); if (k < n) d[k] = 0; return k; }
ssize_t cygwin_conv_path(int, const void *from, void *to, size_t size) { ApiScope _api("cygwin_conv_path"); NoTrack nt; std::string p = (const char *)from, r; if (p.compare(0, 10, "/cygdrive/") == 0) r = std::string(1, toupper(p[10])) + ":" + p.substr(11); else if (p.empty() || p[0] != '/') r = p; else r = "C:\\cygwin" + p; for (char &c : r) if (c == '/') c = '\\'; if (!size) return r.size() + 1; if (size < r.size() + 1) { errno = ENOSPC; return -1; } strcpy((char *)to, r.c_str()); return 0; }
unsigned long cygwin_internal(int c, ...) { ApiScope _api("cygwin_internal"); NoTrack nt; if (c == 33) { PX->synced = true; for (auto &kv : PX->env) PX->proc->env[kv.first] = kv.second; } return 0; }
}
BOOL SetEnvironmentVariableW(LPCWSTR n, LPCWSTR v) { ApiScope _api("SetEnvironmentVariable"); NoTrack nt; std::string k = utf8(n); if (v) curProc()->env[k] = utf8(v); else curProc()->env.erase(k); return TRUE; }
DWORD FormatMessageW(DWORD fl, const void *, DWORD err, DWORD, LPWSTR buf, DWORD, va_list *) { ApiScope _api("FormatMessage"); NoTrack nt; if (!(fl & FORMAT_MESSAGE_ALLOCATE_BUFFER)) { SetLastError(ERROR_INVALID_PARAMETER); return 0; } std::string m; if (err == 2) m = "The system cannot find the file specified.\r\n"; else if (err == 5) m = "Access is denied.\r\n"; else { SetLastError(317); return 0; } std::wstring w = utf16(m); wchar_t *p = (wchar_t *)LocalAlloc(0, (w.size() + 1) * sizeof(wchar_t)); memcpy(p, w.c_str(), (w.size() + 1) * sizeof(wchar_t)); *(LPWSTR *)buf = p; return w.size(); }
