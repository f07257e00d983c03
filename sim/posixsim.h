// Included before every source file of the unix-adapter: system calls go to the
// simulated POSIX world.
#pragma once
#include <windows.h>
#include <algorithm>
#include <iostream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <locale.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/types.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
#include <wchar.h>
extern "C" {
ssize_t simx_read(int, void *, size_t); ssize_t simx_write(int, const void *, size_t); int simx_close(int); int simx_pipe(int *); int simx_fcntl(int, int, ...); int simx_isatty(int); int simx_ioctl(int, unsigned long, ...);
int simx_select(int, fd_set *, fd_set *, fd_set *, struct timeval *); int simx_poll(struct pollfd *, nfds_t, int); int simx_tcgetattr(int, struct termios *); int simx_tcsetattr(int, int, const struct termios *);
int simx_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); int simx_pthread_join(pthread_t, void **); int simx_pthread_detach(pthread_t);
int simx_sigaction(int, const struct sigaction *, struct sigaction *); void (*simx_signal(int, void (*)(int)))(int);
int simx_printf(const char *, ...); int simx_fprintf(FILE *, const char *, ...); void simx_perror(const char *); int simx_putchar(int); int simx_fflush(FILE *); int simx_puts(const char *); int simx_fputs(const char *, FILE *);
char *simx_realpath(const char *, char *); int simx_access(const char *, int); char *simx_getenv(const char *);
size_t simx_mbstowcs(wchar_t *, const char *, size_t); size_t simx_wcstombs(char *, const wchar_t *, size_t);
ssize_t cygwin_conv_path(int, const void *, void *, size_t); unsigned long cygwin_internal(int, ...);
}
#define read(...) simx_read(__VA_ARGS__)
#define write(...) simx_write(__VA_ARGS__)
#define close(...) simx_close(__VA_ARGS__)
#define pipe(...) simx_pipe(__VA_ARGS__)
#define fcntl(...) simx_fcntl(__VA_ARGS__)
#define isatty(...) simx_isatty(__VA_ARGS__)
#define ioctl(...) simx_ioctl(__VA_ARGS__)
#define select(...) simx_select(__VA_ARGS__)
#define poll(...) simx_poll(__VA_ARGS__)
#define tcgetattr(...) simx_tcgetattr(__VA_ARGS__)
#define tcsetattr(...) simx_tcsetattr(__VA_ARGS__)
#define pthread_create(...) simx_pthread_create(__VA_ARGS__)
#define pthread_join(...) simx_pthread_join(__VA_ARGS__)
#define pthread_detach(...) simx_pthread_detach(__VA_ARGS__)
#define sigaction(a, b, c) simx_sigaction(a, b, c)
#define signal(a, b) simx_signal(a, b)
#define printf(...) simx_printf(__VA_ARGS__)
#define fprintf(...) simx_fprintf(__VA_ARGS__)
#define perror(...) simx_perror(__VA_ARGS__)
#define putchar(...) simx_putchar(__VA_ARGS__)
#define fflush(...) simx_fflush(__VA_ARGS__)
#define puts(...) simx_puts(__VA_ARGS__)
#define fputs(...) simx_fputs(__VA_ARGS__)
#define realpath(...) simx_realpath(__VA_ARGS__)
#define access(...) simx_access(__VA_ARGS__)
#define getenv(...) simx_getenv(__VA_ARGS__)
#define mbstowcs(...) simx_mbstowcs(__VA_ARGS__)
#define wcstombs(...) simx_wcstombs(__VA_ARGS__)
