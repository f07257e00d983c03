// A stand-in for <windows.h>: just the slice of Win32 that winpty uses (plus
// some slack so that a behaviour-preserving edit that reaches for a sibling API
// still builds), implemented by the simulated kernel in /verif/sim/*.cc.
// Compile with -fshort-wchar so that wchar_t is a UTF-16 unit.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string.h>
#include <wchar.h>
#include <assert.h>

#define WINAPI
#define CALLBACK
#define APIENTRY
#define WINBASEAPI
#define _In_
#define _Out_
#define __cdecl
#define __stdcall
#define __declspec(x)
#ifndef UNICODE
#define UNICODE 1
#endif

typedef int BOOL; typedef BOOL *PBOOL, *LPBOOL;
typedef unsigned char BYTE; typedef BYTE *PBYTE, *LPBYTE; typedef unsigned char UCHAR;
typedef unsigned char BOOLEAN;
typedef char CHAR; typedef char *LPSTR, *PSTR; typedef const char *LPCSTR, *PCSTR;
typedef wchar_t WCHAR; typedef wchar_t *LPWSTR, *PWSTR, *LPTSTR; typedef const wchar_t *LPCWSTR, *PCWSTR, *LPCTSTR;
typedef wchar_t TCHAR;
typedef short SHORT; typedef unsigned short WORD, USHORT; typedef WORD *LPWORD, *PWORD;
typedef int INT; typedef unsigned int UINT; typedef UINT *PUINT;
typedef int32_t LONG; typedef LONG *PLONG; typedef uint32_t ULONG; typedef ULONG *PULONG; typedef uint32_t DWORD;
typedef DWORD *PDWORD, *LPDWORD;
typedef long long INT64, LONGLONG, LONG64; typedef unsigned long long UINT64, ULONGLONG, DWORD64, DWORDLONG;
typedef intptr_t INT_PTR, LONG_PTR; typedef uintptr_t UINT_PTR, ULONG_PTR, DWORD_PTR;
typedef size_t SIZE_T; typedef intptr_t SSIZE_T;
typedef void VOID; typedef void *PVOID, *LPVOID; typedef const void *LPCVOID;
typedef void *HANDLE; typedef HANDLE *PHANDLE, *LPHANDLE;
#define SIM_DECLARE_HANDLE(n) struct n##__ { int unused; }; typedef n##__ *n
SIM_DECLARE_HANDLE(HWND); SIM_DECLARE_HANDLE(HDESK); SIM_DECLARE_HANDLE(HWINSTA); SIM_DECLARE_HANDLE(HKL);
SIM_DECLARE_HANDLE(HINSTANCE); typedef HINSTANCE HMODULE; typedef HANDLE HLOCAL; typedef HANDLE HGLOBAL;
SIM_DECLARE_HANDLE(HICON);
typedef UINT_PTR WPARAM; typedef LONG_PTR LPARAM; typedef LONG_PTR LRESULT; typedef LONG HRESULT;
typedef INT_PTR (*FARPROC)();
typedef WORD ATOM;
typedef union { struct { DWORD LowPart; LONG HighPart; }; LONGLONG QuadPart; } LARGE_INTEGER;
typedef union { struct { DWORD LowPart; DWORD HighPart; }; ULONGLONG QuadPart; } ULARGE_INTEGER;

#define TRUE 1
#define FALSE 0
#define INFINITE 0xFFFFFFFFu
#define MAX_PATH 260
#define INVALID_HANDLE_VALUE ((HANDLE)(LONG_PTR)-1)
#define INVALID_FILE_ATTRIBUTES ((DWORD)-1)
#define MAXDWORD 0xffffffffu
#define LOWORD(l) ((WORD)((DWORD_PTR)(l) & 0xffff))
#define HIWORD(l) ((WORD)((DWORD_PTR)(l) >> 16))
#define LOBYTE(w) ((BYTE)((DWORD_PTR)(w) & 0xff))
#define HIBYTE(w) ((BYTE)((DWORD_PTR)(w) >> 8))
#define MAKELONG(a,b) ((LONG)(((WORD)(a)) | ((DWORD)((WORD)(b))) << 16))
#define MAKEWORD(a,b) ((WORD)(((BYTE)(a)) | ((WORD)((BYTE)(b))) << 8))
#define ZeroMemory(p,n) memset((p),0,(n))
#define CopyMemory(d,s,n) memcpy((d),(s),(n))
#define FillMemory(d,n,c) memset((d),(c),(n))
#define ARRAYSIZE(a) (sizeof(a)/sizeof((a)[0]))
#define UNREFERENCED_PARAMETER(p) (void)(p)

// errors
#define ERROR_SUCCESS 0u
#define NO_ERROR 0u
#define ERROR_INVALID_FUNCTION 1u
#define ERROR_FILE_NOT_FOUND 2u
#define ERROR_PATH_NOT_FOUND 3u
#define ERROR_ACCESS_DENIED 5u
#define ERROR_INVALID_HANDLE 6u
#define ERROR_NOT_ENOUGH_MEMORY 8u
#define ERROR_BAD_LENGTH 24u
#define ERROR_GEN_FAILURE 31u
#define ERROR_HANDLE_EOF 38u
#define ERROR_NOT_SUPPORTED 50u
#define ERROR_INVALID_PARAMETER 87u
#define ERROR_BROKEN_PIPE 109u
#define ERROR_CALL_NOT_IMPLEMENTED 120u
#define ERROR_INSUFFICIENT_BUFFER 122u
#define ERROR_MOD_NOT_FOUND 126u
#define ERROR_PROC_NOT_FOUND 127u
#define ERROR_ALREADY_EXISTS 183u
#define ERROR_BAD_PIPE 230u
#define ERROR_PIPE_BUSY 231u
#define ERROR_NO_DATA 232u
#define ERROR_PIPE_NOT_CONNECTED 233u
#define ERROR_MORE_DATA 234u
#define WAIT_TIMEOUT 258u
#define ERROR_PIPE_CONNECTED 535u
#define ERROR_PIPE_LISTENING 536u
#define ERROR_OPERATION_ABORTED 995u
#define ERROR_IO_INCOMPLETE 996u
#define ERROR_IO_PENDING 997u
#define ERROR_NO_TOKEN 1008u
#define ERROR_NOT_FOUND 1168u
#define ERROR_CANCELLED 1223u
#define ERROR_RESOURCE_DATA_NOT_FOUND 1812u
#include "winerror_more.h"
#define WAIT_OBJECT_0 0u
#define WAIT_ABANDONED 0x80u
#define WAIT_ABANDONED_0 0x80u
#define WAIT_FAILED 0xFFFFFFFFu
#define WAIT_IO_COMPLETION 0xC0u
#define STATUS_PENDING 0x103
#define STILL_ACTIVE 259u
#define MAXIMUM_WAIT_OBJECTS 64

typedef struct _OVERLAPPED { ULONG_PTR Internal; ULONG_PTR InternalHigh; union { struct { DWORD Offset; DWORD OffsetHigh; }; PVOID Pointer; }; HANDLE hEvent; } OVERLAPPED, *LPOVERLAPPED;
#define HasOverlappedIoCompleted(o) (((DWORD)(o)->Internal) != STATUS_PENDING)
typedef struct { DWORD nLength; LPVOID lpSecurityDescriptor; BOOL bInheritHandle; } SECURITY_ATTRIBUTES, *LPSECURITY_ATTRIBUTES, *PSECURITY_ATTRIBUTES;
typedef struct { DWORD dwLowDateTime; DWORD dwHighDateTime; } FILETIME, *LPFILETIME;
typedef struct { WORD wYear, wMonth, wDayOfWeek, wDay, wHour, wMinute, wSecond, wMilliseconds; } SYSTEMTIME;

DWORD GetLastError(); void SetLastError(DWORD);
BOOL CloseHandle(HANDLE);
BOOL DuplicateHandle(HANDLE, HANDLE, HANDLE, LPHANDLE, DWORD, BOOL, DWORD);
BOOL GetHandleInformation(HANDLE, LPDWORD); BOOL SetHandleInformation(HANDLE, DWORD, DWORD);
#define DUPLICATE_CLOSE_SOURCE 1
#define DUPLICATE_SAME_ACCESS 2
#define HANDLE_FLAG_INHERIT 1

// sync
HANDLE CreateEventW(LPSECURITY_ATTRIBUTES, BOOL, BOOL, LPCWSTR);
HANDLE CreateEventA(LPSECURITY_ATTRIBUTES, BOOL, BOOL, LPCSTR);
#define CreateEvent CreateEventW
BOOL SetEvent(HANDLE); BOOL ResetEvent(HANDLE);
DWORD WaitForSingleObject(HANDLE, DWORD);
DWORD WaitForSingleObjectEx(HANDLE, DWORD, BOOL);
DWORD WaitForMultipleObjects(DWORD, const HANDLE *, BOOL, DWORD);
DWORD WaitForMultipleObjectsEx(DWORD, const HANDLE *, BOOL, DWORD, BOOL);
void Sleep(DWORD); DWORD SleepEx(DWORD, BOOL); BOOL SwitchToThread();
typedef struct { void *impl; int init; } CRITICAL_SECTION, *LPCRITICAL_SECTION;
void InitializeCriticalSection(LPCRITICAL_SECTION); void DeleteCriticalSection(LPCRITICAL_SECTION);
BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION, DWORD);
void EnterCriticalSection(LPCRITICAL_SECTION); void LeaveCriticalSection(LPCRITICAL_SECTION); BOOL TryEnterCriticalSection(LPCRITICAL_SECTION);
BOOL InitializeCriticalSectionEx(LPCRITICAL_SECTION, DWORD, DWORD); DWORD SetCriticalSectionSpinCount(LPCRITICAL_SECTION, DWORD);
typedef struct { void *p; } SRWLOCK, *PSRWLOCK; 
#define SRWLOCK_INIT {0}
void InitializeSRWLock(PSRWLOCK); void AcquireSRWLockExclusive(PSRWLOCK); void ReleaseSRWLockExclusive(PSRWLOCK); void AcquireSRWLockShared(PSRWLOCK); void ReleaseSRWLockShared(PSRWLOCK);
unsigned char TryAcquireSRWLockExclusive(PSRWLOCK); unsigned char TryAcquireSRWLockShared(PSRWLOCK);
LONG InterlockedIncrement(LONG volatile *); LONG InterlockedDecrement(LONG volatile *); LONG InterlockedExchange(LONG volatile *, LONG);
LONG InterlockedExchangeAdd(LONG volatile *, LONG);
LONG InterlockedCompareExchange(LONG volatile *, LONG, LONG);
PVOID InterlockedCompareExchangePointer(PVOID volatile *, PVOID, PVOID); PVOID InterlockedExchangePointer(PVOID volatile *, PVOID);
DWORD GetTickCount(); ULONGLONG GetTickCount64(); void GetSystemTimeAsFileTime(LPFILETIME);
BOOL QueryPerformanceCounter(LARGE_INTEGER *); BOOL QueryPerformanceFrequency(LARGE_INTEGER *);
HANDLE GetCurrentProcess(); DWORD GetCurrentProcessId(); HANDLE GetCurrentThread(); DWORD GetCurrentThreadId();

// files & pipes
#define GENERIC_READ 0x80000000u
#define GENERIC_WRITE 0x40000000u
#define GENERIC_ALL 0x10000000u
#define FILE_SHARE_READ 1u
#define FILE_SHARE_WRITE 2u
#define CREATE_NEW 1
#define CREATE_ALWAYS 2
#define OPEN_EXISTING 3
#define OPEN_ALWAYS 4
#define FILE_ATTRIBUTE_NORMAL 0x80u
#define FILE_FLAG_OVERLAPPED 0x40000000u
#define FILE_FLAG_FIRST_PIPE_INSTANCE 0x00080000u
#define FILE_FLAG_WRITE_THROUGH 0x80000000u
#define SECURITY_SQOS_PRESENT 0x00100000u
#define SECURITY_ANONYMOUS 0u
#define SECURITY_IDENTIFICATION 0x10000u
#define SECURITY_IMPERSONATION 0x20000u
#define PIPE_ACCESS_INBOUND 1u
#define PIPE_ACCESS_OUTBOUND 2u
#define PIPE_ACCESS_DUPLEX 3u
#define PIPE_TYPE_BYTE 0u
#define PIPE_TYPE_MESSAGE 4u
#define PIPE_READMODE_BYTE 0u
#define PIPE_READMODE_MESSAGE 2u
#define PIPE_WAIT 0u
#define PIPE_NOWAIT 1u
#define PIPE_REJECT_REMOTE_CLIENTS 8u
#define PIPE_ACCEPT_REMOTE_CLIENTS 0u
#define PIPE_UNLIMITED_INSTANCES 255
#define NMPWAIT_WAIT_FOREVER 0xffffffffu
#define FILE_GENERIC_READ 0x120089u
#define FILE_GENERIC_WRITE 0x120116u
#define FILE_WRITE_ATTRIBUTES 0x100u
#define FILE_WRITE_DATA 2u
#define FILE_WRITE_EA 0x10u
#define FILE_APPEND_DATA 4u
#define FILE_CREATE_PIPE_INSTANCE 4u
#define STANDARD_RIGHTS_WRITE 0x20000u
#define STANDARD_RIGHTS_READ 0x20000u
#define SYNCHRONIZE 0x100000u
HANDLE CreateFileW(LPCWSTR, DWORD, DWORD, LPSECURITY_ATTRIBUTES, DWORD, DWORD, HANDLE);
HANDLE CreateFileA(LPCSTR, DWORD, DWORD, LPSECURITY_ATTRIBUTES, DWORD, DWORD, HANDLE);
#define CreateFile CreateFileW
HANDLE CreateNamedPipeW(LPCWSTR, DWORD, DWORD, DWORD, DWORD, DWORD, DWORD, LPSECURITY_ATTRIBUTES);
#define CreateNamedPipe CreateNamedPipeW
BOOL ConnectNamedPipe(HANDLE, LPOVERLAPPED); BOOL DisconnectNamedPipe(HANDLE); BOOL WaitNamedPipeW(LPCWSTR, DWORD);
BOOL SetNamedPipeHandleState(HANDLE, LPDWORD, LPDWORD, LPDWORD);
BOOL TransactNamedPipe(HANDLE, LPVOID, DWORD, LPVOID, DWORD, LPDWORD, LPOVERLAPPED);
BOOL PeekNamedPipe(HANDLE, LPVOID, DWORD, LPDWORD, LPDWORD, LPDWORD);
BOOL ReadFile(HANDLE, LPVOID, DWORD, LPDWORD, LPOVERLAPPED); BOOL WriteFile(HANDLE, LPCVOID, DWORD, LPDWORD, LPOVERLAPPED);
BOOL FlushFileBuffers(HANDLE);
BOOL CancelIo(HANDLE); BOOL CancelIoEx(HANDLE, LPOVERLAPPED);
BOOL GetOverlappedResult(HANDLE, LPOVERLAPPED, LPDWORD, BOOL);
DWORD GetFileAttributesW(LPCWSTR);
BOOL GetNamedPipeClientProcessId(HANDLE, PULONG);

// process
typedef struct { DWORD cb; LPWSTR lpReserved; LPWSTR lpDesktop; LPWSTR lpTitle; DWORD dwX, dwY, dwXSize, dwYSize, dwXCountChars, dwYCountChars, dwFillAttribute, dwFlags; WORD wShowWindow, cbReserved2; LPBYTE lpReserved2; HANDLE hStdInput, hStdOutput, hStdError; } STARTUPINFOW, *LPSTARTUPINFOW;
typedef STARTUPINFOW STARTUPINFO;
typedef struct { HANDLE hProcess, hThread; DWORD dwProcessId, dwThreadId; } PROCESS_INFORMATION, *LPPROCESS_INFORMATION;
#define STARTF_USESHOWWINDOW 1u
#define STARTF_USESTDHANDLES 0x100u
#define SW_HIDE 0
#define SW_SHOW 5
#define DETACHED_PROCESS 8u
#define CREATE_SUSPENDED 0x4u
#define CREATE_DEFAULT_ERROR_MODE 0x04000000u
#define CREATE_BREAKAWAY_FROM_JOB 0x01000000u
#define EXTENDED_STARTUPINFO_PRESENT 0x00080000u
#define CREATE_NEW_CONSOLE 0x10u
#define CREATE_NEW_PROCESS_GROUP 0x200u
#define CREATE_UNICODE_ENVIRONMENT 0x400u
#define CREATE_NO_WINDOW 0x08000000u
#define PROCESS_QUERY_INFORMATION 0x400u
#define PROCESS_DUP_HANDLE 0x40u
BOOL CreateProcessW(LPCWSTR, LPWSTR, LPSECURITY_ATTRIBUTES, LPSECURITY_ATTRIBUTES, BOOL, DWORD, LPVOID, LPCWSTR, LPSTARTUPINFOW, LPPROCESS_INFORMATION);
#define CreateProcess CreateProcessW
BOOL TerminateProcess(HANDLE, UINT); BOOL GetExitCodeProcess(HANDLE, LPDWORD); DWORD GetProcessId(HANDLE);
void ExitProcess(UINT) __attribute__((noreturn));
LPWSTR GetCommandLineW(); DWORD GetEnvironmentVariableA(LPCSTR, LPSTR, DWORD); DWORD GetEnvironmentVariableW(LPCWSTR, LPWSTR, DWORD);
LPWSTR *CommandLineToArgvW(LPCWSTR, int *);
HMODULE GetModuleHandleW(LPCWSTR); DWORD GetModuleFileNameW(HMODULE, LPWSTR, DWORD); DWORD GetModuleFileNameA(HMODULE, LPSTR, DWORD);
#define GetModuleHandle GetModuleHandleW
BOOL GetModuleHandleExW(DWORD, LPCWSTR, HMODULE *);
#define GET_MODULE_HANDLE_EX_FLAG_FROM_ADDRESS 4u
#define GET_MODULE_HANDLE_EX_FLAG_UNCHANGED_REFCOUNT 2u
HMODULE LoadLibraryW(LPCWSTR); BOOL FreeLibrary(HMODULE); FARPROC GetProcAddress(HMODULE, LPCSTR);
UINT GetSystemDirectoryW(LPWSTR, UINT);
HLOCAL LocalAlloc(UINT, SIZE_T); HLOCAL LocalFree(HLOCAL);
BOOL SetEnvironmentVariableW(LPCWSTR, LPCWSTR); DWORD FormatMessageW(DWORD, const void *, DWORD, DWORD, LPWSTR, DWORD, va_list *);
#define FORMAT_MESSAGE_ALLOCATE_BUFFER 0x100
#define FORMAT_MESSAGE_IGNORE_INSERTS 0x200
#define FORMAT_MESSAGE_FROM_SYSTEM 0x1000
#define LANG_NEUTRAL 0
#define SUBLANG_DEFAULT 1
#define MAKELANGID(p, s) ((WORD)((((WORD)(s)) << 10) | (WORD)(p)))
#define LPTR 0x40
#define LMEM_FIXED 0
void OutputDebugStringA(LPCSTR); void OutputDebugStringW(LPCWSTR);
BOOL IsDebuggerPresent();
typedef struct { DWORD dwOSVersionInfoSize, dwMajorVersion, dwMinorVersion, dwBuildNumber, dwPlatformId; WCHAR szCSDVersion[128]; } OSVERSIONINFOW, OSVERSIONINFO, *LPOSVERSIONINFOW;
typedef struct { DWORD dwOSVersionInfoSize, dwMajorVersion, dwMinorVersion, dwBuildNumber, dwPlatformId; WCHAR szCSDVersion[128]; WORD wServicePackMajor, wServicePackMinor, wSuiteMask; BYTE wProductType, wReserved; } OSVERSIONINFOEXW, OSVERSIONINFOEX;
BOOL GetVersionExW(LPOSVERSIONINFOW);
#define GetVersionEx GetVersionExW
#define VER_NT_WORKSTATION 1
#define VER_NT_DOMAIN_CONTROLLER 2
#define VER_NT_SERVER 3
typedef struct { DWORD dwSignature, dwStrucVersion, dwFileVersionMS, dwFileVersionLS, dwProductVersionMS, dwProductVersionLS, dwFileFlagsMask, dwFileFlags, dwFileOS, dwFileType, dwFileSubtype, dwFileDateMS, dwFileDateLS; } VS_FIXEDFILEINFO;
DWORD GetFileVersionInfoSizeW(LPCWSTR, LPDWORD); BOOL GetFileVersionInfoW(LPCWSTR, DWORD, DWORD, LPVOID); BOOL VerQueryValueW(LPCVOID, LPCWSTR, LPVOID *, PUINT);

// strings
#define CP_ACP 0
#define CP_UTF8 65001
#define WC_ERR_INVALID_CHARS 0x80
#define MB_ERR_INVALID_CHARS 8
int WideCharToMultiByte(UINT, DWORD, LPCWSTR, int, LPSTR, int, LPCSTR, LPBOOL); int MultiByteToWideChar(UINT, DWORD, LPCSTR, int, LPWSTR, int);

// windowing
#define WM_CLOSE 0x10
#define WM_KEYDOWN 0x100
#define WM_KEYUP 0x101
#define WM_CHAR 0x102
#define WM_SYSCOMMAND 0x112
#define WM_PASTE 0x302
LRESULT SendMessageW(HWND, UINT, WPARAM, LPARAM); BOOL PostMessageW(HWND, UINT, WPARAM, LPARAM);
#define SendMessage SendMessageW
#define PostMessage PostMessageW
UINT GetDoubleClickTime(); SHORT VkKeyScanW(WCHAR); UINT MapVirtualKeyW(UINT, UINT); SHORT GetKeyState(int);
#define VkKeyScan VkKeyScanW
#define MapVirtualKey MapVirtualKeyW
#define MAPVK_VK_TO_VSC 0
#define MAPVK_VSC_TO_VK 1
#define MAPVK_VK_TO_CHAR 2
HWINSTA GetProcessWindowStation(); HWINSTA CreateWindowStationW(LPCWSTR, DWORD, DWORD, LPSECURITY_ATTRIBUTES); BOOL SetProcessWindowStation(HWINSTA); BOOL CloseWindowStation(HWINSTA);
HDESK GetThreadDesktop(DWORD); HDESK CreateDesktopW(LPCWSTR, LPCWSTR, void *, DWORD, DWORD, LPSECURITY_ATTRIBUTES); BOOL CloseDesktop(HDESK); BOOL SetThreadDesktop(HDESK);
#define CreateWindowStation CreateWindowStationW
#define CreateDesktop CreateDesktopW
#define WINSTA_ALL_ACCESS 0x37f
#define UOI_NAME 2
BOOL GetUserObjectInformationW(HANDLE, int, PVOID, DWORD, LPDWORD);

// console
typedef struct { SHORT X, Y; } COORD, *PCOORD;
typedef struct { SHORT Left, Top, Right, Bottom; } SMALL_RECT, *PSMALL_RECT;
typedef struct { union { WCHAR UnicodeChar; CHAR AsciiChar; } Char; WORD Attributes; } CHAR_INFO, *PCHAR_INFO;
typedef struct { COORD dwSize; COORD dwCursorPosition; WORD wAttributes; SMALL_RECT srWindow; COORD dwMaximumWindowSize; } CONSOLE_SCREEN_BUFFER_INFO, *PCONSOLE_SCREEN_BUFFER_INFO;
typedef struct { DWORD dwSize; BOOL bVisible; } CONSOLE_CURSOR_INFO, *PCONSOLE_CURSOR_INFO;
typedef struct { BOOL bKeyDown; WORD wRepeatCount, wVirtualKeyCode, wVirtualScanCode; union { WCHAR UnicodeChar; CHAR AsciiChar; } uChar; DWORD dwControlKeyState; } KEY_EVENT_RECORD;
typedef struct { COORD dwMousePosition; DWORD dwButtonState, dwControlKeyState, dwEventFlags; } MOUSE_EVENT_RECORD;
typedef struct { COORD dwSize; } WINDOW_BUFFER_SIZE_RECORD;
typedef struct { UINT dwCommandId; } MENU_EVENT_RECORD;
typedef struct { BOOL bSetFocus; } FOCUS_EVENT_RECORD;
typedef struct { WORD EventType; union { KEY_EVENT_RECORD KeyEvent; MOUSE_EVENT_RECORD MouseEvent; WINDOW_BUFFER_SIZE_RECORD WindowBufferSizeEvent; MENU_EVENT_RECORD MenuEvent; FOCUS_EVENT_RECORD FocusEvent; } Event; } INPUT_RECORD, *PINPUT_RECORD;
typedef struct { DWORD nFont; COORD dwFontSize; } CONSOLE_FONT_INFO;
#define KEY_EVENT 1
#define MOUSE_EVENT 2
#define WINDOW_BUFFER_SIZE_EVENT 4
#define MENU_EVENT 8
#define FOCUS_EVENT 16
#define RIGHT_ALT_PRESSED 1
#define LEFT_ALT_PRESSED 2
#define RIGHT_CTRL_PRESSED 4
#define LEFT_CTRL_PRESSED 8
#define SHIFT_PRESSED 0x10
#define NUMLOCK_ON 0x20
#define SCROLLLOCK_ON 0x40
#define CAPSLOCK_ON 0x80
#define ENHANCED_KEY 0x100
#define FROM_LEFT_1ST_BUTTON_PRESSED 1
#define RIGHTMOST_BUTTON_PRESSED 2
#define FROM_LEFT_2ND_BUTTON_PRESSED 4
#define FROM_LEFT_3RD_BUTTON_PRESSED 8
#define FROM_LEFT_4TH_BUTTON_PRESSED 16
#define MOUSE_MOVED 1
#define DOUBLE_CLICK 2
#define MOUSE_WHEELED 4
#define MOUSE_HWHEELED 8
#define ENABLE_PROCESSED_INPUT 1u
#define ENABLE_LINE_INPUT 2u
#define ENABLE_ECHO_INPUT 4u
#define ENABLE_WINDOW_INPUT 8u
#define ENABLE_MOUSE_INPUT 0x10u
#define ENABLE_INSERT_MODE 0x20u
#define ENABLE_QUICK_EDIT_MODE 0x40u
#define ENABLE_EXTENDED_FLAGS 0x80u
#define ENABLE_AUTO_POSITION 0x100u
#define ENABLE_VIRTUAL_TERMINAL_INPUT 0x200u
#define ENABLE_PROCESSED_OUTPUT 1u
#define ENABLE_WRAP_AT_EOL_OUTPUT 2u
#define ENABLE_VIRTUAL_TERMINAL_PROCESSING 4u
#define FOREGROUND_BLUE 1
#define FOREGROUND_GREEN 2
#define FOREGROUND_RED 4
#define FOREGROUND_INTENSITY 8
#define BACKGROUND_BLUE 0x10
#define BACKGROUND_GREEN 0x20
#define BACKGROUND_RED 0x40
#define BACKGROUND_INTENSITY 0x80
#define COMMON_LVB_LEADING_BYTE 0x100
#define COMMON_LVB_TRAILING_BYTE 0x200
#define COMMON_LVB_GRID_HORIZONTAL 0x400
#define COMMON_LVB_GRID_LVERTICAL 0x800
#define COMMON_LVB_GRID_RVERTICAL 0x1000
#define COMMON_LVB_REVERSE_VIDEO 0x4000
#define COMMON_LVB_UNDERSCORE 0x8000
#define STD_INPUT_HANDLE ((DWORD)-10)
#define STD_OUTPUT_HANDLE ((DWORD)-11)
#define STD_ERROR_HANDLE ((DWORD)-12)
#define CONSOLE_TEXTMODE_BUFFER 1
#define CTRL_C_EVENT 0
#define CTRL_BREAK_EVENT 1
#define CTRL_CLOSE_EVENT 2
typedef BOOL (*PHANDLER_ROUTINE)(DWORD);
HANDLE GetStdHandle(DWORD); BOOL SetStdHandle(DWORD, HANDLE);
HANDLE CreateConsoleScreenBuffer(DWORD, DWORD, const SECURITY_ATTRIBUTES *, DWORD, LPVOID);
BOOL SetConsoleActiveScreenBuffer(HANDLE);
BOOL FillConsoleOutputAttribute(HANDLE, WORD, DWORD, COORD, LPDWORD); BOOL FillConsoleOutputCharacterW(HANDLE, WCHAR, DWORD, COORD, LPDWORD);
BOOL GenerateConsoleCtrlEvent(DWORD, DWORD);
UINT GetConsoleCP(); UINT GetConsoleOutputCP();
BOOL GetConsoleCursorInfo(HANDLE, CONSOLE_CURSOR_INFO *); BOOL SetConsoleCursorInfo(HANDLE, const CONSOLE_CURSOR_INFO *);
BOOL GetConsoleMode(HANDLE, LPDWORD); BOOL SetConsoleMode(HANDLE, DWORD);
DWORD GetConsoleProcessList(LPDWORD, DWORD);
BOOL GetConsoleScreenBufferInfo(HANDLE, CONSOLE_SCREEN_BUFFER_INFO *);
DWORD GetConsoleTitleW(LPWSTR, DWORD); BOOL SetConsoleTitleW(LPCWSTR); HWND GetConsoleWindow();
COORD GetLargestConsoleWindowSize(HANDLE);
BOOL ReadConsoleInputW(HANDLE, INPUT_RECORD *, DWORD, LPDWORD); BOOL PeekConsoleInputW(HANDLE, INPUT_RECORD *, DWORD, LPDWORD); BOOL WriteConsoleInputW(HANDLE, const INPUT_RECORD *, DWORD, LPDWORD);
BOOL GetNumberOfConsoleInputEvents(HANDLE, LPDWORD); BOOL FlushConsoleInputBuffer(HANDLE);
BOOL ReadConsoleOutputW(HANDLE, CHAR_INFO *, COORD, COORD, SMALL_RECT *); BOOL WriteConsoleOutputW(HANDLE, const CHAR_INFO *, COORD, COORD, SMALL_RECT *);
BOOL WriteConsoleW(HANDLE, const void *, DWORD, LPDWORD, LPVOID);
BOOL SetConsoleCtrlHandler(PHANDLER_ROUTINE, BOOL);
BOOL SetConsoleCursorPosition(HANDLE, COORD); BOOL SetConsoleScreenBufferSize(HANDLE, COORD); BOOL SetConsoleTextAttribute(HANDLE, WORD); BOOL SetConsoleWindowInfo(HANDLE, BOOL, const SMALL_RECT *);
BOOL AllocConsole(); BOOL FreeConsole(); BOOL AttachConsole(DWORD);
#define GetConsoleTitle GetConsoleTitleW
#define SetConsoleTitle SetConsoleTitleW
#define WriteConsoleInput WriteConsoleInputW
#define ReadConsoleInput ReadConsoleInputW
#define ReadConsoleOutput ReadConsoleOutputW
#define WriteConsoleOutput WriteConsoleOutputW

// security
typedef PVOID PSID; typedef PVOID PSECURITY_DESCRIPTOR; typedef DWORD SECURITY_INFORMATION; typedef DWORD ACCESS_MASK;
typedef struct { BYTE Value[6]; } SID_IDENTIFIER_AUTHORITY, *PSID_IDENTIFIER_AUTHORITY;
typedef struct { BYTE AclRevision, Sbz1; WORD AclSize, AceCount, Sbz2; } ACL, *PACL;
typedef struct { PSID Owner; } TOKEN_OWNER;
typedef struct { PSID Sid; DWORD Attributes; } SID_AND_ATTRIBUTES;
typedef struct { SID_AND_ATTRIBUTES User; } TOKEN_USER;
typedef enum { TokenUser = 1, TokenGroups, TokenPrivileges, TokenOwner } TOKEN_INFORMATION_CLASS;
#define TOKEN_QUERY 8u
#define SECURITY_NT_AUTHORITY {0,0,0,0,0,5}
#define SECURITY_WORLD_SID_AUTHORITY {0,0,0,0,0,1}
#define SECURITY_BUILTIN_DOMAIN_RID 0x20
#define DOMAIN_ALIAS_RID_ADMINS 0x220
#define SECURITY_LOCAL_SYSTEM_RID 0x12
#define SECURITY_WORLD_RID 0
#define SECURITY_DESCRIPTOR_MIN_LENGTH 64
#define SECURITY_DESCRIPTOR_REVISION 1
#define OWNER_SECURITY_INFORMATION 1u
#define GROUP_SECURITY_INFORMATION 2u
#define DACL_SECURITY_INFORMATION 4u
BOOL OpenThreadToken(HANDLE, DWORD, BOOL, PHANDLE); BOOL OpenProcessToken(HANDLE, DWORD, PHANDLE);
HANDLE OpenProcess(DWORD, BOOL, DWORD);
BOOL GetTokenInformation(HANDLE, TOKEN_INFORMATION_CLASS, LPVOID, DWORD, PDWORD);
BOOL AllocateAndInitializeSid(PSID_IDENTIFIER_AUTHORITY, BYTE, DWORD, DWORD, DWORD, DWORD, DWORD, DWORD, DWORD, DWORD, PSID *);
PVOID FreeSid(PSID); BOOL InitializeSecurityDescriptor(PSECURITY_DESCRIPTOR, DWORD); BOOL SetSecurityDescriptorDacl(PSECURITY_DESCRIPTOR, BOOL, PACL, BOOL);
BOOL EqualSid(PSID, PSID); DWORD GetLengthSid(PSID);
#define LF_FACESIZE 32
#define VK_LBUTTON 0x01
#define VK_RBUTTON 0x02
#define VK_CANCEL 0x03
#define VK_MBUTTON 0x04
#define VK_XBUTTON1 0x05
#define VK_XBUTTON2 0x06
#define VK_BACK 0x08
#define VK_TAB 0x09
#define VK_CLEAR 0x0C
#define VK_RETURN 0x0D
#define VK_SHIFT 0x10
#define VK_CONTROL 0x11
#define VK_MENU 0x12
#define VK_PAUSE 0x13
#define VK_CAPITAL 0x14
#define VK_KANA 0x15
#define VK_HANGEUL 0x15
#define VK_HANGUL 0x15
#define VK_IME_ON 0x16
#define VK_JUNJA 0x17
#define VK_FINAL 0x18
#define VK_HANJA 0x19
#define VK_KANJI 0x19
#define VK_IME_OFF 0x1A
#define VK_ESCAPE 0x1B
#define VK_CONVERT 0x1C
#define VK_NONCONVERT 0x1D
#define VK_ACCEPT 0x1E
#define VK_MODECHANGE 0x1F
#define VK_SPACE 0x20
#define VK_PRIOR 0x21
#define VK_NEXT 0x22
#define VK_END 0x23
#define VK_HOME 0x24
#define VK_LEFT 0x25
#define VK_UP 0x26
#define VK_RIGHT 0x27
#define VK_DOWN 0x28
#define VK_SELECT 0x29
#define VK_PRINT 0x2A
#define VK_EXECUTE 0x2B
#define VK_SNAPSHOT 0x2C
#define VK_INSERT 0x2D
#define VK_DELETE 0x2E
#define VK_HELP 0x2F
#define VK_LWIN 0x5B
#define VK_RWIN 0x5C
#define VK_APPS 0x5D
#define VK_SLEEP 0x5F
#define VK_NUMPAD0 0x60
#define VK_NUMPAD1 0x61
#define VK_NUMPAD2 0x62
#define VK_NUMPAD3 0x63
#define VK_NUMPAD4 0x64
#define VK_NUMPAD5 0x65
#define VK_NUMPAD6 0x66
#define VK_NUMPAD7 0x67
#define VK_NUMPAD8 0x68
#define VK_NUMPAD9 0x69
#define VK_MULTIPLY 0x6A
#define VK_ADD 0x6B
#define VK_SEPARATOR 0x6C
#define VK_SUBTRACT 0x6D
#define VK_DECIMAL 0x6E
#define VK_DIVIDE 0x6F
#define VK_F1 0x70
#define VK_F2 0x71
#define VK_F3 0x72
#define VK_F4 0x73
#define VK_F5 0x74
#define VK_F6 0x75
#define VK_F7 0x76
#define VK_F8 0x77
#define VK_F9 0x78
#define VK_F10 0x79
#define VK_F11 0x7A
#define VK_F12 0x7B
#define VK_F13 0x7C
#define VK_F14 0x7D
#define VK_F15 0x7E
#define VK_F16 0x7F
#define VK_F17 0x80
#define VK_F18 0x81
#define VK_F19 0x82
#define VK_F20 0x83
#define VK_F21 0x84
#define VK_F22 0x85
#define VK_F23 0x86
#define VK_F24 0x87
#define VK_NAVIGATION_VIEW 0x88
#define VK_NAVIGATION_MENU 0x89
#define VK_NAVIGATION_UP 0x8A
#define VK_NAVIGATION_DOWN 0x8B
#define VK_NAVIGATION_LEFT 0x8C
#define VK_NAVIGATION_RIGHT 0x8D
#define VK_NAVIGATION_ACCEPT 0x8E
#define VK_NAVIGATION_CANCEL 0x8F
#define VK_NUMLOCK 0x90
#define VK_SCROLL 0x91
#define VK_OEM_NEC_EQUAL 0x92
#define VK_OEM_FJ_JISHO 0x92
#define VK_OEM_FJ_MASSHOU 0x93
#define VK_OEM_FJ_TOUROKU 0x94
#define VK_OEM_FJ_LOYA 0x95
#define VK_OEM_FJ_ROYA 0x96
#define VK_LSHIFT 0xA0
#define VK_RSHIFT 0xA1
#define VK_LCONTROL 0xA2
#define VK_RCONTROL 0xA3
#define VK_LMENU 0xA4
#define VK_RMENU 0xA5
#define VK_BROWSER_BACK 0xA6
#define VK_BROWSER_FORWARD 0xA7
#define VK_BROWSER_REFRESH 0xA8
#define VK_BROWSER_STOP 0xA9
#define VK_BROWSER_SEARCH 0xAA
#define VK_BROWSER_FAVORITES 0xAB
#define VK_BROWSER_HOME 0xAC
#define VK_VOLUME_MUTE 0xAD
#define VK_VOLUME_DOWN 0xAE
#define VK_VOLUME_UP 0xAF
#define VK_MEDIA_NEXT_TRACK 0xB0
#define VK_MEDIA_PREV_TRACK 0xB1
#define VK_MEDIA_STOP 0xB2
#define VK_MEDIA_PLAY_PAUSE 0xB3
#define VK_LAUNCH_MAIL 0xB4
#define VK_LAUNCH_MEDIA_SELECT 0xB5
#define VK_LAUNCH_APP1 0xB6
#define VK_LAUNCH_APP2 0xB7
#define VK_OEM_1 0xBA
#define VK_OEM_PLUS 0xBB
#define VK_OEM_COMMA 0xBC
#define VK_OEM_MINUS 0xBD
#define VK_OEM_PERIOD 0xBE
#define VK_OEM_2 0xBF
#define VK_OEM_3 0xC0
#define VK_GAMEPAD_A 0xC3
#define VK_GAMEPAD_B 0xC4
#define VK_GAMEPAD_X 0xC5
#define VK_GAMEPAD_Y 0xC6
#define VK_GAMEPAD_RIGHT_SHOULDER 0xC7
#define VK_GAMEPAD_LEFT_SHOULDER 0xC8
#define VK_GAMEPAD_LEFT_TRIGGER 0xC9
#define VK_GAMEPAD_RIGHT_TRIGGER 0xCA
#define VK_GAMEPAD_DPAD_UP 0xCB
#define VK_GAMEPAD_DPAD_DOWN 0xCC
#define VK_GAMEPAD_DPAD_LEFT 0xCD
#define VK_GAMEPAD_DPAD_RIGHT 0xCE
#define VK_GAMEPAD_MENU 0xCF
#define VK_GAMEPAD_VIEW 0xD0
#define VK_GAMEPAD_LEFT_THUMBSTICK_BUTTON 0xD1
#define VK_GAMEPAD_RIGHT_THUMBSTICK_BUTTON 0xD2
#define VK_GAMEPAD_LEFT_THUMBSTICK_UP 0xD3
#define VK_GAMEPAD_LEFT_THUMBSTICK_DOWN 0xD4
#define VK_GAMEPAD_LEFT_THUMBSTICK_RIGHT 0xD5
#define VK_GAMEPAD_LEFT_THUMBSTICK_LEFT 0xD6
#define VK_GAMEPAD_RIGHT_THUMBSTICK_UP 0xD7
#define VK_GAMEPAD_RIGHT_THUMBSTICK_DOWN 0xD8
#define VK_GAMEPAD_RIGHT_THUMBSTICK_RIGHT 0xD9
#define VK_GAMEPAD_RIGHT_THUMBSTICK_LEFT 0xDA
#define VK_OEM_4 0xDB
#define VK_OEM_5 0xDC
#define VK_OEM_6 0xDD
#define VK_OEM_7 0xDE
#define VK_OEM_8 0xDF
#define VK_OEM_AX 0xE1
#define VK_OEM_102 0xE2
#define VK_ICO_HELP 0xE3
#define VK_ICO_00 0xE4
#define VK_PROCESSKEY 0xE5
#define VK_ICO_CLEAR 0xE6
#define VK_PACKET 0xE7
#define VK_OEM_RESET 0xE9
#define VK_OEM_JUMP 0xEA
#define VK_OEM_PA1 0xEB
#define VK_OEM_PA2 0xEC
#define VK_OEM_PA3 0xED
#define VK_OEM_WSCTRL 0xEE
#define VK_OEM_CUSEL 0xEF
#define VK_OEM_ATTN 0xF0
#define VK_OEM_FINISH 0xF1
#define VK_OEM_COPY 0xF2
#define VK_OEM_AUTO 0xF3
#define VK_OEM_ENLW 0xF4
#define VK_OEM_BACKTAB 0xF5
#define VK_ATTN 0xF6
#define VK_CRSEL 0xF7
#define VK_EXSEL 0xF8
#define VK_EREOF 0xF9
#define VK_PLAY 0xFA
#define VK_ZOOM 0xFB
#define VK_NONAME 0xFC
#define VK_PA1 0xFD
#define VK_OEM_CLEAR 0xFE
#include "winconst_more.h"

// ---- slack: functions the code does not call today
BOOL ReadConsoleOutputCharacterW(HANDLE, LPWSTR, DWORD, COORD, LPDWORD); BOOL ReadConsoleOutputAttribute(HANDLE, LPWORD, DWORD, COORD, LPDWORD);
BOOL WriteConsoleOutputCharacterW(HANDLE, LPCWSTR, DWORD, COORD, LPDWORD); BOOL WriteConsoleOutputAttribute(HANDLE, const WORD *, DWORD, COORD, LPDWORD);
#define ReadConsoleOutputCharacter ReadConsoleOutputCharacterW
#define WriteConsoleOutputCharacter WriteConsoleOutputCharacterW
DWORD GetConsoleOriginalTitleW(LPWSTR, DWORD);
DWORD GetFileType(HANDLE); BOOL IsWindow(HWND);
HANDLE GetProcessHeap(); LPVOID HeapAlloc(HANDLE, DWORD, SIZE_T); BOOL HeapFree(HANDLE, DWORD, LPVOID); LPVOID GlobalAlloc(UINT, SIZE_T); LPVOID GlobalFree(LPVOID);
HANDLE CreateMutexW(LPSECURITY_ATTRIBUTES, BOOL, LPCWSTR); BOOL ReleaseMutex(HANDLE);
#define CreateMutex CreateMutexW
#ifdef __cplusplus
inline int lstrlenW(LPCWSTR s) { int n = 0; if (s) while (s[n]) n++; return n; }
inline int lstrlenA(LPCSTR s) { return s ? (int)strlen(s) : 0; }
inline LPWSTR lstrcpyW(LPWSTR d, LPCWSTR s) { LPWSTR r = d; while ((*d++ = *s++)) {} return r; }
inline LPWSTR lstrcpynW(LPWSTR d, LPCWSTR s, int n) { int i = 0; for (; i + 1 < n && s[i]; i++) d[i] = s[i]; if (n > 0) d[i] = 0; return d; }
inline LPWSTR lstrcatW(LPWSTR d, LPCWSTR s) { lstrcpyW(d + lstrlenW(d), s); return d; }
inline int lstrcmpW(LPCWSTR a, LPCWSTR b) { while (*a && *a == *b) a++, b++; return *a < *b ? -1 : *a > *b; }
inline int _wcsicmp(LPCWSTR a, LPCWSTR b) { auto l = [](wchar_t c) { return c >= L'A' && c <= L'Z' ? (wchar_t)(c + 32) : c; }; while (*a && l(*a) == l(*b)) a++, b++; return (int)l(*a) - (int)l(*b); }
inline int _wcsnicmp(LPCWSTR a, LPCWSTR b, size_t n) { auto l = [](wchar_t c) { return c >= L'A' && c <= L'Z' ? (wchar_t)(c + 32) : c; }; for (; n; n--, a++, b++) if (l(*a) != l(*b) || !*a) return (int)l(*a) - (int)l(*b); return 0; }
inline int lstrcmpiW(LPCWSTR a, LPCWSTR b) { return _wcsicmp(a, b); }
inline int wcscpy_s(wchar_t *d, size_t n, LPCWSTR s) { if (!d || !n) return 22; if ((size_t)lstrlenW(s) >= n) { d[0] = 0; return 34; } lstrcpyW(d, s); return 0; }
inline int strcpy_s(char *d, size_t n, LPCSTR s) { if (!d || !n) return 22; if (strlen(s) >= n) { d[0] = 0; return 34; } strcpy(d, s); return 0; }
template <size_t N> inline int wcscpy_s(wchar_t (&d)[N], LPCWSTR s) { return wcscpy_s(d, N, s); }
template <size_t N> inline int strcpy_s(char (&d)[N], LPCSTR s) { return strcpy_s(d, N, s); }
inline int _wtoi(LPCWSTR s) { int r = 0, g = 1; while (*s == L' ') s++; if (*s == L'-') g = -1, s++; for (; *s >= L'0' && *s <= L'9'; s++) r = r * 10 + (*s - L'0'); return r * g; }
#ifndef _countof
#define _countof(a) (sizeof(a) / sizeof((a)[0]))
#endif
#endif
