#pragma once
#include <windows.h>
typedef ULONG_PTR HCRYPTPROV;
#define PROV_RSA_FULL 1
#define CRYPT_VERIFYCONTEXT 0xF0000000u
BOOL CryptAcquireContextW(HCRYPTPROV *, LPCWSTR, LPCWSTR, DWORD, DWORD); BOOL CryptReleaseContext(HCRYPTPROV, DWORD); BOOL CryptGenRandom(HCRYPTPROV, DWORD, BYTE *);
#define CryptAcquireContext CryptAcquireContextW
