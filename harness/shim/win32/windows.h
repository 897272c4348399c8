/* The few Windows declarations random/randombytes.c needs, with Windows' widths (LLP64). */
#ifndef SHIM_WINDOWS_H
#define SHIM_WINDOWS_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
typedef uint32_t DWORD, ULONG, UINT; typedef int32_t LONG, NTSTATUS, BOOL; typedef uint8_t BYTE, UCHAR, BOOLEAN, *PUCHAR, *PBYTE; typedef void *HANDLE, *PVOID, *LPVOID; typedef uintptr_t HCRYPTPROV, ULONG_PTR; typedef size_t SIZE_T;
typedef const char *LPCSTR; typedef void *BCRYPT_ALG_HANDLE; typedef uint16_t WCHAR; typedef const WCHAR *LPCWSTR;
#define TRUE 1
#define FALSE 0
#define WINAPI
#define NT_SUCCESS(s) ((NTSTATUS)(s) >= 0)
#define BCRYPT_USE_SYSTEM_PREFERRED_RNG 0x00000002
#define PROV_RSA_FULL 1
#define PROV_RSA_AES 24
#define CRYPT_VERIFYCONTEXT 0xF0000000u
#define CRYPT_SILENT 0x00000040
#define MAXDWORD 0xffffffffu
#define ULONG_MAX_32 0xffffffffu
#define STATUS_SUCCESS ((NTSTATUS)0)
#define STATUS_UNSUCCESSFUL ((NTSTATUS)0xC0000001)
#define STATUS_INVALID_HANDLE ((NTSTATUS)0xC0000008)
#define STATUS_INVALID_PARAMETER ((NTSTATUS)0xC000000D)
#define STATUS_NO_MEMORY ((NTSTATUS)0xC0000017)
NTSTATUS BCryptGenRandom(BCRYPT_ALG_HANDLE, PUCHAR, ULONG, ULONG);
BOOL CryptAcquireContextA(HCRYPTPROV *, LPCSTR, LPCSTR, DWORD, DWORD); BOOL CryptAcquireContextW(HCRYPTPROV *, LPCWSTR, LPCWSTR, DWORD, DWORD);
#define CryptAcquireContext CryptAcquireContextA
BOOL CryptGenRandom(HCRYPTPROV, DWORD, BYTE *); BOOL CryptReleaseContext(HCRYPTPROV, DWORD); DWORD GetLastError(void); void SetLastError(DWORD);
#define ZeroMemory(p, n) memset((p), 0, (n))
#define SecureZeroMemory(p, n) memset((p), 0, (n))
#define RtlZeroMemory(p, n) memset((p), 0, (n))
#endif
