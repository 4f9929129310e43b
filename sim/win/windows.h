/* Stand-in for the Windows headers: just what a COM stream needs, on Linux. */
#ifndef SIM_WINDOWS_H
#define SIM_WINDOWS_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
#ifndef __cplusplus
typedef uint16_t WCHAR;
#else
typedef uint16_t WCHAR;
#endif
typedef uint8_t BYTE;
typedef int BOOL;
typedef int32_t LONG;
typedef uint32_t ULONG;
typedef uint32_t UINT;
typedef uint32_t DWORD;
typedef uint16_t WORD;
typedef int64_t LONGLONG;
typedef uint64_t ULONGLONG;
typedef int32_t HRESULT;
typedef void* HANDLE;
typedef struct SIM_RES* HRSRC;
typedef void* HGLOBAL;
typedef void* HINSTANCE;
typedef HINSTANCE HMODULE;
typedef void* LPVOID;
typedef const WCHAR* LPCWSTR;
typedef WCHAR* LPWSTR;
typedef WCHAR OLECHAR;
typedef WCHAR* LPOLESTR;
#define VOID void
#define TRUE 1
#define FALSE 0
#define WINAPI
#define STDMETHODCALLTYPE
#define CONST const
typedef union LARGE_INTEGER { struct { DWORD LowPart; LONG HighPart; } u; struct { DWORD LowPart; LONG HighPart; }; LONGLONG QuadPart; } LARGE_INTEGER;
typedef union ULARGE_INTEGER { struct { DWORD LowPart; DWORD HighPart; } u; struct { DWORD LowPart; DWORD HighPart; }; ULONGLONG QuadPart; } ULARGE_INTEGER;
typedef struct GUID { uint32_t Data1; uint16_t Data2, Data3; uint8_t Data4[8]; } GUID, IID, CLSID;
typedef const IID* REFIID;
#define S_OK ((HRESULT) 0)
#define S_FALSE ((HRESULT) 1)
#define NOERROR 0
#define ERROR_SUCCESS 0
#define ERROR_NOT_ENOUGH_MEMORY 8
#define ERROR_OUTOFMEMORY 14
#define ERROR_RESOURCE_DATA_NOT_FOUND 1812
#define ERROR_RESOURCE_NAME_NOT_FOUND 1814
#define E_UNEXPECTED ((HRESULT) 0x8000FFFF)
#define E_NOTIMPL ((HRESULT) 0x80004001)
#define E_NOINTERFACE ((HRESULT) 0x80004002)
#define E_POINTER ((HRESULT) 0x80004003)
#define E_ABORT ((HRESULT) 0x80004004)
#define E_FAIL ((HRESULT) 0x80004005)
#define E_ACCESSDENIED ((HRESULT) 0x80070005)
#define E_OUTOFMEMORY ((HRESULT) 0x8007000E)
#define E_INVALIDARG ((HRESULT) 0x80070057)
#define FACILITY_WIN32 7
#define SUCCEEDED(hr) (((HRESULT) (hr)) >= 0)
#define FAILED(hr) (((HRESULT) (hr)) < 0)
#define HRESULT_FROM_WIN32(x) ((HRESULT) (x) <= 0 ? (HRESULT) (x) : (HRESULT) (((x) & 0x0000FFFF) | (FACILITY_WIN32 << 16) | 0x80000000))
#define MAXDWORD 0xffffffffu
#define MAXULONG 0xffffffffu
LONG sim_InterlockedIncrement(LONG volatile* p);
LONG sim_InterlockedDecrement(LONG volatile* p);
LONG sim_InterlockedExchange(LONG volatile* p, LONG v);
LONG sim_InterlockedCompareExchange(LONG volatile* p, LONG v, LONG c);
LONG sim_InterlockedExchangeAdd(LONG volatile* p, LONG v);
#define InterlockedIncrement(p) sim_InterlockedIncrement((LONG volatile*) (p))
#define InterlockedDecrement(p) sim_InterlockedDecrement((LONG volatile*) (p))
#define InterlockedExchange(p, v) sim_InterlockedExchange((LONG volatile*) (p), (v))
#define InterlockedCompareExchange(p, v, c) sim_InterlockedCompareExchange((LONG volatile*) (p), (v), (c))
#define InterlockedExchangeAdd(p, v) sim_InterlockedExchangeAdd((LONG volatile*) (p), (v))
#define InterlockedAdd(p, v) (sim_InterlockedExchangeAdd((LONG volatile*) (p), (v)) + (v))
#define InterlockedAnd(p, v) sim_il_bits((LONG volatile*) (p), 0, (v))
#define InterlockedOr(p, v) sim_il_bits((LONG volatile*) (p), 1, (v))
#define InterlockedXor(p, v) sim_il_bits((LONG volatile*) (p), 2, (v))
static inline LONG sim_il_bits(LONG volatile* p, int op, LONG v) {
    for(;;) { LONG o = sim_InterlockedCompareExchange(p, 0, 0), n = op == 0 ? (o & v) : op == 1 ? (o | v) : (o ^ v); if(sim_InterlockedCompareExchange(p, n, o) == o) return o; }
}
#define InterlockedIncrementAcquire InterlockedIncrement
#define InterlockedIncrementRelease InterlockedIncrement
#define InterlockedIncrementNoFence InterlockedIncrement
#define InterlockedDecrementAcquire InterlockedDecrement
#define InterlockedDecrementRelease InterlockedDecrement
#define InterlockedDecrementNoFence InterlockedDecrement
#define InterlockedExchangeAcquire InterlockedExchange
#define InterlockedExchangeNoFence InterlockedExchange
#define InterlockedCompareExchangeAcquire InterlockedCompareExchange
#define InterlockedCompareExchangeRelease InterlockedCompareExchange
#define InterlockedCompareExchangeNoFence InterlockedCompareExchange
#define InterlockedExchangeAddAcquire InterlockedExchangeAdd
#define InterlockedExchangeAddRelease InterlockedExchangeAdd
#define InterlockedExchangeAddNoFence InterlockedExchangeAdd
#define InterlockedExchangeSubtract(p, v) InterlockedExchangeAdd((p), -(LONG) (v))
#define _InterlockedIncrement InterlockedIncrement
#define _InterlockedDecrement InterlockedDecrement
#define _InterlockedExchange InterlockedExchange
#define _InterlockedCompareExchange InterlockedCompareExchange
#define _InterlockedExchangeAdd InterlockedExchangeAdd
#define _InterlockedAnd InterlockedAnd
#define _InterlockedOr InterlockedOr
#define _InterlockedXor InterlockedXor
#define ReadAcquire(p) sim_InterlockedCompareExchange((LONG volatile*) (p), 0, 0)
#define ReadNoFence ReadAcquire
#define ReadRaw ReadAcquire
#define WriteRelease(p, v) ((void) sim_InterlockedExchange((LONG volatile*) (p), (v)))
#define WriteNoFence WriteRelease
#define WriteRaw WriteRelease
#define MemoryBarrier() ((void) 0)
#define YieldProcessor() ((void) 0)
typedef void* PVOID;
typedef const void* LPCVOID;
typedef char CHAR;
typedef short SHORT;
typedef int INT;
typedef unsigned char UCHAR;
typedef unsigned short USHORT;
typedef BYTE* PBYTE;
typedef BYTE* LPBYTE;
typedef BYTE BOOLEAN;
typedef const char* LPCSTR;
typedef const char* PCSTR;
typedef char* LPSTR;
typedef const WCHAR* PCWSTR;
typedef WCHAR* PWSTR;
typedef ULONG* PULONG;
typedef LONG* PLONG;
typedef DWORD* LPDWORD;
typedef DWORD* PDWORD;
typedef size_t SIZE_T;
typedef ptrdiff_t SSIZE_T;
typedef uintptr_t ULONG_PTR;
typedef intptr_t LONG_PTR;
typedef uintptr_t UINT_PTR;
typedef intptr_t INT_PTR;
typedef uintptr_t DWORD_PTR;
typedef int64_t LONG64;
typedef int64_t INT64;
typedef int32_t INT32;
typedef uint64_t ULONG64;
typedef uint64_t DWORD64;
typedef uint64_t UINT64;
typedef uint32_t UINT32;
typedef uint32_t ULONG32;
typedef LARGE_INTEGER* PLARGE_INTEGER;
typedef ULARGE_INTEGER* PULARGE_INTEGER;
typedef uint64_t DWORDLONG;
typedef const GUID* REFGUID;
typedef const CLSID* REFCLSID;
#define __int64 long long
#define __int32 int
#define MAXLONG 0x7fffffff
#define MINLONG ((LONG) 0x80000000)
#define MAXUINT 0xffffffffu
#define MAXINT 0x7fffffff
#define MAXLONGLONG INT64_MAX
#define MAXULONGLONG UINT64_MAX
#define ULONG_MAX_WIN 0xffffffffu
#define MAXWORD 0xffff
#define MAXSIZE_T SIZE_MAX
#define UNREFERENCED_PARAMETER(p) ((void) (p))
#define FIELD_OFFSET(t, f) ((LONG) offsetof(t, f))
#define CONTAINING_RECORD(a, t, f) ((t*) ((char*) (a) - offsetof(t, f)))
#define ARRAYSIZE(a) (sizeof(a) / sizeof *(a))
#define FORCEINLINE static inline
#define STDMETHODIMP HRESULT
#define STDMETHODIMP_(t) t
#define APIENTRY
#define CALLBACK
#define IN
#define OUT
#define OPTIONAL
#define _In_
#define _In_opt_
#define _Out_
#define _Out_opt_
#define _Inout_
#define HRESULT_CODE(hr) ((hr) & 0xffff)
#define MAKE_HRESULT(s, f, c) ((HRESULT) (((unsigned long) (s) << 31) | ((unsigned long) (f) << 16) | (unsigned long) (c)))
#define MAKEINTRESOURCEW(i) ((LPWSTR) (ULONG_PTR) (WORD) (i))
#define MAKEINTRESOURCE MAKEINTRESOURCEW
#define IS_INTRESOURCE(p) (((ULONG_PTR) (p) >> 16) == 0)
#ifndef __cplusplus
#ifndef min
#define min(a, b) (((a) < (b)) ? (a) : (b))
#endif
#ifndef max
#define max(a, b) (((a) > (b)) ? (a) : (b))
#endif
#endif
#define HEAP_ZERO_MEMORY 8
#define LPTR 0x40
#define LMEM_FIXED 0
#define LMEM_ZEROINIT 0x40
#define GMEM_FIXED 0
#define GMEM_ZEROINIT 0x40
#define GPTR 0x40
/* All system allocators are the C heap of the module which calls them. */
#ifndef __cplusplus
static inline HANDLE GetProcessHeap(void) { return (HANDLE) (uintptr_t) 1; }
static inline LPVOID HeapAlloc(HANDLE h, DWORD fl, SIZE_T n) { void* p = malloc(n); (void) h; if(p && (fl & HEAP_ZERO_MEMORY)) memset(p, 0, n); return p; }
static inline LPVOID HeapReAlloc(HANDLE h, DWORD fl, LPVOID p, SIZE_T n) { (void) h; (void) fl; return realloc(p, n); }
static inline BOOL HeapFree(HANDLE h, DWORD fl, LPVOID p) { (void) h; (void) fl; free(p); return TRUE; }
static inline HANDLE LocalAlloc(UINT fl, SIZE_T n) { void* p = malloc(n); if(p && (fl & 0x40)) memset(p, 0, n); return p; }
static inline HANDLE LocalFree(HANDLE p) { free(p); return NULL; }
static inline HANDLE GlobalAlloc(UINT fl, SIZE_T n) { return LocalAlloc(fl, n); }
static inline HANDLE GlobalFree(HANDLE p) { free(p); return NULL; }
static inline LPVOID CoTaskMemAlloc(SIZE_T n) { return malloc(n); }
static inline void CoTaskMemFree(LPVOID p) { free(p); }
#endif
HRSRC FindResourceW(HINSTANCE inst, LPCWSTR name, LPCWSTR type);
DWORD SizeofResource(HINSTANCE inst, HRSRC res);
HGLOBAL LoadResource(HINSTANCE inst, HRSRC res);
LPVOID LockResource(HGLOBAL g);
DWORD GetLastError(void);
void SetLastError(DWORD e);
#define CopyMemory memcpy
#define RtlCopyMemory memcpy
#define RtlMoveMemory memmove
#define RtlZeroMemory(p, n) memset((p), 0, (n))
#define FillMemory(p, n, c) memset((p), (c), (n))
#define FindResource FindResourceW
#define MoveMemory memmove
#define ZeroMemory(p, n) memset((p), 0, (n))
#ifdef __cplusplus
}
#endif
#endif
