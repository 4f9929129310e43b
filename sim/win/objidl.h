#ifndef SIM_OBJIDL_H
#define SIM_OBJIDL_H
#include <windows.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct STATSTG { LPOLESTR pwcsName; DWORD type; ULARGE_INTEGER cbSize; uint64_t mtime, ctime, atime; DWORD grfMode; DWORD grfLocksSupported; CLSID clsid; DWORD grfStateBits; DWORD reserved; } STATSTG;
enum { STGTY_STORAGE = 1, STGTY_STREAM = 2 };
enum { STREAM_SEEK_SET = 0, STREAM_SEEK_CUR = 1, STREAM_SEEK_END = 2 };
enum { STATFLAG_DEFAULT = 0, STATFLAG_NONAME = 1 };
#define STGM_READ 0
#define STGM_WRITE 1
#define STGM_READWRITE 2
#define STG_E_INVALIDFUNCTION ((HRESULT) 0x80030001)
#define STG_E_ACCESSDENIED ((HRESULT) 0x80030005)
#define STG_E_INSUFFICIENTMEMORY ((HRESULT) 0x80030008)
#define STG_E_INVALIDPOINTER ((HRESULT) 0x80030009)
#define STG_E_WRITEFAULT ((HRESULT) 0x8003001D)
#define STG_E_READFAULT ((HRESULT) 0x8003001E)
#define STG_E_INVALIDPARAMETER ((HRESULT) 0x80030057)
#define STG_E_MEDIUMFULL ((HRESULT) 0x80030070)
typedef struct IStream IStream;
typedef struct IStreamVtbl {
    HRESULT (*QueryInterface)(IStream*, REFIID, void**);
    ULONG (*AddRef)(IStream*);
    ULONG (*Release)(IStream*);
    HRESULT (*Read)(IStream*, void*, ULONG, ULONG*);
    HRESULT (*Write)(IStream*, const void*, ULONG, ULONG*);
    HRESULT (*Seek)(IStream*, LARGE_INTEGER, DWORD, ULARGE_INTEGER*);
    HRESULT (*SetSize)(IStream*, ULARGE_INTEGER);
    HRESULT (*CopyTo)(IStream*, IStream*, ULARGE_INTEGER, ULARGE_INTEGER*, ULARGE_INTEGER*);
    HRESULT (*Commit)(IStream*, DWORD);
    HRESULT (*Revert)(IStream*);
    HRESULT (*LockRegion)(IStream*, ULARGE_INTEGER, ULARGE_INTEGER, DWORD);
    HRESULT (*UnlockRegion)(IStream*, ULARGE_INTEGER, ULARGE_INTEGER, DWORD);
    HRESULT (*Stat)(IStream*, STATSTG*, DWORD);
    HRESULT (*Clone)(IStream*, IStream**);
} IStreamVtbl;
struct IStream { IStreamVtbl* lpVtbl; };
#define IStream_QueryInterface(s, a, b) ((s)->lpVtbl->QueryInterface((s), (a), (b)))
#define IStream_AddRef(s) ((s)->lpVtbl->AddRef(s))
#define IStream_Release(s) ((s)->lpVtbl->Release(s))
#define IStream_Read(s, a, b, c) ((s)->lpVtbl->Read((s), (a), (b), (c)))
#define IStream_Write(s, a, b, c) ((s)->lpVtbl->Write((s), (a), (b), (c)))
#define IStream_Seek(s, a, b, c) ((s)->lpVtbl->Seek((s), (a), (b), (c)))
#define IStream_SetSize(s, a) ((s)->lpVtbl->SetSize((s), (a)))
#define IStream_CopyTo(s, a, b, c, d) ((s)->lpVtbl->CopyTo((s), (a), (b), (c), (d)))
#define IStream_Commit(s, a) ((s)->lpVtbl->Commit((s), (a)))
#define IStream_Revert(s) ((s)->lpVtbl->Revert(s))
#define IStream_LockRegion(s, a, b, c) ((s)->lpVtbl->LockRegion((s), (a), (b), (c)))
#define IStream_UnlockRegion(s, a, b, c) ((s)->lpVtbl->UnlockRegion((s), (a), (b), (c)))
#define IStream_Stat(s, a, b) ((s)->lpVtbl->Stat((s), (a), (b)))
#define IStream_Clone(s, a) ((s)->lpVtbl->Clone((s), (a)))
extern const IID IID_IUnknown, IID_IDispatch, IID_ISequentialStream, IID_IStream;
int sim_guid_eq(const GUID* a, const GUID* b);
#define IsEqualGUID(a, b) sim_guid_eq((a), (b))
#define IsEqualIID(a, b) sim_guid_eq((a), (b))
#define IsEqualCLSID(a, b) sim_guid_eq((a), (b))
#define InlineIsEqualGUID(a, b) sim_guid_eq((a), (b))
#ifdef __cplusplus
}
#endif
#endif
