// The part of the Windows interface which the adapter needs. What it does: windows.cpp.
// WCHAR is wchar_t, four bytes here; lengths in bytes count two per character, as there.
#pragma once
#include <cstdint>
#include <cstring>
using DWORD = uint32_t;
using BOOL = int;
using ULONG_PTR = uintptr_t;
using HANDLE = void*;
using WCHAR = wchar_t;
struct OVERLAPPED { ULONG_PTR Internal, InternalHigh; DWORD Offset, OffsetHigh; HANDLE hEvent; };
using LPOVERLAPPED = OVERLAPPED*;
struct FILE_NOTIFY_INFORMATION { DWORD NextEntryOffset, Action, FileNameLength; WCHAR FileName[1]; };
#define TRUE 1
#define FALSE 0
#define INFINITE 0xffffffffu
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
enum : DWORD {
  FILE_LIST_DIRECTORY = 1, FILE_SHARE_READ = 1, FILE_SHARE_WRITE = 2, FILE_SHARE_DELETE = 4, OPEN_EXISTING = 3,
  FILE_FLAG_BACKUP_SEMANTICS = 0x02000000, FILE_FLAG_OVERLAPPED = 0x40000000,
  FILE_NOTIFY_CHANGE_FILE_NAME = 1, FILE_NOTIFY_CHANGE_DIR_NAME = 2, FILE_NOTIFY_CHANGE_ATTRIBUTES = 4, FILE_NOTIFY_CHANGE_SIZE = 8,
  FILE_NOTIFY_CHANGE_LAST_WRITE = 16, FILE_NOTIFY_CHANGE_LAST_ACCESS = 32, FILE_NOTIFY_CHANGE_CREATION = 64, FILE_NOTIFY_CHANGE_SECURITY = 256,
  FILE_ACTION_ADDED = 1, FILE_ACTION_REMOVED, FILE_ACTION_MODIFIED, FILE_ACTION_RENAMED_OLD_NAME, FILE_ACTION_RENAMED_NEW_NAME,
  ERROR_SUCCESS = 0, ERROR_FILE_NOT_FOUND = 2, ERROR_TOO_MANY_OPEN_FILES = 4, ERROR_ACCESS_DENIED = 5, ERROR_INVALID_HANDLE = 6, ERROR_NOT_ENOUGH_MEMORY = 8, ERROR_INVALID_PARAMETER = 87,
  WAIT_TIMEOUT = 258, ERROR_OPERATION_ABORTED = 995, ERROR_IO_INCOMPLETE = 996, ERROR_IO_PENDING = 997, ERROR_NOT_FOUND = 1168, ERROR_NOTIFY_ENUM_DIR = 1022,
  WAIT_OBJECT_0 = 0, WAIT_FAILED = 0xffffffffu,
};
HANDLE CreateEventW(void*, BOOL, BOOL, WCHAR const*);
BOOL ResetEvent(HANDLE);
BOOL SetEvent(HANDLE);
// paths are wide there
HANDLE CreateFileW(char const*, DWORD, DWORD, void*, DWORD, DWORD, HANDLE);
HANDLE CreateIoCompletionPort(HANDLE, HANDLE, ULONG_PTR, DWORD);
BOOL CloseHandle(HANDLE);
BOOL ReadDirectoryChangesW(HANDLE, void*, DWORD, BOOL, DWORD, DWORD*, OVERLAPPED*, void*);
BOOL GetQueuedCompletionStatus(HANDLE, DWORD*, ULONG_PTR*, LPOVERLAPPED*, DWORD);
BOOL CancelIo(HANDLE);
BOOL CancelIoEx(HANDLE, OVERLAPPED*);
BOOL GetOverlappedResult(HANDLE, OVERLAPPED*, DWORD*, BOOL);
DWORD WaitForSingleObject(HANDLE, DWORD);
DWORD GetLastError();
void SetLastError(DWORD);
