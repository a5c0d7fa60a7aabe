#pragma once
#include "../CoreFoundation/CoreFoundation.h"
#include "../dispatch/dispatch.h"
using FSEventStreamRef = struct FakeStream*;
using ConstFSEventStreamRef = struct FakeStream const*;
using FSEventStreamEventId = uint64_t;
using FSEventStreamEventFlags = uint32_t;
using FSEventStreamCreateFlags = uint32_t;
using CFTimeInterval = double;
using Boolean = unsigned char;
using CFAllocatorRetainCallBack = void const* (*)(void const*);
using CFAllocatorReleaseCallBack = void (*)(void const*);
using CFAllocatorCopyDescriptionCallBack = CFStringRef (*)(void const*);
struct FSEventStreamContext { CFIndex version; void* info; CFAllocatorRetainCallBack retain; CFAllocatorReleaseCallBack release; CFAllocatorCopyDescriptionCallBack copyDescription; };
using FSEventStreamCallback = void (*)(ConstFSEventStreamRef, void*, size_t, void*, FSEventStreamEventFlags const*, FSEventStreamEventId const*);
enum : uint32_t {
  kFSEventStreamCreateFlagNone = 0, kFSEventStreamCreateFlagUseCFTypes = 1, kFSEventStreamCreateFlagNoDefer = 2, kFSEventStreamCreateFlagWatchRoot = 4,
  kFSEventStreamCreateFlagIgnoreSelf = 8, kFSEventStreamCreateFlagFileEvents = 16,
  kFSEventStreamEventFlagNone = 0, kFSEventStreamEventFlagMustScanSubDirs = 1, kFSEventStreamEventFlagUserDropped = 2, kFSEventStreamEventFlagKernelDropped = 4,
  kFSEventStreamEventFlagEventIdsWrapped = 8, kFSEventStreamEventFlagHistoryDone = 0x10, kFSEventStreamEventFlagRootChanged = 0x20,
  kFSEventStreamEventFlagMount = 0x40, kFSEventStreamEventFlagUnmount = 0x80,
  kFSEventStreamEventFlagItemCreated = 0x100, kFSEventStreamEventFlagItemRemoved = 0x200, kFSEventStreamEventFlagItemInodeMetaMod = 0x400,
  kFSEventStreamEventFlagItemRenamed = 0x800, kFSEventStreamEventFlagItemModified = 0x1000, kFSEventStreamEventFlagItemFinderInfoMod = 0x2000,
  kFSEventStreamEventFlagItemChangeOwner = 0x4000, kFSEventStreamEventFlagItemXattrMod = 0x8000, kFSEventStreamEventFlagItemIsFile = 0x10000,
  kFSEventStreamEventFlagItemIsDir = 0x20000, kFSEventStreamEventFlagItemIsSymlink = 0x40000, kFSEventStreamEventFlagOwnEvent = 0x80000,
  kFSEventStreamEventFlagItemIsHardlink = 0x100000, kFSEventStreamEventFlagItemIsLastHardlink = 0x200000, kFSEventStreamEventFlagItemCloned = 0x400000,
};
inline constexpr FSEventStreamEventId kFSEventStreamEventIdSinceNow = ~0ull;
FSEventStreamRef FSEventStreamCreate(CFAllocatorRef, FSEventStreamCallback, FSEventStreamContext*, CFArrayRef, FSEventStreamEventId, CFTimeInterval, FSEventStreamCreateFlags);
void FSEventStreamSetDispatchQueue(FSEventStreamRef, dispatch_queue_t);
Boolean FSEventStreamStart(FSEventStreamRef);
void FSEventStreamFlushSync(FSEventStreamRef);
FSEventStreamEventId FSEventStreamFlushAsync(FSEventStreamRef);
void FSEventStreamStop(FSEventStreamRef);
void FSEventStreamInvalidate(FSEventStreamRef);
void FSEventStreamRelease(FSEventStreamRef);
