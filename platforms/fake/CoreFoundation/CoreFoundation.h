// The part of the macOS interface which the adapter needs. What it does: ../../darwin.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
using CFIndex = long;
using CFTypeRef = void const*;
using CFAllocatorRef = void const*;
using CFStringRef = struct FakeString const*;
using CFArrayRef = struct FakeArray const*;
struct CFArrayCallBacks { CFIndex version; };
extern CFArrayCallBacks const kCFTypeArrayCallBacks;
enum : uint32_t { kCFStringEncodingUTF8 = 0x08000100 };
#define kCFAllocatorDefault nullptr
CFStringRef CFStringCreateWithCString(CFAllocatorRef, char const*, uint32_t);
CFArrayRef CFArrayCreate(CFAllocatorRef, void const**, CFIndex, CFArrayCallBacks const*);
void CFRelease(CFTypeRef);
CFTypeRef CFRetain(CFTypeRef);
