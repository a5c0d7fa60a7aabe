#pragma once
#include <cstdint>
using dispatch_queue_t = struct FakeQueue*;
using dispatch_semaphore_t = struct FakeSemaphore*;
using dispatch_time_t = uint64_t;
enum { QOS_CLASS_USER_INITIATED = 0x19, QOS_CLASS_DEFAULT = 0x15, QOS_CLASS_UTILITY = 0x11 };
#define DISPATCH_TIME_NOW (0ull)
#define DISPATCH_TIME_FOREVER (~0ull)
#define NSEC_PER_MSEC 1000000ull
dispatch_queue_t dispatch_get_global_queue(long, unsigned long);
dispatch_queue_t dispatch_queue_create(char const*, void*);
dispatch_semaphore_t dispatch_semaphore_create(long);
long dispatch_semaphore_signal(dispatch_semaphore_t);
long dispatch_semaphore_wait(dispatch_semaphore_t, dispatch_time_t);
dispatch_time_t dispatch_time(dispatch_time_t, int64_t);
void dispatch_release(void*);
