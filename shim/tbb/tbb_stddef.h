// classic-TBB compatibility for oneTBB (verification harness only)
#pragma once
#include <oneapi/tbb/detail/_config.h>
#include <oneapi/tbb/version.h>
#include <tbb/blocked_range.h>
#include <tbb/enumerable_thread_specific.h>
#include <tbb/cache_aligned_allocator.h>
#include <tbb/global_control.h>
#include <tbb/task_arena.h>
