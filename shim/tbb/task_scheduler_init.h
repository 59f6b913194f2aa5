// classic-TBB compatibility for oneTBB (verification harness only)
#pragma once
#include <memory>
#include <tbb/global_control.h>
#include <tbb/info.h>
namespace tbb {
class task_scheduler_init {
public:
    static const int automatic = -1;
    static int default_num_threads() { return tbb::info::default_concurrency(); }
    explicit task_scheduler_init(int n = automatic) {
        if (n > 0)
            m_gc = std::make_unique<tbb::global_control>(tbb::global_control::max_allowed_parallelism, n);
    }
private:
    std::unique_ptr<tbb::global_control> m_gc;
};
}
