// Link with -Wl,--wrap=munmap: unmapped file regions stay reserved and unreadable, so that any use of a reference
// into a file mapping that was given up (closed, grown, remapped) faults instead of silently hitting the new mapping.
#ifndef VERIF_QUARANTINE_HPP
#define VERIF_QUARANTINE_HPP

#include <sys/mman.h>

#include <atomic>
#include <cstddef>
#include <mutex>
#include <vector>

namespace quarantine {

    inline std::atomic<std::size_t> unmapped{0}, bytes{0};

    struct region {
        void *addr;
        std::size_t len;
    };

    inline std::mutex mutex;
    inline std::vector<region> regions;

    // gives the reserved address space back; only between cases, when no reference can be alive
    inline void release();

}

extern "C" {
int __real_munmap(void *addr, std::size_t len);

inline int vh_quarantine_munmap(void *addr, std::size_t len) {
    if (mmap(addr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) {
        return __real_munmap(addr, len);
    }
    ++quarantine::unmapped;
    quarantine::bytes += len;
    const std::lock_guard lock{quarantine::mutex};
    quarantine::regions.push_back({addr, len});
    return 0;
}

#ifdef VERIF_QUARANTINE_MAIN
int __wrap_munmap(void *addr, std::size_t len) {
    return vh_quarantine_munmap(addr, len);
}
#endif
}

inline void quarantine::release() {
    const std::lock_guard lock{mutex};
    for (const auto &r : regions) {
        __real_munmap(r.addr, r.len);
    }
    regions.clear();
}

#endif
