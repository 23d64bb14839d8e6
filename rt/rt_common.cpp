// Linked into both the symbolic and the native build: absl's out-of-line parts (the distribution
// only ships them compiled) and the replacements of tiro's error formatting.
#include "symx.h"
#include <absl/container/internal/raw_hash_set.h>
#include <absl/hash/internal/hash.h>
#include <absl/base/internal/raw_logging.h>
#include <cstring>
#include "common/error.hpp"

namespace absl {
inline namespace debian3 {
namespace container_internal {
alignas(16) ABSL_CONST_INIT ABSL_DLL const ctrl_t kEmptyGroup[16] = {
    ctrl_t::kSentinel, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty,
    ctrl_t::kEmpty,    ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty,
    ctrl_t::kEmpty,    ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty,
    ctrl_t::kEmpty,    ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty};
bool ShouldInsertBackwards(size_t, const ctrl_t*) { return false; }
void ConvertDeletedToEmptyAndFullToDeleted(ctrl_t* ctrl, size_t capacity) {
    for (ctrl_t* pos = ctrl; pos < ctrl + capacity; pos += Group::kWidth)
        Group{pos}.ConvertSpecialToEmptyAndFullToDeleted(pos);
    std::memcpy(ctrl + capacity + 1, ctrl, NumClonedBytes());
    ctrl[capacity] = ctrl_t::kSentinel;
}
template FindInfo find_first_non_full(const ctrl_t*, size_t, size_t);

}
namespace raw_logging_internal {
void RawLog(absl::LogSeverity, const char*, int, const char* m, ...) { symx_fail(m); }
}
namespace hash_internal {
const void* const MixingHashState::kSeed = (const void*) 0x517cc1b727220a95ull;
uint64_t MixingHashState::LowLevelHashImpl(const unsigned char* data, size_t len) {
    uint64_t h = len;
    for (size_t i = 0; i < len; ++i) h = (h << 5) - h + data[i];
    return h;
}
uint64_t MixingHashState::CombineLargeContiguousImpl64(uint64_t state, const unsigned char* first, size_t len) {
    return Mix(state, LowLevelHashImpl(first, len));
}
}
}
}

extern "C" {
// tiro's verification hook (TIRO_VERIFY): harnesses override it
__attribute__((weak)) bool tiro_verify_collect() { return false; }
// tiro::detail::{assert_fail,unreachable} only report, throw_error_impl drops the message text
[[noreturn]] void symx_rt_assert_fail(const char* cond, const char* msg) {
    (void) msg;
    symx_fail(cond);
}
[[noreturn]] void symx_rt_unreachable(const char* msg) {
    symx_fail(msg ? msg : "unreachable code");
}
[[noreturn]] void symx_rt_throw_error(uint64_t code) {
    throw tiro::Error((tiro_errc_t) code, "error");
}
}
