#ifndef VERIF_SHIM_UPB_HPP_
#define VERIF_SHIM_UPB_HPP_
#include <memory>
#include "upb/upb_core.h"
namespace upb {
class Arena {
 public:
  Arena() : ptr_(upb_arena_new(), upb_arena_free) {}
  Arena(char* /*initial_block*/, size_t /*size*/)
      : ptr_(upb_arena_new(), upb_arena_free) {}
  upb_arena* ptr() { return ptr_.get(); }
  const upb_arena* ptr() const { return ptr_.get(); }
  bool Fuse(Arena& other) { return upb_arena_fuse(ptr(), other.ptr()); }

 private:
  std::unique_ptr<upb_arena, decltype(&upb_arena_free)> ptr_;
};
}  // namespace upb
#endif
