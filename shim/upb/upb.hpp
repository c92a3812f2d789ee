#ifndef VERIF_UPB_HPP_
#define VERIF_UPB_HPP_
#include "upb/upb_shim.h"
namespace upb {
class Arena {
 public:
  Arena() : p_(upb_arena_new()) {}
  ~Arena() { upb_arena_free(p_); }
  Arena(const Arena&) = delete;
  Arena& operator=(const Arena&) = delete;
  Arena(Arena&& o) noexcept : p_(o.p_) { o.p_ = upb_arena_new(); }
  upb_arena* ptr() { return p_; }
 private:
  upb_arena* p_;
};
}  // namespace upb
#endif
