#include "ops_mat.h"
namespace sim::ops {
void reg_mat2() {
  reg_kind<KBit>("bit");
  reg_kind<KFp>("fp");
  reg_kind<KQ>("q");
  reg_kind<KFpr>("fpr");
}
} // namespace sim::ops
