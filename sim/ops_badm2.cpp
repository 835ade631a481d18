#include "ops_bad.h"
namespace sim::ops {
void reg_badm2() {
  reg_refuse<KBit>("bit");
  reg_refuse<KFp>("fp");
  reg_refuse<KQ>("q");
  reg_refuse<KFpr>("fpr");
}
} // namespace sim::ops
