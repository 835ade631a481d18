#include "ops_mat.h"
namespace sim::ops {
void reg_mat4() {
  reg_kind<KRat>("rat");
  reg_kind<KFpm>("fpm");
  reg_kind<KFpn>("fpn");
}
} // namespace sim::ops
