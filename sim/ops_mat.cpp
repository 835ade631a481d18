#include "ops_mat.h"
namespace sim::ops {
void reg_mat() {
  reg_kind<KInt>("int");
  reg_kind<KF2>("f2");
  reg_kind<KF2r>("f2r");
  reg_kind<KF2nm>("f2nm");
}
} // namespace sim::ops
