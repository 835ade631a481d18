#include "ops_mat.h"
namespace sim::ops {
void reg_mat3() {
  reg_kind<KMod>("mod");
  reg_kind<KF2m>("f2m");
  reg_kind<KF2n>("f2n");
}
} // namespace sim::ops
