#include "ops_bad.h"
namespace sim::ops {
void reg_badm3() {
  reg_refuse<KMod>("mod");
  reg_refuse<KF2m>("f2m");
  reg_refuse<KF2n>("f2n");
}
} // namespace sim::ops
