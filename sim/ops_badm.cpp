#include "ops_bad.h"
namespace sim::ops {
void reg_badm() {
  reg_refuse<KInt>("int");
  reg_refuse<KF2>("f2");
  reg_refuse<KF2r>("f2r");
  reg_refuse<KF2nm>("f2nm");
}
} // namespace sim::ops
