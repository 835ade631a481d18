#include "ops_bad.h"
namespace sim::ops {
void reg_badm4() {
  reg_refuse<KRat>("rat");
  reg_refuse<KFpm>("fpm");
  reg_refuse<KFpn>("fpn");
}
} // namespace sim::ops
