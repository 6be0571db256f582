#include "vp.h"
extern "C" void vp_main(void) { // sanity: lowered comparisons agree with the hardware on chosen constants (validated natively)
  float x = vp_f32("x"), y = vp_f32("y"); static const float cs[] = { 0.f, -0.f, 1.5f, -2.25f, 1e-42f, -1e-42f, __builtin_inff(), -__builtin_inff(), 3e38f };
  float c = cs[vp_choose("c", 9)];
  vp_observe("a", x < c); vp_observe("b", x <= c); vp_observe("e", x == c); vp_observe("g", x > c); vp_observe("h", x >= c); vp_observe("u", x != x); vp_observe("xy", x < y); vp_observe("xy2", x <= y); vp_observe("xy3", x == y);
  double d = 0.1; vp_observe("d", x < d); vp_observe("d2", x <= d); vp_observe("d3", d < x); vp_observe("d4", x == d); vp_observe("d5", (double)x > -1e-50);
  if (x < c) vp_reach("lt"); else vp_reach("nlt"); if (x<=c) vp_reach("le"); if (x > c) vp_reach("gt"); if (x < y) vp_reach("xy"); else if (x == y) vp_reach("eq"); if (x < d) vp_reach("d"); if (x!=x) vp_reach("nan");
}
