// Whatever the clock shows.
#include "groups.h"
static int readings;
static long anyTime() { readings++; return sx_long("clock", 0, 4000000000000000000L); }
extern "C" void sx_main() {
  sx_merge_mode(1);
  GenexAPI api; Rows r = symbolicRows("v", LENS); load(api, "a", r); load(api, "b", r);
  int whole = sx_choose("whole", 0, 1);
  int n = api.groupDataset("a", 1, "manhattan", 1, whole);
  sx_clock_hook = anyTime;
  int m = api.groupDataset("b", 1, "manhattan", 1, whole);
  sx_clock_hook = 0;
  sx_assert(n == m, "same number of groups");
  checkSameGroups(groupsOf(api, "a"), groupsOf(api, "b", "b.txt"));
  REACH;
}
