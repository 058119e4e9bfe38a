#include "demo.h"
static void demo () {
  Result::Ref r; r <<= new Result(1); Cells::Ref c = cells(2,3);
  r().setVellSet(0,vellset({1,2,3,4,5,6},2,3));
  r().setCells(*c); src("a",r); src("b",r); node("s","MeqAdd",{"a","b"}); forest.initAll();
  Result::Ref out; int rc = execute(out,"s",request(c)); printf("rc %x %d\n%s\n",rc,(int)out.valid(),out.valid()?out->sdebug(5).c_str():"");
  vector<double> v = reals(out->vellSet(0).getValue()); for( double x: v ) printf("%g ",x); CHECK(same(v[5],12));  
}
