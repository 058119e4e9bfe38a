/* Force-included, after compat.h, into MeqNodes/src/CasaParmTable.cc only. casacore 3.5 has 64-bit
   row numbers; that file passes Vector<uInt> to Table::operator(), which is ambiguous now.
   With the casacore headers read first, its own uses of uInt become rownr_t. */
#include <MeqNodes/CasaParmTable.h>
#include <MEQ/Meq.h>
#include <MEQ/Domain.h>
#include <MEQ/Polc.h>
#include <MEQ/PolcLog.h>
#include <MEQ/Spline.h>
#include <TimBase/Debug.h>
#include <casacore/tables/Tables/TableLocker.h>
#include <casacore/tables/Tables/TableDesc.h>
#include <casacore/tables/Tables/ScaColDesc.h>
#include <casacore/tables/Tables/ArrColDesc.h>
#include <casacore/tables/Tables/SetupNewTab.h>
#include <casacore/tables/TaQL/ExprNode.h>
#include <casacore/tables/TaQL/ExprNodeSet.h>
#include <casacore/tables/Tables/ScalarColumn.h>
#include <casacore/tables/Tables/ArrayColumn.h>
#include <casacore/tables/Tables/TableRecord.h>
#include <casacore/casa/Arrays/Matrix.h>
#include <casacore/casa/Arrays/Vector.h>
#include <casacore/casa/Arrays/ArrayUtil.h>
#include <casacore/casa/Arrays/Slice.h>
#include <casacore/casa/Utilities/GenSort.h>
#include <casacore/casa/BasicMath/Math.h>
#include <TimBase/BlitzToAips.h>
#define uInt rownr_t
