// Building and reading of MEQ objects through their C++ interface.
#ifndef VT_MEQ_H
#define VT_MEQ_H 1
#include "vt.h"
#include <MEQ/Result.h>
#include <MEQ/VellSet.h>
#include <MEQ/Vells.h>
#include <MEQ/Cells.h>
#include <MEQ/Request.h>
#include <MEQ/NodeFace.h>
namespace vt {
Meq::Vells::Ref vells_from (PyObject *obj);
PyObject * vells_to (const Meq::Vells &v);
Meq::Result::Ref make_result (PyObject *spec);
PyObject * read_result (const Meq::Result &res);
Meq::NodeFace & find_node (const char *name);
void set_source (const std::string &name,const std::vector<Meq::Result::Ref> &res,int rc,int us,int thr);
}
#endif
