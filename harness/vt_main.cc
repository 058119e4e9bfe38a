#include "vt.h"
namespace vt {
PyObject *Error = 0;
static std::vector<PyMethodDef> & table () { static std::vector<PyMethodDef> t; return t; }
Methods::Methods (PyMethodDef *m) { for( ; m->ml_name; m++ ) table().push_back(*m); }
static PyModuleDef moddef = { PyModuleDef_HEAD_INIT, "vtimba", "harness", -1, 0, 0,0,0,0 };
}
PyMODINIT_FUNC PyInit_vtimba ()
{
  vt::table().push_back(PyMethodDef{0,0,0,0});
  vt::moddef.m_methods = vt::table().data();
  PyObject *m = PyModule_Create(&vt::moddef);
  vt::Error = PyErr_NewException("vtimba.Error",0,0);
  Py_INCREF(vt::Error);
  PyModule_AddObject(m,"Error",vt::Error);
  return m;
}
