// Common declarations of the vtimba harness module.
#ifndef VT_H
#define VT_H 1
#include <MeqServer/py3compat.h>
#include <Python.h>
#include <OCTOPython/OctoPython.h>
#include <DMI/Record.h>
#include <DMI/Vec.h>
#include <DMI/List.h>
#include <DMI/NumArray.h>
#include <DMI/HIID.h>
#include <DMI/BlockSet.h>
#include <DMI/DynamicTypeManager.h>
#include <string>
#include <vector>
namespace vt {
using namespace DMI;
using DMI::ObjRef;
using DMI::HIID;
// a method table contributed by each vt_*.cc file
struct Methods { Methods (PyMethodDef *m); };
extern PyObject *Error;        // exceptions thrown by the code under test

inline PyObject * raise (const std::exception &exc)
{
  if( !PyErr_Occurred() )
    PyErr_SetString(Error,DMI::exceptionToString(exc).c_str());
  return 0;
}
#define VT_TRY try {
#define VT_END } catch( std::exception &exc ) { return vt::raise(exc); } \
  catch( ... ) { if( !PyErr_Occurred() ) PyErr_SetString(vt::Error,"unknown exception"); return 0; }

struct NoGIL { PyThreadState *ts; NoGIL () { ts=PyEval_SaveThread(); } ~NoGIL () { PyEval_RestoreThread(ts); } };

inline ObjRef toDMI (PyObject *obj)
{ ObjRef ref; if( OctoPython::pyToDMI(ref,obj) <= 0 && !ref.valid() ) throw std::runtime_error("vt: conversion to DMI failed"); return ref; }
inline DMI::Record::Ref toRec (PyObject *obj)
{ ObjRef ref = toDMI(obj); DMI::Record::Ref rec; rec = ref.ref_cast<DMI::Record>(); return rec; }
inline PyObject * fromDMI (const DMI::BObj &obj)
{ return OctoPython::pyFromDMI(obj); }
inline HIID toHIID (const char *s) { return HIID(std::string(s)); }
}
#endif
