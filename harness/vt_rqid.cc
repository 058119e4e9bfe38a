// Request ids: masks, comparison and component updates over a set of registers.
#include "vt_meq.h"
#include <MEQ/RequestId.h>
#include <MEQ/Request.h>
#include <MEQ/Forest.h>
#include <MEQ/SymdepMap.h>
namespace vt {
using namespace Meq;
Meq::Forest & the_forest ();
static HIID ints (PyObject *l)
{
  HIID id;
  for( int i=0; i<PySequence_Length(l); i++ )
  { OctoPython::PyObjectRef o = PySequence_GetItem(l,i); id.add(AtomicID(int(PyLong_AsLong(*o)))); }
  return id;
}
static PyObject * toints (const HIID &id)
{
  PyObject *l = PyList_New(id.size());
  for( size_t i=0; i<id.size(); i++ ) PyList_SetItem(l,i,PyLong_FromLong(id[i].id()));
  return l;
}
// rqid_prog([ints],[(op,a,b,mask,value)]) -> [(returned,[ints of all registers])]
static PyObject * rqid_prog (PyObject *,PyObject *args)
{
  PyObject *pids,*ops;
  if( !PyArg_ParseTuple(args,"OO",&pids,&ops) ) return 0;
  VT_TRY
  std::vector<RequestId> r;
  for( int i=0; i<PySequence_Length(pids); i++ )
  { OctoPython::PyObjectRef o = PySequence_GetItem(pids,i); r.push_back(ints(*o)); }
  PyObject *out = PyList_New(0);
  for( int i=0; i<PySequence_Length(ops); i++ )
  {
    OctoPython::PyObjectRef o = PySequence_GetItem(ops,i);
    const char *op; int a,b,mask,value;
    if( !PyArg_ParseTuple(*o,"siiii",&op,&a,&b,&mask,&value) ) return 0;
    std::string s(op);
    long ret = 0;
    const RequestId &rb = r[b];
    if( s == "mask" )        RqId::maskSubId(r[a],mask);
    else if( s == "incr" )   RqId::incrSubId(r[a],mask);
    else if( s == "set" )    RqId::setSubId(r[a],mask,value);
    else if( s == "maskc" )  r[a] = RqId::maskSubId(rb,mask);
    else if( s == "incrc" )  r[a] = RqId::incrSubId(rb,mask);
    else if( s == "setc" )   r[a] = RqId::setSubId(rb,mask,value);
    else if( s == "cmp" )    ret = RqId::maskedCompare(r[a],rb,mask);
    else if( s == "diff" )   ret = RqId::diffMask(r[a],rb);
    else if( s == "text" )   r[a] = HIID(rb.toString());
    else if( s == "mode" )   ret = RequestType::evalMode(rb);
    else if( s == "type" )   RequestType::setType(r[a],AtomicID(value));
    else if( s == "req" )    { Request req; req.setId(rb); Request::Ref ref; ref <<= new Request(req); r[a] = ref->id(); ret = ref->evalMode(); }
    else if( s == "reqtype" ){ Request req; req.setId(rb); req.setRequestType(AtomicID(value)); r[a] = req.id(); ret = req[HIID("Request.Id")].as<HIID>() == req.id(); }
    else throw std::runtime_error("vt: unknown operation");
    PyObject *l = PyList_New(0);
    for( size_t j=0; j<r.size(); j++ ) { PyObject *x = toints(r[j]); PyList_Append(l,x); Py_DECREF(x); }
    PyObject *t = Py_BuildValue("(lN)",ret,l); PyList_Append(out,t); Py_DECREF(t);
  }
  return out;
  VT_END
}
// symdep_incr([symdeps],ints) -> ints  (the forest's running counts)
static PyObject * symdep_incr (PyObject *,PyObject *args)
{
  PyObject *pd,*pi;
  if( !PyArg_ParseTuple(args,"OO",&pd,&pi) ) return 0;
  VT_TRY
  std::vector<HIID> deps;
  for( int i=0; i<PySequence_Length(pd); i++ )
  { OctoPython::PyObjectRef o = PySequence_GetItem(pd,i); deps.push_back(HIID(PyUnicode_AsUTF8(*o))); }
  RequestId id = ints(pi);
  if( deps.size() == 1 ) the_forest().incrRequestId(id,deps[0]);
  else                   the_forest().incrRequestId(id,deps);
  return toints(id);
  VT_END
}
// symdep_prog([(op,[names],mask)]) -> [(returned,active mask,{name:mask})]
static PyObject * symdep_prog (PyObject *,PyObject *args)
{
  PyObject *ops;
  if( !PyArg_ParseTuple(args,"O",&ops) ) return 0;
  VT_TRY
  SymdepMap map,other;
  PyObject *out = PyList_New(0);
  for( int i=0; i<PySequence_Length(ops); i++ )
  {
    OctoPython::PyObjectRef o = PySequence_GetItem(ops,i);
    const char *op; PyObject *names; int mask;
    if( !PyArg_ParseTuple(*o,"sOi",&op,&names,&mask) ) return 0;
    std::string s(op); std::vector<HIID> deps;
    for( int j=0; j<PySequence_Length(names); j++ )
    { OctoPython::PyObjectRef n = PySequence_GetItem(names,j); deps.push_back(HIID(PyUnicode_AsUTF8(*n))); }
    int ret = 0;
    if( s == "set" )          ret = map.set(deps[0],mask);
    else if( s == "active" )  ret = deps.empty() ? map.setActive() : deps.size() == 1 ? map.setActive(deps[0]) : map.setActive(deps);
    else if( s == "get" )     ret = map.getMask(deps);
    else if( s == "reload" )  { DMI::Record::Ref rec = map.toRecord(); ret = map.load(*rec); }
    else if( s == "copy" )    { ret = other.copyMap(map); other.setActive(map.getActive()); SymdepMap third(*map.toRecord()); third.setActive(map.getActive()); if( third.getActiveMask() != other.getActiveMask() ) throw std::runtime_error("vt: copies of a map differ"); ret = other.getActiveMask(); }
    else throw std::runtime_error("vt: unknown operation");
    PyObject *t = Py_BuildValue("(iiN)",ret,map.getActiveMask(),fromDMI(*map.toRecord())); PyList_Append(out,t); Py_DECREF(t);
  }
  return out;
  VT_END
}
static PyMethodDef methods[] = {
  { "rqid_prog",rqid_prog,METH_VARARGS,"" },
  { "symdep_incr",symdep_incr,METH_VARARGS,"" },
  { "symdep_prog",symdep_prog,METH_VARARGS,"" },
  { 0,0,0,0 } };
static Methods reg(methods);
}
