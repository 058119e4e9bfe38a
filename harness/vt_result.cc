#include <MEQ/NodeFace.h>
#include "vt_meq.h"
#include <DMI/BlockSet.h>
#include <DMI/DynamicTypeManager.h>
namespace vt {
using namespace Meq;
using OctoPython::PyObjectRef;

static PyObject * item (PyObject *d,const char *k)    // borrowed, 0 if None or absent
{ PyObject *o = PyDict_GetItemString(d,k); return o == Py_None ? 0 : o; }

// spec: dict(dims=[..]|None, cells=MeqCells|None, planes=[ {} | {fail:[..]} |
//   {v:array,f:array,w:array,spids:[..],perts:[[..],..],pv:[[array,..],..]} ])
Result::Ref make_result (PyObject *spec)
{
  PyObject *planes = item(spec,"planes"), *dims = item(spec,"dims"), *cells = item(spec,"cells");
  int n = PyList_Size(planes);
  Result::Ref ref;
  if( dims )
  {
    LoShape d; d.resize(PyList_Size(dims));
    for( size_t i=0; i<d.size(); i++ ) d[i] = PyLong_AsLong(PyList_GetItem(dims,i));
    ref <<= new Result(d);
  }
  else
    ref <<= new Result(n);
  for( int i=0; i<n; i++ )
  {
    PyObject *p = PyList_GetItem(planes,i);
    PyObject *fail = item(p,"fail"), *sp = item(p,"spids"), *pe = item(p,"perts"), *pv = item(p,"pv");
    int ns = sp ? PyList_Size(sp) : 0, nset = pe ? PyList_Size(pe) : 1;
    VellSet *vs = new VellSet(ns,nset);
    VellSet::Ref vref(vs);
    auto addfail = [&]()
    {
      DMI::ExceptionList el;
      for( int j=0; j<PyList_Size(fail); j++ )
        el.add(LOFAR::Exception(PyUnicode_AsUTF8(PyList_GetItem(fail,j))));
      vs->addFail(el);
    };
    // a fail may be added to a plane with data, which then is lost
    if( fail && !item(p,"v") ) addfail();
    else
    {
      if( item(p,"f") ) vs->setDataFlags(vells_from(item(p,"f")));
      if( item(p,"w") ) vs->setDataWeights(vells_from(item(p,"w")));
      if( item(p,"v") ) { Vells::Ref v = vells_from(item(p,"v")); vs->setValue(v); }
      if( ns )
      {
        std::vector<int> ids(ns);
        for( int j=0; j<ns; j++ ) ids[j] = PyLong_AsLong(PyList_GetItem(sp,j));
        vs->setSpids(ids);
        for( int s=0; s<nset; s++ )
          for( int j=0; j<ns; j++ )
          {
            vs->setPerturbation(j,PyFloat_AsDouble(PyList_GetItem(PyList_GetItem(pe,s),j)),s);
            Vells::Ref v = vells_from(PyList_GetItem(PyList_GetItem(pv,s),j));
            vs->setPerturbedValue(j,v,s);
          }
      }
      if( fail ) addfail();
    }
    ref().setVellSet(i,vref);
  }
  if( PyErr_Occurred() ) { PyErr_Clear(); throw std::runtime_error("vt: bad result spec"); }
  if( cells )
  {
    ObjRef c = toDMI(cells); Cells::Ref cref; cref = c.ref_cast<Cells>();
    ref().setCells(*cref);
  }
  return ref;
}
static void put (PyObject *d,const char *k,PyObject *v) { PyDict_SetItemString(d,k,v); Py_DECREF(v); }
static PyObject * ints (const LoShape &s)
{ PyObject *l = PyList_New(0); for( size_t i=0; i<s.size(); i++ ) { PyObject *o = PyLong_FromLong(s[i]); PyList_Append(l,o); Py_DECREF(o); } return l; }

PyObject * read_result (const Result &res)
{
  PyObject *out = PyDict_New(), *planes = PyList_New(0);
  put(out,"dims",ints(res.dims()));
  for( int i=0; i<res.numVellSets(); i++ )
  {
    const VellSet &vs = res.vellSet(i);
    PyObject *p = PyDict_New();
    if( vs.isFail() )
    {
      PyObject *l = PyList_New(0);
      for( int j=0; j<vs.numFails(); j++ )
      { std::string m; try { m = vs.getFailMessage(j); } catch( std::exception & ) { m = "(no message)"; }   // fails need not have a message
        PyObject *o = PyUnicode_DecodeUTF8(m.c_str(),m.size(),"replace"); PyList_Append(l,o); Py_DECREF(o); }
      put(p,"fail",l);
      // a fail has nothing else
      if( vs.hasValue() || vs.hasDataFlags() || vs.hasDataWeights() || vs.hasShape() || vs.numSpids() )
        put(p,"fail_with_data",PyLong_FromLong(1));
    }
    else
    {
      if( vs.hasShape() ) put(p,"shape",ints(vs.shape()));
      if( vs.hasValue() )
      {
        put(p,"v",vells_to(vs.getValue()));
        if( vs.getValue().hasDataFlags() ) put(p,"vf",vells_to(vs.getValue().dataFlags()));
      }
      if( vs.hasDataFlags() ) put(p,"f",vells_to(vs.dataFlags()));
      if( vs.hasDataWeights() ) put(p,"w",vells_to(vs.dataWeights()));
      if( vs.numSpids() )
      {
        PyObject *l = PyList_New(0);
        for( int j=0; j<vs.numSpids(); j++ ) { PyObject *o = PyLong_FromLong(vs.getSpid(j)); PyList_Append(l,o); Py_DECREF(o); }
        put(p,"spids",l);
        PyObject *pe = PyList_New(0), *pv = PyList_New(0);
        for( int s=0; s<vs.numPertSets(); s++ )
        {
          PyObject *a = PyList_New(0), *b = PyList_New(0);
          for( int j=0; j<vs.numSpids(); j++ )
          {
            PyObject *o = PyFloat_FromDouble(vs.getPerturbation(j,s)); PyList_Append(a,o); Py_DECREF(o);
            o = vells_to(vs.getPerturbedValue(j,s)); PyList_Append(b,o); Py_DECREF(o);
          }
          PyList_Append(pe,a); PyList_Append(pv,b); Py_DECREF(a); Py_DECREF(b);
        }
        put(p,"perts",pe); put(p,"pv",pv);
      }
    }
    PyList_Append(planes,p); Py_DECREF(p);
  }
  put(out,"planes",planes);
  if( res.hasCells() ) put(out,"cells",fromDMI(res.cells()));
  return out;
}
// src(name,[spec],retcode,sleep_us,throws)
static PyObject * src (PyObject *,PyObject *args)
{
  const char *name; PyObject *lst; int rc=0,us=0,thr=0;
  if( !PyArg_ParseTuple(args,"sO|iii",&name,&lst,&rc,&us,&thr) ) return 0;
  VT_TRY
  std::vector<Result::Ref> v;
  for( int i=0; i<PyList_Size(lst); i++ ) v.push_back(make_result(PyList_GetItem(lst,i)));
  set_source(name,v,rc,us,thr);
  VT_END
  Py_RETURN_NONE;
}
// run(node,request) -> (retcode,plain result | None)
static PyObject * run (PyObject *,PyObject *args)
{
  const char *name; PyObject *pyreq;
  if( !PyArg_ParseTuple(args,"sO",&name,&pyreq) ) return 0;
  VT_TRY
  ObjRef ref = toDMI(pyreq);
  Request::Ref req; req = ref.ref_cast<Request>();
  Result::Ref resref; int rc;
  NodeFace &node = find_node(name);
  { NoGIL g; rc = node.execute(resref,*req,0); }
  PyObject *res = Py_None;
  if( resref.valid() ) res = read_result(*resref); else Py_INCREF(res);
  return Py_BuildValue("(iN)",rc,res);
  VT_END
}
// result_paths(spec) -> dict: the result read directly, after a block round trip, after a
// record round trip and after a Python round trip
static PyObject * result_paths (PyObject *,PyObject *args)
{
  PyObject *spec;
  if( !PyArg_ParseTuple(args,"O",&spec) ) return 0;
  VT_TRY
  Result::Ref r = make_result(spec);
  PyObject *out = PyDict_New();
  put(out,"direct",read_result(*r));
  {
    BlockSet set; r->toBlock(set);
    Result::Ref q(DMI::ANONWR); q().fromBlock(set);
    put(out,"block",read_result(*q));
    put(out,"blocks_left",PyLong_FromLong(set.size()));
  }
  {
    DMI::Record::Ref rec; rec <<= new DMI::Record(*r,DMI::DEEP);
    Result::Ref q; q <<= new Result(*rec,DMI::DEEP);
    put(out,"record",read_result(*q));
  }
  {
    PyObjectRef py = fromDMI(*r);
    ObjRef o = toDMI(*py); Result::Ref q; q = o.ref_cast<Result>();
    put(out,"python",read_result(*q));
  }
  {
    Result::Ref q; q <<= dynamic_cast<Result*>(r->clone(DMI::DEEP,0));
    put(out,"clone",read_result(*q));
  }
  put(out,"after",read_result(*r));
  return out;
  VT_END
}
// result_validate(record): makes a Result of any record and reads it all
static PyObject * result_validate (PyObject *,PyObject *args)
{
  PyObject *pyrec;
  if( !PyArg_ParseTuple(args,"O",&pyrec) ) return 0;
  VT_TRY
  DMI::Record::Ref rec = toRec(pyrec);
  Result::Ref q; q <<= new Result(*rec,DMI::DEEP);
  try { return read_result(*q); }
  catch( std::exception &e ) { Throw("ACCEPTED but not readable: "+exceptionToString(e)); }
  VT_END
}
// result_record(spec) -> python form of the result
static PyObject * result_record (PyObject *,PyObject *args)
{
  PyObject *spec;
  if( !PyArg_ParseTuple(args,"O",&spec) ) return 0;
  VT_TRY
  Result::Ref r = make_result(spec);
  return fromDMI(*r);
  VT_END
}
// object_paths(obj) -> dict of python forms of a DMI object: converted, and after block, clone and second conversion
static PyObject * object_paths (PyObject *,PyObject *args)
{
  PyObject *obj;
  if( !PyArg_ParseTuple(args,"O",&obj) ) return 0;
  VT_TRY
  ObjRef ref = toDMI(obj);
  PyObject *out = PyDict_New();
  put(out,"type",PyUnicode_FromString(ref->objectType().toString().c_str()));
  put(out,"direct",fromDMI(*ref));
  {
    BlockSet set; ref->toBlock(set);
    int n = set.size();
    ObjRef q = DynamicTypeManager::construct(0,set);
    put(out,"block",fromDMI(*q));
    put(out,"blocks_left",PyLong_FromLong(set.size()));
    put(out,"block_type",PyUnicode_FromString(q->objectType().toString().c_str()));
    (void)n;
  }
  {
    ObjRef q; q <<= dynamic_cast<DMI::BObj*>(ref->clone(DMI::DEEP,0));
    put(out,"clone",fromDMI(*q));
  }
  {
    PyObjectRef py = fromDMI(*ref);
    ObjRef q = toDMI(*py);
    put(out,"python",fromDMI(*q));
    put(out,"python_type",PyUnicode_FromString(q->objectType().toString().c_str()));
  }
  return out;
  VT_END
}
static PyMethodDef methods[] = {
  {"result_record",result_record,METH_VARARGS,""}, {"object_paths",object_paths,METH_VARARGS,""},
  {"src",src,METH_VARARGS,""}, {"run",run,METH_VARARGS,""}, {"result_paths",result_paths,METH_VARARGS,""},
  {"result_validate",result_validate,METH_VARARGS,""},
  {0,0,0,0} };
static Methods reg(methods);
}
