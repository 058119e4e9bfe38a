// Programs over grids and domains.
#define PY_SSIZE_T_CLEAN 1
#include "vt_meq.h"
#include <MEQ/Cells.h>
#include <MEQ/Domain.h>
namespace vt {
using namespace Meq;

static LoVec_double vecd (PyObject *o)
{
  int n = PySequence_Length(o);
  LoVec_double v(n);
  for( int i=0; i<n; i++ ) { OctoPython::PyObjectRef x = PySequence_GetItem(o,i); v(i) = PyFloat_AsDouble(*x); }
  return v;
}
template<class A> static PyObject * lst (const A &a)
{
  PyObject *l = PyList_New(0);
  for( int i=0; i<int(a.size()); i++ ) { PyObject *x = PyFloat_FromDouble(a(i)); PyList_Append(l,x); Py_DECREF(x); }
  return l;
}
static PyObject * dom_to (const Domain &d)
{
  PyObject *r = PyDict_New();
  for( int i=0; i<Axis::MaxAxis; i++ )
    if( d.isDefined(i) )
    { PyObject *k = PyLong_FromLong(i), *t = Py_BuildValue("(dd)",d.start(i),d.end(i)); PyDict_SetItem(r,k,t); Py_DECREF(k); Py_DECREF(t); }
  return r;
}
static Domain * dom_from (PyObject *o)
{
  Domain *d = new Domain;
  PyObject *k,*v; Py_ssize_t pos = 0;
  while( PyDict_Next(o,&pos,&k,&v) )
  { double a,b; if( !PyArg_ParseTuple(v,"dd",&a,&b) ) throw std::runtime_error("vt: domain"); d->defineAxis(PyLong_AsLong(k),a,b); }
  return d;
}
static PyObject * cells_to (const Cells &c)
{
  PyObject *axes = PyDict_New();
  for( int i=0; i<Axis::MaxAxis; i++ )
    if( c.isDefined(i) )
    {
      LoVec_double s,e; c.getCellStartEnd(s,e,i);
      PyObject *t = Py_BuildValue("{s:i,s:N,s:N,s:i,s:N,s:N,s:N,s:N,s:N,s:N}","n",c.ncells(i),"cen",lst(c.center(i)),"size",lst(c.cellSize(i)),
          "nseg",c.numSegments(i),"s0",lst(c.segmentStart(i)),"s1",lst(c.segmentEnd(i)),
          "a",lst(c.cellStart(i)),"b",lst(c.cellEnd(i)),"a1",lst(s),"b1",lst(e));
      PyObject *k = PyLong_FromLong(i); PyDict_SetItem(axes,k,t); Py_DECREF(k); Py_DECREF(t);
    }
    else if( c.ncells(i) )
      throw std::runtime_error("undefined axis has cells");
  PyObject *sh = PyList_New(0);
  for( int i=0; i<c.rank(); i++ ) { PyObject *x = PyLong_FromLong(c.shape()[i]); PyList_Append(sh,x); Py_DECREF(x); }
  PyObject *dom = 0;
  try { dom = dom_to(c.domain()); } catch( std::exception & ) { Py_INCREF(Py_None); dom = Py_None; }
  return Py_BuildValue("{s:N,s:N,s:N}","axes",axes,"shape",sh,"domain",dom);
}
// cells_prog([ops],full) -> [(returned,{register:content})]; registers 0..4 are grids, 0..4 domains;
static PyObject * cells_prog (PyObject *,PyObject *args)
{
  PyObject *ops;
  if( !PyArg_ParseTuple(args,"O",&ops) ) return 0;
  VT_TRY
  const int N = 5;
  Cells::Ref c[N]; Domain::Ref d[N];
  for( int i=0; i<N; i++ ) { c[i] <<= new Cells; d[i] <<= new Domain; }
  PyObject *out = PyList_New(0);
  for( int n=0; n<PySequence_Length(ops); n++ )
  {
    OctoPython::PyObjectRef o = PySequence_GetItem(ops,n);
    const char *op; int dst; PyObject *a = 0,*b = 0,*e = 0;
    if( !PyArg_ParseTuple(*o,"si|OOO",&op,&dst,&a,&b,&e) ) return 0;
    std::string s(op);
    PyObject *ret = 0;
    auto I = [](PyObject *x) { return int(PyLong_AsLong(x)); };
    auto D = [](PyObject *x) { return PyFloat_AsDouble(x); };
    auto G = [](PyObject *x,int i) { PyObject *r = PySequence_GetItem(x,i); Py_XDECREF(r); return r; };
    try
    {
      if( s == "new" )          { Domain::Ref dom; dom <<= dom_from(a); Cells *p = new Cells(*dom,I(G(b,0)),I(G(b,1))); c[dst] <<= p; }
      else if( s == "newp" )    c[dst] <<= new Cells(dom_from(a),I(G(b,0)),I(G(b,1)));
      else if( s == "newd" )    c[dst] <<= new Cells(*d[I(a)],I(G(b,0)),I(G(b,1)));
      else if( s == "empty" )   c[dst] <<= new Cells;
      else if( s == "vec" )     c[dst]().setCells(I(a),vecd(b),vecd(e));
      else if( s == "uni" )     c[dst]().setCells(I(a),vecd(b),D(e));
      else if( s == "self" )    c[dst]().setCells(I(a),c[I(b)]->center(I(e)),c[I(b)]->cellSize(I(e)));
      else if( s == "reg" )     c[dst]().setCells(I(a),D(G(b,0)),D(G(b,1)),I(G(b,2)),D(G(b,3)));
      else if( s == "enum" )    c[dst]().setEnumCells(I(a),I(b));
      else if( s == "redomain" )c[dst]().recomputeDomain();
      else if( s == "reseg" )   c[dst]().recomputeSegments(I(a));
      else if( s == "ref" )     c[dst] = c[I(a)];
      else if( s == "copy" )    { Cells::Ref r; r <<= new Cells(*c[I(a)]); c[dst] = r; }
      else if( s == "clone" )   { Cells::Ref r; r <<= dynamic_cast<Cells*>(c[I(a)]->clone(0,I(b))); c[dst] = r; }
      else if( s == "write" )   c[dst].dewr();
      else if( s == "ops" )
      {
        int op[Axis::MaxAxis],arg[Axis::MaxAxis];
        for( int i=0; i<Axis::MaxAxis; i++ ) { op[i] = I(G(b,i)); arg[i] = I(G(e,i)); }
        Cells::Ref r; r <<= new Cells(*c[I(a)],op,arg); c[dst] = r;
      }
      else if( s == "combine" ) { Cells::Ref r; r <<= new Cells(*c[I(a)],*c[I(b)],I(e)); c[dst] = r; }
      else if( s == "superset" )
      {
        Cells::Ref r; Cells::superset(r,*c[I(a)],*c[I(b)]);
        ret = PyBool_FromLong(r.valid());
        if( r.valid() ) c[dst] = r;
      }
      else if( s == "cmp" )
        ret = Py_BuildValue("(iii)",c[dst]->compare(*c[I(a)]),int(*c[dst] == *c[I(a)]),int(*c[dst] != *c[I(a)]));
      else if( s == "trip" )
      {
        BlockSet set; c[I(a)]->toBlock(set);
        ObjRef r = DynamicTypeManager::construct(0,set);
        c[dst] = r.ref_cast<Cells>();
      }
      else if( s == "pers" )
      { // the way of a record: content copied field by field, then validated
        DMI::Record::Ref r; r <<= new DMI::Record(*c[I(a)]);
        Cells::Ref r1; r1 <<= new Cells(*r); c[dst] = r1;
      }
      else if( s == "dnew" )    d[dst] <<= dom_from(a);
      else if( s == "dtwo" )    d[dst] <<= new Domain(D(G(a,0)),D(G(a,1)),D(G(a,2)),D(G(a,3)));
      else if( s == "ddef" )    d[dst]().defineAxis(I(a),D(G(b,0)),D(G(b,1)));
      else if( s == "dref" )    d[dst] = d[I(a)];
      else if( s == "dcopy" )   { Domain::Ref r; r <<= new Domain(*d[I(a)]); d[dst] = r; }
      else if( s == "dcells" )  { Domain::Ref r; r <<= new Domain(c[I(a)]->domain()); d[dst] = r; }
      else if( s == "denv" )    { Domain::Ref r; r <<= new Domain(Domain::envelope(*d[I(a)],*d[I(b)])); d[dst] = r; }
      else if( s == "dexp" )    d[dst]().expandToEnvelope(*d[I(a)]);
      else if( s == "dtrip" )
      {
        BlockSet set; d[I(a)]->toBlock(set);
        ObjRef r = DynamicTypeManager::construct(0,set);
        d[dst] = r.ref_cast<Domain>();
      }
      else if( s == "dcmp" )
        ret = Py_BuildValue("(iii)",int(*d[dst] == *d[I(a)]),int(*d[dst] != *d[I(a)]),int(d[dst]->supersetOfProj(*d[I(a)])));
      else throw std::runtime_error("vt: unknown operation "+s);
    }
    catch( std::exception &exc )
    { Py_XDECREF(ret); ret = PyUnicode_FromString(("error: "+DMI::exceptionToString(exc)).c_str()); }
    if( PyErr_Occurred() ) return 0;
    if( !ret ) { Py_INCREF(Py_None); ret = Py_None; }
    PyObject *cl = PyList_New(0), *dl = PyList_New(0);
    for( int i=0; i<N; i++ )
    {
      PyObject *x = cells_to(*c[i]); PyList_Append(cl,x); Py_DECREF(x);
      x = dom_to(*d[i]); PyList_Append(dl,x); Py_DECREF(x);
    }
    PyObject *t = Py_BuildValue("(NNN)",ret,cl,dl); PyList_Append(out,t); Py_DECREF(t);
  }
  // record forms at the end
  PyObject *l = PyList_New(0);
  for( int i=0; i<N; i++ ) { PyObject *x = fromDMI(*c[i]); if( !x ) { PyErr_Clear(); Py_INCREF(Py_None); x = Py_None; } PyList_Append(l,x); Py_DECREF(x); }
  return Py_BuildValue("(NN)",out,l);
  VT_END
}
static PyMethodDef methods[] = {
  { "cells_prog",cells_prog,METH_VARARGS,"" },
  { 0,0,0,0 } };
static Methods reg(methods);
}
