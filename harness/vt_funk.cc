// Programs over parameter functions.
#define PY_SSIZE_T_CLEAN 1
#include "vt_meq.h"
#include <MEQ/Funklet.h>
#include <MEQ/Polc.h>
#include <MEQ/PolcLog.h>
#include <MEQ/ComposedPolc.h>
#include <MEQ/Spline.h>
namespace vt {
using namespace Meq;

// funklet_prog([(op,dst,args...)],nreg) -> [returned or "error: ..."]
//   set rec | make class rec | cell/compose [regs] default | ref a | copy a | trip a | domain rec | solvable spid mask|None | clear |
//   update mode values extra positive | solvedom [a,b] | solvedomain rec | shape [n] | eval cellsrec npert | state
static std::vector<double> dvec (PyObject *o)
{ std::vector<double> v; for( int i=0; i<PySequence_Length(o); i++ ) { OctoPython::PyObjectRef x = PySequence_GetItem(o,i); v.push_back(PyFloat_AsDouble(*x)); } return v; }
static std::vector<int> ivec (PyObject *o)
{ std::vector<int> v; for( int i=0; i<PySequence_Length(o); i++ ) { OctoPython::PyObjectRef x = PySequence_GetItem(o,i); v.push_back(PyLong_AsLong(*x)); } return v; }
static LoShape shp (PyObject *o)
{ std::vector<int> v = ivec(o); LoShape s; s.resize(v.size()); for( size_t i=0; i<v.size(); i++ ) s[i] = v[i]; return s; }

static PyObject * funklet_prog (PyObject *,PyObject *args)
{
  PyObject *ops;
  int N;
  if( !PyArg_ParseTuple(args,"Oi",&ops,&N) ) return 0;
  VT_TRY
  std::vector<Funklet::Ref> f(N);
  PyObject *out = PyList_New(0);
  for( int n=0; n<PySequence_Length(ops); n++ )
  {
    OctoPython::PyObjectRef o = PySequence_GetItem(ops,n);
    const char *op; int dst; PyObject *a = 0,*b = 0,*e = 0,*g = 0;
    if( !PyArg_ParseTuple(*o,"si|OOOO",&op,&dst,&a,&b,&e,&g) ) return 0;
    std::string s(op);
    PyObject *ret = 0;
    auto I = [](PyObject *x) { return int(PyLong_AsLong(x)); };
    try
    {
      if( s == "set" ) { ObjRef r = toDMI(a); f[dst] = r.ref_cast<Funklet>(); }
      else if( s == "compose" )
      {
        std::vector<Funklet::Ref> v; std::vector<int> idx = ivec(a);
        for( size_t i=0; i<idx.size(); i++ ) v.push_back(f[idx[i]]);
        Funklet *p = new ComposedPolc(v,PyFloat_AsDouble(b)); f[dst] <<= p;
      }
      else if( s == "spline" )
      {
        Domain::Ref d; d = toDMI(b).ref_cast<Domain>();
        std::vector<double> c = dvec(a); LoVec_double cc(int(c.size())); for( size_t i=0; i<c.size(); i++ ) cc(i) = c[i];
        Funklet *p = new Spline(cc,*d); f[dst] <<= p;
      }
      else if( s == "ref" )   f[dst] = f[I(a)];
      else if( s == "copy" )  { Funklet::Ref r; r <<= dynamic_cast<Funklet*>(f[I(a)]->clone(0,I(b))); f[dst] = r; }
      else if( s == "trip" )
      {
        BlockSet set; f[I(a)]->toBlock(set);
        ObjRef r = DynamicTypeManager::construct(0,set);
        f[dst] = r.ref_cast<Funklet>();
      }
      else if( s == "domain" )  { Domain::Ref d; d = toDMI(a).ref_cast<Domain>(); f[dst]().setDomain(*d); }
      else if( s == "solvable" )
      {
        int k;
        if( b == Py_None ) k = f[dst]().makeSolvable(I(a));
        else { std::vector<int> m = ivec(b); std::vector<bool> mm(m.begin(),m.end()); k = f[dst]().makeSolvable(I(a),mm); }
        ret = PyLong_FromLong(k);
      }
      else if( s == "clear" )   f[dst]().clearSolvable();
      else if( s == "update" )
      {
        std::vector<double> v = dvec(b);
        if( I(a) == 0 )      f[dst]().update(&v[0],bool(I(g)));
        else if( I(a) == 1 ) f[dst]().update(&v[0],dvec(e),bool(I(g)));
        else
        {
          OctoPython::PyObjectRef x = PySequence_GetItem(e,0), y = PySequence_GetItem(e,1);
          f[dst]().update(&v[0],dvec(*x),dvec(*y),bool(I(g)));
        }
      }
      else if( s == "solvedom" )    f[dst]().changeSolveDomain(dvec(a));
      else if( s == "solvedomain" ) { Domain::Ref d; d = toDMI(a).ref_cast<Domain>(); f[dst]().changeSolveDomain(*d); }
      else if( s == "shape" )       f[dst]().setCoeffShape(shp(a));
      else if( s == "coeffindex" )
      {
        ObjRef r; r <<= f[dst]->getCoeffIndex(I(a));
        ret = fromDMI(*r);
      }
      else if( s == "eval" )
      {
        Cells::Ref c; c = toDMI(a).ref_cast<Cells>();
        VellSet::Ref vs; vs <<= new VellSet(0,I(b));
        f[dst]->evaluate(vs(),*c,I(b));
        Result::Ref res; res <<= new Result(1);
        res().setVellSet(0,vs); 
        ret = fromDMI(*res->vellSetRef(0));
      }
      else if( s == "state" ) ret = fromDMI(*f[dst]);
      else throw std::runtime_error("vt: unknown operation "+s);
    }
    catch( std::exception &exc )
    { Py_XDECREF(ret); ret = PyUnicode_FromString(("error: "+DMI::exceptionToString(exc)).c_str()); }
    if( PyErr_Occurred() ) return 0;
    if( !ret ) { Py_INCREF(Py_None); ret = Py_None; }
    PyList_Append(out,ret); Py_DECREF(ret);
  }
  return out;
  VT_END
}
static PyMethodDef methods[] = {
  { "funklet_prog",funklet_prog,METH_VARARGS,"" },
  { 0,0,0,0 } };
static Methods reg(methods);
}
