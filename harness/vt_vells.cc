// Vells algebra: runs a straight-line program over registers holding Vells.
#include <MEQ/NodeFace.h>
#include "vt_meq.h"
#include <map>
namespace vt {
using namespace Meq;

Vells::Ref vells_from (PyObject *obj)
{
  ObjRef ref = toDMI(obj);
  const DMI::NumArray *a = dynamic_cast<const DMI::NumArray*>(ref.deref_p());
  if( !a ) throw std::runtime_error("vt: not an array");
  Vells::Ref out; out <<= new Vells(*a,DMI::DEEP);
  return out;
}
PyObject * vells_to (const Vells &v)
{
  DMI::NumArray arr(v,DMI::DEEP);
  return fromDMI(arr);
}
typedef Vells (*Un)(const Vells &);
typedef Vells (*Bin)(const Vells &,const Vells &);
static std::map<std::string,Un> un;
static std::map<std::string,Bin> bin;
#define MKU(f,x) static Vells un_##f (const Vells &a) { return VellsMath::f(a); }
DoForAllUnaryFuncs(MKU,)
#define MKB(f,x) static Vells bin_##f (const Vells &a,const Vells &b) { return VellsMath::f(a,b); }
DoForAllBinaryFuncs(MKB,)
static void tables ()
{
  if( !un.empty() ) return;
#define REGU(f,x) un[#f] = un_##f;
  DoForAllUnaryFuncs(REGU,)
#define REGB(f,x) bin[#f] = bin_##f;
  DoForAllBinaryFuncs(REGB,)
}
static Vells step (const std::string &op,Vells &d,const Vells &a,const Vells &b,const LoShape &shp,int fa,int fb,double sc,int si,bool &setd)
{
  setd = true;
  if( un.count(op) ) return un[op](a);
  if( bin.count(op) ) return bin[op](a,b);
  if( op=="neg" ) return -a;
  if( op=="+" ) return a+b;
  if( op=="-" ) return a-b;
  if( op=="*" ) return a*b;
  if( op=="/" ) return a/b;
  if( op=="s+" ) return sc+a;
  if( op=="s-" ) return sc-a;
  if( op=="s*" ) return sc*a;
  if( op=="s/" ) return sc/a;
  if( op=="~" ) return ~a;
  if( op=="|" ) return a|b;
  if( op=="&" ) return a&b;
  if( op=="^" ) return a^b;
  if( op=="|s" ) return a|si;
  if( op=="&s" ) return a&si;
  if( op=="^s" ) return a^si;
  if( op=="min" ) return VellsMath::min(a,fa);
  if( op=="max" ) return VellsMath::max(a,fa);
  if( op=="mean" ) return VellsMath::mean(a,fa);
  if( op=="sum" ) return VellsMath::sum(a,shp,fa);
  if( op=="product" ) return VellsMath::product(a,shp,fa);
  if( op=="nelements" ) return VellsMath::nelements(a,shp,fa);
  if( op=="min2" ) return VellsMath::min(a,b,fa,fb);
  if( op=="max2" ) return VellsMath::max(a,b,fa,fb);
  if( op=="ref" ) return Vells(a);
  if( op=="deep" ) return Vells(a,DMI::DEEP);
  if( op=="null" ) return Vells();
  setd = false;
  if( op=="=" ) d = a;
  else if( op=="+=" ) d += a;
  else if( op=="-=" ) d -= a;
  else if( op=="*=" ) d *= a;
  else if( op=="/=" ) d /= a;
  else if( op=="|=" ) d |= a;
  else if( op=="&=" ) d &= a;
  else if( op=="^=" ) d ^= a;
  else if( op=="|=s" ) d |= si;
  else if( op=="&=s" ) d &= si;
  else if( op=="^=s" ) d ^= si;
  else if( op=="setflags" ) { Vells::Ref f; f <<= new Vells(a,DMI::DEEP); d.setDataFlags(f); }
  else if( op=="clearflags" ) d.clearDataFlags();
  else if( op=="zero" ) d.zeroData();
  else if( op=="poke" ) { if( d.isReal() ) *d.begin<double>() = sc; }
  else if( op=="replace" ) { if( d.isReal() ) d.replaceFlaggedValues(a,sc,fa); }
  else if( op=="where" ) return setd = true, a.isReal() ? a.whereEq(sc,fa,fb) : Vells();
  else throw std::runtime_error("vt: unknown op "+op);
  return Vells();
}
// vells_prog(regs,program,shape): regs = list of arrays; program = list of
// (op,dst,a,b,flagmask_a,flagmask_b,scalar,int).  Returns a list with, per step,
// (error|None, [values of all registers], [flags of all registers or None])
static PyObject * vells_prog (PyObject *,PyObject *args)
{
  PyObject *regs,*prog,*shape;
  if( !PyArg_ParseTuple(args,"OOO",&regs,&prog,&shape) ) return 0;
  VT_TRY
  tables();
  std::vector<Vells> r;
  for( int i=0; i<PyList_Size(regs); i++ )
    r.push_back(*vells_from(PyList_GetItem(regs,i)));
  LoShape shp; shp.resize(PyList_Size(shape));
  for( int i=0; i<PyList_Size(shape); i++ ) shp[i] = PyLong_AsLong(PyList_GetItem(shape,i));
  PyObject *out = PyList_New(0);
  for( int i=0; i<PyList_Size(prog); i++ )
  {
    const char *op; int d,a,b,fa,fb,si; double sc;
    PyObject *ins = PyList_GetItem(prog,i), *t = PySequence_Tuple(ins);
    if( !PyArg_ParseTuple(t,"siiiiidi",&op,&d,&a,&b,&fa,&fb,&sc,&si) ) return 0;
    std::string err; bool failed=false;
    try {
      bool setd;
      Vells v = step(op,r[d],r[a],r[b],shp,fa,fb,sc,si,setd);
      if( setd ) r[d] = v;
    } catch( std::exception &exc ) { failed = true; err = DMI::exceptionToString(exc); }
    PyObject *vals = PyList_New(0), *fl = PyList_New(0);
    for( size_t j=0; j<r.size(); j++ )
    {
      PyObject *v = vells_to(r[j]); PyList_Append(vals,v); Py_DECREF(v);
      if( r[j].hasDataFlags() ) { v = vells_to(r[j].dataFlags()); PyList_Append(fl,v); Py_DECREF(v); }
      else PyList_Append(fl,Py_None);
    }
    PyObject *e = failed ? PyUnicode_DecodeUTF8(err.c_str(),err.size(),"replace") : (Py_INCREF(Py_None),Py_None);
    PyObject *row = Py_BuildValue("(NNN)",e,vals,fl);
    PyList_Append(out,row); Py_DECREF(row); Py_DECREF(t);
  }
  return out;
  VT_END
}
static PyMethodDef methods[] = {
  {"vells_prog",vells_prog,METH_VARARGS,""},
  {0,0,0,0} };
static Methods reg(methods);
}
