// Hierarchical ids: every operation on ids given as integers.
#include "vt.h"
#include <DMI/AtomicID.h>
namespace vt {
static HIID ints_to_id (PyObject *l)
{
  HIID id;
  for( int i=0; i<PySequence_Length(l); i++ )
  { OctoPython::PyObjectRef o = PySequence_GetItem(l,i); id.add(AtomicID(int(PyLong_AsLong(*o)))); }
  return id;
}
static PyObject * id_to_ints (const HIID &id)
{
  PyObject *l = PyList_New(id.size());
  for( size_t i=0; i<id.size(); i++ ) PyList_SetItem(l,i,PyLong_FromLong(id[i].id()));
  return l;
}
// hiid_parse(str,allow_literals,seps) -> ints
static PyObject * hiid_parse (PyObject *,PyObject *args)
{
  const char *s,*seps; int lit;
  if( !PyArg_ParseTuple(args,"sis",&s,&lit,&seps) ) return 0;
  VT_TRY
  return id_to_ints(HIID(std::string(s),bool(lit),std::string(seps)));
  VT_END
}
// hiid_str(ints,sep,mark) -> str
static PyObject * hiid_str (PyObject *,PyObject *args)
{
  PyObject *l; const char *sep; int mark;
  if( !PyArg_ParseTuple(args,"Osi",&l,&sep,&mark) ) return 0;
  VT_TRY
  std::string s = ints_to_id(l).toString(sep[0],mark);
  return PyUnicode_DecodeLatin1(s.data(),s.size(),0);
  VT_END
}
// hiid_pair(a,b) -> dict of all binary relations
static PyObject * hiid_pair (PyObject *,PyObject *args)
{
  PyObject *pa,*pb;
  if( !PyArg_ParseTuple(args,"OO",&pa,&pb) ) return 0;
  VT_TRY
  HIID a = ints_to_id(pa), b = ints_to_id(pb);
  std::string packed(a.packSize(),'\0'); size_t nleft = packed.size();
  size_t np = a.pack(&packed[0],nleft);
  HIID un; un.unpack(packed.data(),np);
  HIID cat = a|b, self = a; self.add(self);
  HIID c2; c2 = a; c2 |= b;
  return Py_BuildValue("{s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:N,s:N,s:N,s:N,s:i,s:i,s:i}",
    "eq",int(a==b),"ne",int(a!=b),"lt",int(a<b),"gt",int(b<a),"matches",int(a.matches(b)),"rmatches",int(b.matches(a)),
    "subset",int(a.subsetOf(b)),"prefixed",int(a.prefixedBy(b)),
    "cat",id_to_ints(cat),"cat2",id_to_ints(c2),"self",id_to_ints(self),"packed",id_to_ints(un),"nleft",int(nleft),"np",int(np),"slash",a.findFirstSlash());
  VT_END
}
// hiid_prog(ints,[(op,arg,arg)..]) -> list of (ints,returned)
static PyObject * hiid_prog (PyObject *,PyObject *args)
{
  PyObject *pa,*ops;
  if( !PyArg_ParseTuple(args,"OO",&pa,&ops) ) return 0;
  VT_TRY
  HIID a = ints_to_id(pa);
  PyObject *out = PyList_New(0);
  for( int i=0; i<PySequence_Length(ops); i++ )
  {
    OctoPython::PyObjectRef o = PySequence_GetItem(ops,i);
    OctoPython::PyObjectRef po = PySequence_GetItem(*o,0), p1 = PySequence_GetItem(*o,1), p2 = PySequence_GetItem(*o,2);
    std::string op = PyUnicode_AsUTF8(*po);
    int x = PyLong_AsLong(*p1), y = PyLong_AsLong(*p2);
    PyObject *ret = 0;
    if( op == "sub" )            ret = id_to_ints(a.subId(x,y));
    else if( op == "subset" )    a = a.subId(x,y);
    else if( op == "popf" )      a.pop_front(x);
    else if( op == "pushf" )     a.push_front(AtomicID(y),x);
    else if( op == "add" )       a.add(AtomicID(y));
    else if( op == "leadidx" )   ret = PyLong_FromLong(a.popLeadIndex());
    else if( op == "trailidx" )  ret = PyLong_FromLong(a.popTrailIndex());
    else if( op == "slashes" )   ret = PyLong_FromLong(a.popLeadSlashes());
    else if( op == "split" )     ret = id_to_ints(a.splitAtSlash());
    else if( op == "resize" )    { size_t n = a.size(); a.resize(x); for( size_t j=n; j<a.size(); j++ ) a[j] = AtomicID(y); }
    else if( op == "prefix" )    a = AtomicID(y)|a;
    else throw std::runtime_error("vt: bad op "+op);
    if( !ret ) { ret = Py_None; Py_INCREF(ret); }
    PyObject *t = Py_BuildValue("(NN)",id_to_ints(a),ret); PyList_Append(out,t); Py_DECREF(t);
  }
  return out;
  VT_END
}
// atom(name) -> int or None; atom_name(int) -> str
static PyObject * atom (PyObject *,PyObject *args)
{
  const char *s; if( !PyArg_ParseTuple(args,"s",&s) ) return 0;
  VT_TRY
  int aid;
  if( !AtomicID::findName(aid,s) ) Py_RETURN_NONE;
  return PyLong_FromLong(aid);
  VT_END
}
static PyObject * atom_name (PyObject *,PyObject *args)
{
  int i; if( !PyArg_ParseTuple(args,"i",&i) ) return 0;
  VT_TRY
  return PyUnicode_FromString(AtomicID(i).toString().c_str());
  VT_END
}
static PyMethodDef methods[] = {
  {"hiid_parse",hiid_parse,METH_VARARGS,""}, {"hiid_str",hiid_str,METH_VARARGS,""}, {"hiid_pair",hiid_pair,METH_VARARGS,""},
  {"hiid_prog",hiid_prog,METH_VARARGS,""}, {"atom",atom,METH_VARARGS,""}, {"atom_name",atom_name,METH_VARARGS,""},
  {0,0,0,0} };
static Methods reg(methods);
}
