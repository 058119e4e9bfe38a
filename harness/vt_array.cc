// Arrays held in containers: access through ids (element, sub-array, whole), and slices of Vells.
#define PY_SSIZE_T_CLEAN 1
#include "vt.h"
#include <DMI/NumArray.h>
#include <MEQ/Vells.h>
#include <MEQ/VellsSlicer.h>
#include <cstring>
namespace vt {
static HIID seq_to_id (PyObject *l)
{
  HIID id;
  for( int i=0; i<PySequence_Length(l); i++ )
  { OctoPython::PyObjectRef o = PySequence_GetItem(l,i); id.add(AtomicID(int(PyLong_AsLong(*o)))); }
  return id;
}
static LoShape seq_to_shape (PyObject *l)
{
  LoShape s; s.resize(PySequence_Length(l));
  for( uint i=0; i<s.size(); i++ )
  { OctoPython::PyObjectRef o = PySequence_GetItem(l,i); s[i] = int(PyLong_AsLong(*o)); }
  return s;
}
static PyObject * shape_to_seq (const LoShape &s)
{
  PyObject *l = PyTuple_New(s.size());
  for( uint i=0; i<s.size(); i++ ) PyTuple_SetItem(l,i,PyLong_FromLong(s[i]));
  return l;
}
template<class A> static LoShape blitz_shape (const A &a)
{ LoShape s; s.resize(a.rank()); for( int i=0; i<a.rank(); i++ ) s[i] = a.extent(i); return s; }

struct Val { bool scalar; LoShape shape; std::string bytes; };

template<class T,int N> struct Acc
{
  typedef blitz::Array<T,N> Arr;
  static void read (Val &out,const Arr &a)
  {
    out.scalar = false; out.shape = blitz_shape(a);
    out.bytes.clear(); out.bytes.reserve(a.size()*sizeof(T));
    if( a.numElements() ) for( typename Arr::const_iterator it = a.begin(); it != a.end(); ++it )
    { T x = *it; out.bytes.append(reinterpret_cast<const char*>(&x),sizeof(T)); }
  }
  static void get (Val &out,const DMI::Container::Hook &hook)
  { read(out,hook.as<Arr>()); }
  static void get_p (Val &out,const DMI::Container::Hook &hook)
  { int sz; read(out,*hook.as_p<Arr>(sz)); if( sz != 1 ) throw std::runtime_error("vt: as_p size"); }
  static void get_var (Val &out,const DMI::Container::Hook &hook)
  { Arr a; if( !hook.get(a) ) throw std::runtime_error("vt: get() refused"); read(out,a); }
  static void fill (Arr &a,const std::string &bytes)
  {
    const char *p = bytes.data();
    if( a.numElements() ) for( typename Arr::iterator it = a.begin(); it != a.end(); ++it,p+=sizeof(T) )
      memcpy(&(*it),p,sizeof(T));
  }
  static Arr make (const LoShape &shape,const std::string &bytes)
  {
    blitz::TinyVector<int,N> tv; for( int i=0; i<N; i++ ) tv[i] = shape[i];
    Arr a(tv); fill(a,bytes); return a;
  }
  // element-wise assignment through a writable view
  static void put_view (const DMI::Container::Hook &hook,const LoShape &shape,const std::string &bytes)
  {
    Arr &a = hook.as_wr<Arr>();
    if( !(blitz_shape(a) == shape) ) throw std::runtime_error("vt: shape mismatch");
    fill(a,bytes);
  }
  static void put (const DMI::Container::Hook &hook,const LoShape &shape,const std::string &bytes)
  { Arr a = make(shape,bytes); hook = a; }
};
#define RANKS(T,what) switch(rank) { case 1: Acc<T,1>::what; break; case 2: Acc<T,2>::what; break; \
  case 3: Acc<T,3>::what; break; case 4: Acc<T,4>::what; break; case 5: Acc<T,5>::what; break; default: throw std::runtime_error("vt: rank"); }
#define TYPES(ty,DO) \
  if( ty == "bool" ) { DO(bool) } else if( ty == "int" ) { DO(int) } else if( ty == "float" ) { DO(float) } \
  else if( ty == "double" ) { DO(double) } else if( ty == "fcomplex" ) { DO(fcomplex) } else if( ty == "dcomplex" ) { DO(dcomplex) } \
  else throw std::runtime_error("vt: type")

template<class T> static void scalar_get (Val &out,const DMI::Container::Hook &hook)
{ T x = hook.as<T>(); out.scalar = true; out.bytes.assign(reinterpret_cast<char*>(&x),sizeof(T)); }
template<class T> static void scalar_put (const DMI::Container::Hook &hook,const std::string &b)
{ T x; memcpy(&x,b.data(),sizeof(T)); hook = x; }
template<class T> static void flat_get (Val &out,const DMI::Container::Hook &hook)
{
  int sz; const T *p = hook.as_p<T>(sz);
  out.scalar = false; out.shape.resize(1); out.shape[0] = sz; out.bytes.assign(reinterpret_cast<const char*>(p),sz*sizeof(T));
}
template<class T> static void flat_put (const DMI::Container::Hook &hook,const std::string &b)
{
  int sz; T *p = hook.as_wp<T>(sz);
  if( b.size() != sz*sizeof(T) ) throw std::runtime_error("vt: size mismatch");
  memcpy(p,b.data(),b.size());
}
template<class T> static void vec_put (const DMI::Container::Hook &hook,const std::string &b)
{
  int n = b.size()/sizeof(T); std::vector<T> v(n);
  for( int i=0; i<n; i++ ) { T x; memcpy(&x,b.data()+i*sizeof(T),sizeof(T)); v[i] = x; }
  hook = v;
}
static PyObject * val_py (const Val &v)
{
  if( v.scalar ) return Py_BuildValue("Oy#",Py_None,v.bytes.data(),(Py_ssize_t)v.bytes.size());
  return Py_BuildValue("Ny#",shape_to_seq(v.shape),v.bytes.data(),(Py_ssize_t)v.bytes.size());
}
static std::string str_of (PyObject *o) { const char *s = PyUnicode_AsUTF8(o); return s ? s : ""; }
static std::string bytes_of (PyObject *o)
{ char *p; Py_ssize_t n; if( PyBytes_AsStringAndSize(o,&p,&n) < 0 ) throw std::runtime_error("vt: bytes"); return std::string(p,n); }

// array_prog(type,[(shape,bytes)...],ops) -> (list of op outcomes, list of final arrays)
// ops: ("get"|"getp"|"getvar",slot,ids,rank)  ("sget",slot,ids)  ("flat",slot,ids)
//      ("put"|"view",slot,ids,shape,bytes)   ("sput",slot,ids,bytes) ("flatput"|"vecput",slot,ids,bytes)
//      ("copy",dst,src) ("deep",dst,src) ("ser",dst,src) ("hold",dst,src) ("type",slot,ids) ("size",slot,ids)
// A slot is a record with the array in field A; "copy" copies the record ref, "hold" puts a ref of the
// array of one record into the other.
static PyObject * array_prog (PyObject *,PyObject *args)
{
  const char *tyc; PyObject *init,*ops;
  if( !PyArg_ParseTuple(args,"sOO",&tyc,&init,&ops) ) return 0;
  std::string ty = tyc;
  VT_TRY
  int n = PySequence_Length(init);
  std::vector<DMI::Record::Ref> slots(n);
  for( int i=0; i<n; i++ )
  {
    OctoPython::PyObjectRef it = PySequence_GetItem(init,i);
    PyObject *sh,*by; if( !PyArg_ParseTuple(*it,"OO",&sh,&by) ) return 0;
    LoShape shape = seq_to_shape(sh); std::string bytes = bytes_of(by);
    DMI::NumArray *pa = 0;
    TypeId tid = 0;
#define DO(T) tid = typeIdOf(T);
    TYPES(ty,DO);
#undef DO
    pa = new DMI::NumArray(tid,shape);
    DMI::NumArray::Ref aref(pa);
    if( size_t(pa->size())*pa->elementSize() != bytes.size() ) throw std::runtime_error("vt: initial size");
    memcpy(pa->getDataPtr(),bytes.data(),bytes.size());
    slots[i] <<= new DMI::Record;
    slots[i]()[HIID("A")].put(pa);
  }
  OctoPython::PyObjectRef out = PyList_New(0);
  for( int i=0; i<PySequence_Length(ops); i++ )
  {
    OctoPython::PyObjectRef op = PySequence_GetItem(ops,i);
    std::string what = str_of(PyTuple_GetItem(*op,0));
    int s = PyLong_AsLong(PyTuple_GetItem(*op,1));
    PyObject *res = 0;
    try
    {
      HIID fld("A");
      if( what == "copy" || what == "deep" || what == "ser" || what == "hold" )
      {
        int src = PyLong_AsLong(PyTuple_GetItem(*op,2));
        if( what == "copy" ) { if( s != src ) slots[s].unlock().copy(slots[src]); }
        else if( what == "deep" ) { DMI::Record::Ref r(slots[src],DMI::DEEP); slots[s].unlock().xfer(r); }
        else if( what == "hold" )
        {
          ObjRef r = slots[src].deref()[fld].ref();
          slots[s]()[fld].replace() = r;
        }
        else
        {
          DMI::BlockSet set; slots[src]->toBlock(set);
          DMI::BlockSet flat;
          while( set.size() )
          {
            DMI::BlockRef b; set.pop(b);
            DMI::BlockRef c(new DMI::SmartBlock(b->size()));
            memcpy(c().data(),b->data(),b->size());
            flat.push(c);
          }
          DMI::Record::Ref r(DynamicTypeManager::construct(0,flat));
          slots[s].unlock().xfer(r);
        }
        res = Py_BuildValue("(s)","ok");
      }
      else
      {
        HIID id = seq_to_id(PyTuple_GetItem(*op,2));
        bool wr = what == "put" || what == "view" || what == "sput" || what == "flatput" || what == "vecput";
        Val v;
        if( wr )
        {
          std::string by = bytes_of(PyTuple_GetItem(*op,PyTuple_Size(*op)-1));
          DMI::Container::Hook hook(slots[s](),fld); hook[id];
          if( what == "sput" ) {
#define DO(T) scalar_put<T>(hook,by);
            TYPES(ty,DO);
#undef DO
          } else if( what == "flatput" ) {
#define DO(T) flat_put<T>(hook,by);
            TYPES(ty,DO);
#undef DO
          } else if( what == "vecput" ) {
#define DO(T) vec_put<T>(hook,by);
            TYPES(ty,DO);
#undef DO
          } else {
            LoShape shape = seq_to_shape(PyTuple_GetItem(*op,3)); int rank = shape.size();
            if( what == "put" ) {
#define DO(T) RANKS(T,put(hook,shape,by))
              TYPES(ty,DO);
#undef DO
            } else {
#define DO(T) RANKS(T,put_view(hook,shape,by))
              TYPES(ty,DO);
#undef DO
            }
          }
          res = Py_BuildValue("(s)","ok");
        }
        else
        {
          DMI::Container::Hook hook(slots[s].deref(),fld); hook[id];
          if( what == "type" ) res = Py_BuildValue("si","ok",int(hook.type()));
          else if( what == "size" ) res = Py_BuildValue("si","ok",hook.size());
          else
          {
            if( what == "sget" ) {
#define DO(T) scalar_get<T>(v,hook);
              TYPES(ty,DO);
#undef DO
            } else if( what == "flat" ) {
#define DO(T) flat_get<T>(v,hook);
              TYPES(ty,DO);
#undef DO
            } else {
              int rank = PyLong_AsLong(PyTuple_GetItem(*op,3));
              if( what == "get" ) {
#define DO(T) RANKS(T,get(v,hook))
                TYPES(ty,DO);
#undef DO
              } else if( what == "getp" ) {
#define DO(T) RANKS(T,get_p(v,hook))
                TYPES(ty,DO);
#undef DO
              } else {
#define DO(T) RANKS(T,get_var(v,hook))
                TYPES(ty,DO);
#undef DO
              }
            }
            res = Py_BuildValue("sN","ok",val_py(v));
          }
        }
      }
    }
    catch( std::exception &exc )
    { res = Py_BuildValue("ss","err",DMI::exceptionToString(exc).c_str()); }
    if( PyErr_Occurred() ) return 0;
    PyList_Append(*out,res); Py_DECREF(res);
  }
  OctoPython::PyObjectRef fin = PyList_New(0);
  for( int i=0; i<n; i++ )
  {
    const DMI::NumArray &a = slots[i].deref()[HIID("A")].as<DMI::NumArray>();
    Val v; v.scalar = false; v.shape = a.shape();
    v.bytes.assign(static_cast<const char*>(a.getConstDataPtr()),size_t(a.size())*a.elementSize());
    OctoPython::PyObjectRef p = val_py(v);
    PyList_Append(*fin,*p);
  }
  return Py_BuildValue("OO",*out,*fin);
  VT_END
}

// vells_slices(complex?,shape,bytes,axes,mode,new) : mode 0 reads all slices through the const slicer (as Vells),
// 1 as blitz arrays of the const typed slicer, 2 reads through the writable one, 3 assigns consecutive parts of `new`
// -> (list of (shape,bytes), final (shape,bytes), nonsliced shape)
template<class T,int N> static void slice_typed (std::vector<Val> &out,Meq::Vells &v,const LoShape &axes,int mode,const std::string &by)
{
  size_t pos = 0;
  if( mode == 1 )
  {
    Meq::ConstVellsSlicer<T,N> sl(v,axes);
    do { Val x; Acc<T,N>::read(x,sl.array()); out.push_back(x); } while( sl.incr() );
    if( sl.valid() ) throw std::runtime_error("vt: slicer still valid");
  }
  else if( mode == 2 )
  {
    Meq::VellsSlicer<T,N> sl(v,axes);
    do { Val x; Acc<T,N>::read(x,sl.array()); out.push_back(x); } while( sl.incr() );
  }
  else
  {
    Meq::VellsSlicer<T,N> sl(v,axes);
    do {
      LoShape sh = sl.shape(); size_t n = sh.product()*sizeof(T);
      if( pos + n > by.size() ) throw std::runtime_error("vt: slices exceed data");
      if( mode == 3 ) sl = Acc<T,N>::make(sh,by.substr(pos,n));
      else Acc<T,N>::fill(sl.array(),by.substr(pos,n));
      pos += n;
    } while( sl.incr() );
  }
}
typedef Meq::ConstVellsSlicer0 ConstSlices;
static PyObject * vells_slices (PyObject *,PyObject *args)
{
  int cx,mode; PyObject *sh,*pax; const char *p,*q; Py_ssize_t n,m;
  if( !PyArg_ParseTuple(args,"iOy#Oiy#",&cx,&sh,&p,&n,&pax,&mode,&q,&m) ) return 0;
  VT_TRY
  LoShape shape = seq_to_shape(sh), axes = seq_to_shape(pax);
  Meq::Vells v = cx ? Meq::Vells(make_dcomplex(0.),shape,false) : Meq::Vells(0.,shape,false);
  if( size_t(v.nelements())*v.elementSize() != size_t(n) ) throw std::runtime_error("vt: size");
  memcpy(v.getDataPtr(),p,n);
  Meq::Vells other(v);            // must never change
  std::string by(q,m);
  std::vector<Val> out; LoShape ns;
  if( mode == 5 || mode == 6 || mode == 7 )
  {
    // 5: a copy of a slice, 6: writing to a copy of a slice, 7: a slice as bytes
    ConstSlices sl(v,axes);
    do {
      Meq::Vells c;
      if( mode == 7 )
      {
        DMI::BlockSet set; sl.vells().toBlock(set);
        c.fromBlock(set);
      }
      else
        c = Meq::Vells(sl.vells());
      Val x; x.scalar = false; x.shape = c.shape();
      x.bytes.assign(static_cast<const char*>(c.getConstDataPtr()),size_t(c.nelements())*c.elementSize());
      out.push_back(x);
      if( mode == 6 ) memset(c.getDataPtr(),0x11,size_t(c.nelements())*c.elementSize());
    } while( sl.incr() );
  }
  else if( mode == 0 )
  {
    Meq::ConstVellsSlicer0 sl(v,axes);
    ns = sl.nonSlicedShape();
    do {
      Meq::Vells c = cx ? sl.vells() + Meq::Vells(make_dcomplex(0.)) : sl.vells() + Meq::Vells(0.);
      Val x; x.scalar = false; x.shape = sl.shape();
      x.bytes.assign(static_cast<const char*>(c.getConstDataPtr()),size_t(c.nelements())*c.elementSize());
      out.push_back(x);
    } while( sl.incr() );
  }
  else
  {
    int rank = axes.size();
#define S(T) switch( rank ) { case 1: slice_typed<T,1>(out,v,axes,mode,by); break; case 2: slice_typed<T,2>(out,v,axes,mode,by); break; \
      case 3: slice_typed<T,3>(out,v,axes,mode,by); break; default: throw std::runtime_error("vt: rank"); }
    if( cx ) { S(dcomplex) } else { S(double) }
  }
  OctoPython::PyObjectRef l = PyList_New(0);
  for( size_t i=0; i<out.size(); i++ ) { OctoPython::PyObjectRef x = val_py(out[i]); PyList_Append(*l,*x); }
  if( mode != 3 && mode != 4 && (v.nelements() != other.nelements() || memcmp(v.getConstDataPtr(),other.getConstDataPtr(),n)) )
    throw std::runtime_error("vt: reading changed the data");
  return
    Py_BuildValue("ONy#y#",*l,shape_to_seq(v.shape()),static_cast<const char*>(v.getConstDataPtr()),(Py_ssize_t)(v.nelements()*v.elementSize()),
      static_cast<const char*>(other.getConstDataPtr()),(Py_ssize_t)n);
  VT_END
}
static PyMethodDef methods[] = {
  {"array_prog",array_prog,METH_VARARGS,""},{"vells_slices",vells_slices,METH_VARARGS,""},
  {0,0,0,0} };
static Methods reg(methods);
}
