// Containers (records, lists, vectors, arrays) under sequences of operations, and their serialisation.
#define PY_SSIZE_T_CLEAN 1
#include "vt_meq.h"
#include <DMI/NumArray.h>
#include <DMI/BOIO.h>
#include <DMI/Timestamp.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstring>
#include <map>
#include <memory>
namespace vt {
typedef DMI::Container::Hook Hook;
static HIID py_id (PyObject *o)
{
  HIID id;
  if( PyUnicode_Check(o) ) return HIID(std::string(PyUnicode_AsUTF8(o)));
  for( int i=0; i<PySequence_Length(o); i++ )
  { OctoPython::PyObjectRef x = PySequence_GetItem(o,i); id.add(AtomicID(int(PyLong_AsLong(*x)))); }
  return id;
}
static std::string py_str (PyObject *o)
{ Py_ssize_t n; const char *s = PyUnicode_AsUTF8AndSize(o,&n); if( !s ) throw std::runtime_error("vt: string expected"); return std::string(s,n); }
static Py_complex py_cpx (PyObject *o)
{
  if( !PySequence_Check(o) ) return PyComplex_AsCComplex(o);
  OctoPython::PyObjectRef a = PySequence_GetItem(o,0), b = PySequence_GetItem(o,1);
  Py_complex c; c.real = PyFloat_AsDouble(*a); c.imag = PyFloat_AsDouble(*b); return c;
}
// ---- values <-> Python
template<class T> struct Conv
{
  static T from (PyObject *o) { return T(PyFloat_AsDouble(o)); }
  static PyObject * to (const T &x) { return PyFloat_FromDouble(double(x)); }
};
#define INTCONV(T) template<> struct Conv<T> { \
  static T from (PyObject *o) { return T(PyLong_AsLongLong(o)); } \
  static PyObject * to (const T &x) { return PyLong_FromLongLong((long long)(x)); } };
INTCONV(bool) INTCONV(char) INTCONV(uchar) INTCONV(short) INTCONV(ushort) INTCONV(int) INTCONV(uint) INTCONV(long) INTCONV(longlong)
#define CPXCONV(T) template<> struct Conv<T> { \
  static T from (PyObject *o) { Py_complex c = py_cpx(o); T x; \
    __real__ x = c.real; __imag__ x = c.imag; return x; } \
  static PyObject * to (const T &x) { return PyComplex_FromDoubles(__real__ x,__imag__ x); } };
#ifdef USE_STD_COMPLEX
template<> struct Conv<dcomplex> {
  static dcomplex from (PyObject *o) { Py_complex c = py_cpx(o); return dcomplex(c.real,c.imag); }
  static PyObject * to (const dcomplex &x) { return PyComplex_FromDoubles(x.real(),x.imag()); } };
template<> struct Conv<fcomplex> {
  static fcomplex from (PyObject *o) { Py_complex c = py_cpx(o); return fcomplex(c.real,c.imag); }
  static PyObject * to (const fcomplex &x) { return PyComplex_FromDoubles(x.real(),x.imag()); } };
#else
CPXCONV(dcomplex) CPXCONV(fcomplex)
#endif
template<> struct Conv<std::string> {
  static std::string from (PyObject *o)
  { OctoPython::PyObjectRef b = PyUnicode_AsLatin1String(o); return std::string(PyBytes_AsString(*b),PyBytes_Size(*b)); }
  static PyObject * to (const std::string &x) { return PyUnicode_DecodeLatin1(x.data(),x.size(),0); } };
template<> struct Conv<HIID> {
  static HIID from (PyObject *o) { return py_id(o); }
  static PyObject * to (const HIID &x)
  { PyObject *l = PyList_New(x.size()); for( int i=0; i<int(x.size()); i++ ) PyList_SetItem(l,i,PyLong_FromLong(x[i].id())); return l; } };
#define DTYPES(ty,DO) \
  if( ty == "bool" ) { DO(bool) } else if( ty == "int" ) { DO(int) } else if( ty == "long" ) { DO(long) } \
  else if( ty == "short" ) { DO(short) } else if( ty == "float" ) { DO(float) } else if( ty == "double" ) { DO(double) } \
  else if( ty == "fcomplex" ) { DO(fcomplex) } else if( ty == "dcomplex" ) { DO(dcomplex) } \
  else if( ty == "string" ) { DO(std::string) } else if( ty == "HIID" ) { DO(HIID) } \
  else throw std::runtime_error("vt: type "+ty)
#define ATYPES(ty,DO) \
  if( ty == "bool" ) { DO(bool) } else if( ty == "int" ) { DO(int) } else if( ty == "long" ) { DO(long) } \
  else if( ty == "short" ) { DO(short) } else if( ty == "float" ) { DO(float) } else if( ty == "double" ) { DO(double) } \
  else if( ty == "fcomplex" ) { DO(fcomplex) } else if( ty == "dcomplex" ) { DO(dcomplex) } \
  else if( ty == "string" ) { DO(std::string) } \
  else throw std::runtime_error("vt: array type "+ty)
template<class T> static void put_all (T *p,PyObject *vals)
{ for( int i=0; i<PySequence_Length(vals); i++ ) { OctoPython::PyObjectRef o = PySequence_GetItem(vals,i); p[i] = Conv<T>::from(*o); } }
template<class T> static PyObject * get_all (const T *p,int n)
{ PyObject *l = PyList_New(n); for( int i=0; i<n; i++ ) PyList_SetItem(l,i,Conv<T>::to(p[i])); return l; }

static PyObject * item (PyObject *seq,int i)          // borrowed
{ return PyTuple_Check(seq) ? PyTuple_GetItem(seq,i) : PyList_GetItem(seq,i); }
static PyObject * key (PyObject *d,const char *k)
{ PyObject *o = PyDict_GetItemString(d,k); if( !o ) throw std::runtime_error(std::string("vt: no key ")+k); return o; }

// ---- objects from specs
static ObjRef build (PyObject *spec)
{
  if( spec == Py_None ) return ObjRef();
  std::string t = py_str(key(spec,"t"));
  if( t == "rec" )
  {
    DMI::Record *rec = new DMI::Record; ObjRef ref(rec);
    PyObject *f = key(spec,"f");
    for( int i=0; i<PySequence_Length(f); i++ )
    {
      PyObject *e = item(f,i); ObjRef x = build(item(e,1));
      rec->add(py_id(item(e,0)),x);
    }
    return ref;
  }
  if( t == "list" )
  {
    DMI::List *list = new DMI::List; ObjRef ref(list);
    PyObject *v = key(spec,"v");
    for( int i=0; i<PySequence_Length(v); i++ ) { ObjRef x = build(item(v,i)); list->addBack(x); }
    return ref;
  }
  if( t == "vec" )
  {
    std::string ty = py_str(key(spec,"ty")); PyObject *v = key(spec,"v");
    int n = PySequence_Length(v); bool sca = PyObject_IsTrue(key(spec,"sc"));
    if( ty == "" ) return ObjRef(new DMI::Vec);
    if( ty == "DMIRecord" || ty == "DMIList" || ty == "DMINumArray" || ty == "DMIVec" )
    {
      DMI::Vec *vec = new DMI::Vec(TypeId(ty),sca?-1:n); ObjRef ref(vec);
      for( int i=0; i<n; i++ ) if( item(v,i) != Py_None ) { ObjRef x = build(item(v,i)); vec->put(i,x); }
      return ref;
    }
    #define DO(T) { T *p = new T[n>0?n:1]; put_all<T>(p,v); \
      DMI::Vec *vec = new DMI::Vec(typeIdOf(T),sca?-1:n,p); delete [] p; return ObjRef(vec); }
    DTYPES(ty,DO);
    #undef DO
  }
  if( t == "str" ) // string given by its bytes
  {
    std::string x; PyObject *v = key(spec,"v");
    for( int i=0; i<PySequence_Length(v); i++ ) x += char(PyLong_AsLong(item(v,i)));
    return ObjRef(new DMI::Vec(Tpstring,PyObject_IsTrue(key(spec,"sc"))?-1:1,&x));
  }
  if( t == "num" ) // vector of any integer type
  {
    std::string ty = py_str(key(spec,"ty")); PyObject *v = key(spec,"v");
    int n = PySequence_Length(v); bool sca = PyObject_IsTrue(key(spec,"sc"));
    #define NUM(T) if( ty == #T ) { std::vector<T> d(n); \
      for( int i=0; i<n; i++ ) { PyObject *x = item(v,i); d[i] = std::is_signed<T>::value ? T(PyLong_AsLongLong(x)) : T(PyLong_AsUnsignedLongLong(x)); } \
      return ObjRef(new DMI::Vec(typeIdOf(T),sca?-1:n,&(d[0]))); }
    NUM(char) NUM(uchar) NUM(short) NUM(ushort) NUM(int) NUM(uint) NUM(long) NUM(ulong) NUM(longlong) NUM(ulonglong)
    #undef NUM
  }
  if( t == "arr" )
  {
    std::string ty = py_str(key(spec,"ty")); PyObject *v = key(spec,"v"), *s = key(spec,"s");
    if( ty == "" ) return ObjRef(new DMI::NumArray);
    LoShape shape; shape.resize(PySequence_Length(s));
    for( uint i=0; i<shape.size(); i++ ) shape[i] = PyLong_AsLong(item(s,i));
    #define DO(T) { DMI::NumArray *arr = new DMI::NumArray(typeIdOf(T),shape); ObjRef ref(arr); \
      put_all<T>(static_cast<T*>(arr->getDataPtr()),v); return ref; }
    ATYPES(ty,DO);
    #undef DO
  }
  if( t == "py" ) return toDMI(key(spec,"o"));
  if( t == "result" ) { Meq::Result::Ref r = make_result(key(spec,"o")); return ObjRef(r); }
  throw std::runtime_error("vt: spec "+t);
}

// ---- objects to Python: the complete content
static PyObject * dump (const BObj *obj,int depth=0);
static PyObject * dump_ref (const ObjRef &ref,int depth)
{ if( ref.valid() ) return dump(ref.deref_p(),depth); Py_RETURN_NONE; }
static std::string tname (TypeId tid)
{
  if( !tid.id() ) return "";
  if( tid == TpDMIRecord ) return "DMIRecord";
  if( tid == TpDMIList ) return "DMIList";
  if( tid == TpDMINumArray ) return "DMINumArray";
  if( tid == TpDMIVec ) return "DMIVec";
  if( tid == TpDMIHIID ) return "HIID";
  if( tid == Tpstring ) return "string";
  return tid.toString();
}
// reads raw elements; reading them all makes sure that they can be accessed
static PyObject * raw (const std::string &ty,const void *p,int n)
{
  #define DO(T) { return get_all<T>(static_cast<const T*>(p),n); }
  DTYPES(ty,DO);
  #undef DO
  return 0;
}
static PyObject * dump (const BObj *obj,int depth)
{
  if( depth > 400 ) throw std::runtime_error("vt: nested too deeply");
  TypeId tid = obj->objectType();
  if( const DMI::Record *rec = dynamic_cast<const DMI::Record*>(obj) )
  {
    PyObject *f = PyList_New(0);
    std::map<std::string,OctoPython::PyObjectRef> sorted;
    for( DMI::Record::const_iterator it = rec->begin(); it != rec->end(); it++ )
    {
      OctoPython::PyObjectRef x = dump_ref(it.ref(),depth+1);
      OctoPython::PyObjectRef e = Py_BuildValue("(sO)",it.id().toString('.').c_str(),*x);
      PyList_Append(f,*e);
    }
    PyList_Sort(f);
    return Py_BuildValue("(sN)",tid == TpDMIRecord ? "rec" : tname(tid).c_str(),f);
  }
  if( const DMI::List *list = dynamic_cast<const DMI::List*>(obj) )
  {
    PyObject *l = PyList_New(0);
    for( DMI::List::const_iterator it = list->begin(); it != list->end(); it++ )
    { OctoPython::PyObjectRef x = dump_ref(*it,depth+1); PyList_Append(l,*x); }
    return Py_BuildValue("(sN)","list",l);
  }
  if( const DMI::NumArray *arr = dynamic_cast<const DMI::NumArray*>(obj) )
  {
    if( !arr->valid() ) return Py_BuildValue("(ssO[])",tid == TpDMINumArray ? "arr" : tid.toString().c_str(),"",Py_None);
    std::string ty = tname(arr->elementType());
    PyObject *s = PyTuple_New(arr->shape().size()); int n = 1;
    for( uint i=0; i<arr->shape().size(); i++ ) { n *= arr->shape()[i]; PyTuple_SetItem(s,i,PyLong_FromLong(arr->shape()[i])); }
    OctoPython::PyObjectRef so = s;
    PyObject *v;
    try { v = raw(ty,arr->getConstDataPtr(),n); } catch( std::exception & )
    {  // other element types: all bytes
      v = PyBytes_FromStringAndSize(static_cast<const char*>(arr->getConstDataPtr()),n*arr->elementSize());
    }
    return Py_BuildValue("(ssON)",tid == TpDMINumArray ? "arr" : tid.toString().c_str(),ty.c_str(),*so,v);
  }
  if( const DMI::Vec *vec = dynamic_cast<const DMI::Vec*>(obj) )
  {
    const char *tn = "vec"; std::string ts = tid.toString();
    if( tid != TpDMIVec ) tn = ts.c_str();
    if( !vec->valid() ) return Py_BuildValue("(ssO[])",tn,"",Py_None);
    int n = vec->size(vec->type()); std::string ty = tname(vec->type());
    PyObject *l;
    if( TypeInfo::isDynamic(vec->type()) )
    {
      l = PyList_New(0);
      for( int i=0; i<n; i++ )
      {
        OctoPython::PyObjectRef x;
        ObjRef ref = vec->getObj(i);
        OctoPython::PyObjectRef y = dump_ref(ref,depth+1);
        PyList_Append(l,*y);
      }
    }
    else
    {
      // element by element
      l = PyList_New(0);
      for( int i=0; i<n; i++ )
      {
        PyObject *x = 0;
        #define DO(T) { const T &v = (*vec)[HIID(AtomicID(i))].template as<T>(); x = Conv<T>::to(v); }
        #define DOT(T,name) else if( ty == name ) DO(T)
        if( 0 ) {}
        #define as_T(T,name) else if( ty == name ) { T v = (*vec)[HIID(AtomicID(i))].as<T>(); x = Conv<T>::to(v); }
        as_T(bool,"bool") as_T(int,"int") as_T(long,"long") as_T(short,"short") as_T(float,"float") as_T(double,"double")
        as_T(fcomplex,"fcomplex") as_T(dcomplex,"dcomplex") as_T(char,"char") as_T(uchar,"uchar") as_T(ushort,"ushort") as_T(uint,"uint")
        as_T(longlong,"longlong") as_T(std::string,"string") as_T(HIID,"HIID")
        else { x = Py_None; Py_INCREF(x); }
        OctoPython::PyObjectRef xo = x; PyList_Append(l,*xo);
      }
    }
    return Py_BuildValue("(ssON)",tn,ty.c_str(),vec->isScalar() ? Py_True : Py_False,l);
  }
  return Py_BuildValue("(s)",tid.toString().c_str());
}

static ObjRef via_blocks (const BObj &obj,int priv)
{
  DMI::BlockSet set; int n = obj.toBlock(set);
  if( n != set.size() ) throw std::logic_error("vt: toBlock() returned a wrong number of blocks");
  if( priv ) set.privatizeAll(DMI::DEEP);
  TypeId tid = obj.objectType();
  ObjRef ref = DynamicTypeManager::construct(priv == 2 ? TypeId(0) : tid,set);
  if( set.size() ) throw std::logic_error("vt: blocks left over");
  return ref;
}

// ---- the interpreter of operation sequences
struct Prog
{
  std::vector<ObjRef> slot;
  Prog () : slot(8) {}
  DMI::Container & wr (int s) { DMI::Container *c = dynamic_cast<DMI::Container*>(slot[s].dewr_p()); if( !c ) throw std::runtime_error("vt: not a container"); return *c; }
  const DMI::Container & rd (int s) { const DMI::Container *c = dynamic_cast<const DMI::Container*>(slot[s].deref_p()); if( !c ) throw std::runtime_error("vt: not a container"); return *c; }
  static HIID pid (PyObject *path,int i) { return py_id(item(path,i)); }
  static void walk (Hook &hook,PyObject *path)
  { for( int i=1; i<PySequence_Length(path); i++ ) hook[pid(path,i)]; }
  template<class T> T & obj_wr (int s,PyObject *path)
  {
    if( !PySequence_Length(path) )
    { T *p = dynamic_cast<T*>(slot[s].dewr_p()); if( !p ) throw std::runtime_error("vt: wrong type"); return *p; }
    Hook hook(wr(s),pid(path,0)); walk(hook,path);
    return hook.as_wr<T>();
  }
  template<class T> const T & obj_rd (int s,PyObject *path)
  {
    if( !PySequence_Length(path) )
    { const T *p = dynamic_cast<const T*>(slot[s].deref_p()); if( !p ) throw std::runtime_error("vt: wrong type"); return *p; }
    Hook hook(rd(s),pid(path,0)); walk(hook,path);
    return hook.as<T>();
  }
  PyObject * run (PyObject *op)
  {
    std::string o = py_str(item(op,0));
    int a = PyLong_AsLong(item(op,1));
    #define I(n) int(PyLong_AsLong(item(op,n)))
    #define S(n) py_str(item(op,n))
    #define P(n) item(op,n)
    if( o == "new" ) slot[a] = build(P(2));
    else if( o == "copy" ) { ObjRef x; x.copy(slot[I(2)],I(3),I(4)); slot[a].xfer(x); }
    else if( o == "priv" ) slot[a].privatize(I(2),I(3));
    else if( o == "xfer" ) slot[a].xfer(slot[I(2)]);
    else if( o == "clear" ) slot[a].detach();
    else if( o == "ser" ) { ObjRef x = via_blocks(slot[I(2)].deref(),I(3)); slot[a].xfer(x); }
    else if( o == "fetch" )      // d s path const
    {
      int s = I(2); PyObject *path = P(3); ObjRef x;
      if( I(4) ) { Hook hook(rd(s),pid(path,0)); walk(hook,path); x = hook.ref(); }
      else { Hook hook(wr(s),pid(path,0)); walk(hook,path); x = hook.ref(); }
      slot[a].xfer(x);
    }
    else if( o == "put" )        // s path src replace xfer
    {
      PyObject *path = P(2); int src = I(3);
      Hook hook(wr(a),pid(path,0)); walk(hook,path);
      if( I(4) ) hook.replace();
      if( I(5) ) hook <<= slot[src]; else hook = slot[src];
    }
    else if( o == "set" )        // s path ty val replace
    {
      PyObject *path = P(2); std::string ty = S(3);
      Hook hook(wr(a),pid(path,0)); walk(hook,path);
      if( I(5) ) hook.replace();
      #define DO(T) { T x = Conv<T>::from(P(4)); hook = x; }
      DTYPES(ty,DO);
      #undef DO
    }
    else if( o == "setvec" )     // s path ty vals replace
    {
      PyObject *path = P(2); std::string ty = S(3);
      Hook hook(wr(a),pid(path,0)); walk(hook,path);
      if( I(5) ) hook.replace();
      #define DOV(T) { std::vector<T> x(PySequence_Length(P(4))); if( x.size() ) put_all<T>(&x[0],P(4)); hook = x; }
      if( ty == "int" ) DOV(int) else if( ty == "double" ) DOV(double) else if( ty == "HIID" ) DOV(HIID)
      else throw std::runtime_error("vt: setvec type");
    }
    else if( o == "setview" )    // s path ty val: through a writable reference or pointer
    {
      PyObject *path = P(2); std::string ty = S(3);
      Hook hook(wr(a),pid(path,0)); walk(hook,path);
      #define DO(T) { T &x = hook.as_wr<T>(); x = Conv<T>::from(P(4)); }
      DTYPES(ty,DO);
      #undef DO
    }
    else if( o == "as" )         // s path ty
    {
      PyObject *path = P(2); std::string ty = S(3);
      Hook hook(rd(a),pid(path,0)); walk(hook,path);
      #define DO(T) { T x = hook.as<T>(); return Conv<T>::to(x); }
      DTYPES(ty,DO);
      #undef DO
    }
    else if( o == "asdef" )      // s path ty default
    {
      PyObject *path = P(2); std::string ty = S(3);
      Hook hook(rd(a),pid(path,0)); walk(hook,path);
      #define DO(T) { T d = Conv<T>::from(P(4)); T x = hook.as<T>(d); return Conv<T>::to(x); }
      DTYPES(ty,DO);
      #undef DO
    }
    else if( o == "info" )       // s path : exists, type, size
    {
      PyObject *path = P(2);
      Hook hook(rd(a),pid(path,0)); walk(hook,path);
      bool ex = hook.exists(); TypeId t = hook.type(); int sz = hook.size();
      return Py_BuildValue("(isi)",int(ex),tname(t).c_str(),sz);
    }
    else if( o == "remove" )     // s path dst
    {
      PyObject *path = P(2);
      Hook hook(wr(a),pid(path,0)); walk(hook,path);
      ObjRef x = hook.remove();
      if( I(3) >= 0 ) slot[I(3)].xfer(x);
    }
    else if( o == "radd" )       // s path id src how xfer protect
    {
      DMI::Record &rec = obj_wr<DMI::Record>(a,P(2)); HIID id = py_id(P(3)); ObjRef &src = slot[I(4)];
      std::string how = S(5); int fl = (I(6) ? DMI::XFER : 0)|(I(7) ? int(DMI::Record::PROTECT) : 0);
      if( how == "add" ) rec.add(id,src,fl);
      else if( how == "addrep" ) rec.add(id,src,fl|DMI::REPLACE);
      else if( how == "insert" ) rec.insert(id,src,fl);
      else if( how == "replace" ) rec.replace(id,src,fl);
    }
    else if( o == "rremove" )    // s path id ignore dst
    {
      ObjRef x = obj_wr<DMI::Record>(a,P(2)).removeField(py_id(P(3)),I(4));
      slot[I(5)].xfer(x);
    }
    else if( o == "rget" )       // s path id ignore dst
    { ObjRef x = obj_rd<DMI::Record>(a,P(2)).get(py_id(P(3)),I(4)); slot[I(5)].xfer(x); }
    else if( o == "rmerge" )     // s path src overwrite
    {
      const DMI::Record &src = dynamic_cast<const DMI::Record&>(slot[I(3)].deref());
      obj_wr<DMI::Record>(a,P(2)).merge(src,I(4));
    }
    else if( o == "rprot" ) obj_wr<DMI::Record>(a,P(2)).protectField(py_id(P(3)),I(4));
    else if( o == "rnum" )       // s path : the fields as seen by number
    {
      const DMI::Record &rec = obj_rd<DMI::Record>(a,P(2));
      PyObject *l = PyList_New(0);
      int n = rec.size();
      for( int i=0; i<n; i++ )
      {
        HIID id(AidHash); id.add(AtomicID(i));
        Hook hook(rec,id); ObjRef x = hook.ref();
        OctoPython::PyObjectRef y = dump_ref(x,0); PyList_Append(l,*y);
      }
      HIID id(AidHash); id.add(AtomicID(n));
      Hook hook(rec,id);
      if( hook.exists() ) throw std::logic_error("vt: field beyond the end");
      return l;
    }
    else if( o == "lput" )       // s path n src how xfer
    {
      DMI::List &l = obj_wr<DMI::List>(a,P(2)); int n = I(3); ObjRef &src = slot[I(4)];
      std::string how = S(5); int fl = (I(6) ? DMI::XFER : 0);
      if( how == "put" ) l.put(n,src,fl);
      else if( how == "insert" ) l.insert(n,src,fl);
      else if( how == "replace" ) l.replace(n,src,fl);
      else if( how == "front" ) l.addFront(src,fl);
      else if( how == "back" ) l.addBack(src,fl);
    }
    else if( o == "lremove" )    // s path n dst
    { ObjRef x = obj_wr<DMI::List>(a,P(2)).remove(I(3)); slot[I(4)].xfer(x); }
    else if( o == "lget" )       // s path n dst
    { ObjRef x = obj_rd<DMI::List>(a,P(2)).get(I(3)); slot[I(4)].xfer(x); }
    else if( o == "lappend" )    // s path src
    {
      DMI::List &l = obj_wr<DMI::List>(a,P(2));
      if( I(3) < 0 ) l.append(l);
      else l.append(dynamic_cast<const DMI::List&>(slot[I(3)].deref()));
    }
    else if( o == "vput" )       // s path n src xfer
    { obj_wr<DMI::Vec>(a,P(2)).put(I(3),slot[I(4)],I(5) ? DMI::XFER : 0); }
    else if( o == "vget" )       // s path n dst
    { ObjRef x = obj_rd<DMI::Vec>(a,P(2)).getObj(I(3)); slot[I(4)].xfer(x); }
    else if( o == "vresize" ) obj_wr<DMI::Vec>(a,P(2)).resize(I(3));
    else throw std::runtime_error("vt: op "+o);
    Py_RETURN_NONE;
  }
};

static PyObject * dmi_prog (PyObject *,PyObject *args)
{
  VT_TRY
  PyObject *ops; int verbose=0;
  if( !PyArg_ParseTuple(args,"O|i",&ops,&verbose) ) return 0;
  Prog prog;
  PyObject *res = PyList_New(0); OctoPython::PyObjectRef res_ = res;
  for( int i=0; i<PySequence_Length(ops); i++ )
  {
    PyObject *op = item(ops,i); PyObject *r = 0;
    try { r = prog.run(op); if( r ) { OctoPython::PyObjectRef rr = r; OctoPython::PyObjectRef e = Py_BuildValue("(sO)","ok",r); PyList_Append(res,*e); } }
    catch( std::logic_error & ) { throw; }
    catch( std::exception &exc )
    {
      std::string s = DMI::exceptionToString(exc);
      if( !s.compare(0,4,"vt: ") && s.compare(0,9,"vt: wrong") && s.compare(0,7,"vt: not") ) throw;
      OctoPython::PyObjectRef e = Py_BuildValue("(sN)","err",PyUnicode_DecodeLatin1(s.data(),s.size(),0)); PyList_Append(res,*e);
    }
    if( PyErr_Occurred() ) return 0;
  }
  PyObject *state = PyList_New(0); OctoPython::PyObjectRef st = state;
  for( uint i=0; i<prog.slot.size(); i++ )
  { OctoPython::PyObjectRef x = dump_ref(prog.slot[i],0); PyList_Append(state,*x); }
  return Py_BuildValue("(OO)",res,state);
  VT_END
}

// ---- written forms
// the written form of an object: list of blocks
static PyObject * dmi_blocks (PyObject *,PyObject *args)
{
  VT_TRY
  PyObject *spec;
  if( !PyArg_ParseTuple(args,"O",&spec) ) return 0;
  ObjRef ref = build(spec);
  DMI::BlockSet set; ref->toBlock(set);
  PyObject *l = PyList_New(0); OctoPython::PyObjectRef lo = l;
  while( set.size() )
  {
    DMI::BlockRef b = set.pop();
    OctoPython::PyObjectRef x = PyBytes_FromStringAndSize(b->cdata(),b->size());
    PyList_Append(l,*x);
  }
  OctoPython::PyObjectRef d = dump_ref(ref,0);
  return Py_BuildValue("(OO)",*d,l);
  VT_END
}

// copies of bytes that end where the next page can't be accessed
struct Guarded
{
  char *map; size_t len; char *data;
  Guarded (const char *src,size_t n)
  {
    size_t pg = sysconf(_SC_PAGESIZE), need = (n+pg-1)/pg*pg;
    len = need+pg;
    map = static_cast<char*>(mmap(0,len,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0));
    if( map == MAP_FAILED ) throw std::logic_error("vt: mmap failed");
    memset(map,0x5a,need);
    data = map+need-n;
    if( n ) memcpy(data,src,n);
    mprotect(map+need,pg,PROT_NONE);
  }
  ~Guarded () { munmap(map,len); }
};

static PyObject * dump_all (const ObjRef &ref)
{
  std::string s = ref->sdebug(5);                  // goes through everything, too
  return dump_ref(ref,0);
}

// object from its written form: ("err",message), or ("ok",dump,blocks left,dump of the object written and read back)
static PyObject * dmi_unblock (PyObject *,PyObject *args)
{
  VT_TRY
  PyObject *blocks; int nread=0;
  if( !PyArg_ParseTuple(args,"O|i",&blocks,&nread) ) return 0;
  std::vector<std::shared_ptr<Guarded> > mem;      // destroyed last
  PyObject *res = 0;
  try
  {
    DMI::BlockSet set;
    for( int i=0; i<PySequence_Length(blocks); i++ )
    {
      PyObject *b = item(blocks,i);
      mem.push_back(std::make_shared<Guarded>(PyBytes_AsString(b),PyBytes_Size(b)));
      set.pushNew() <<= new DMI::SmartBlock(mem.back()->data,PyBytes_Size(b),DMI::EXTERNAL);
    }
    ObjRef ref = DynamicTypeManager::construct(0,set);
    if( !ref.valid() ) return Py_BuildValue("(ss)","err","no object");
    int left = set.size();
    std::string err; DMI::BlockSet s0;
    ref->toBlock(s0);                              // before anything was looked at
    OctoPython::PyObjectRef d1 = dump_all(ref);
    if( PyErr_Occurred() ) return 0;
    DMI::BlockSet s2;
    int n = ref->toBlock(s2);
    if( n != s2.size() ) throw std::logic_error("vt: toBlock() returned a wrong number of blocks");
    // what is written is valid, so that failing to read it is a violation
    ObjRef r1,r2;
    try
    { 
      r1 = DynamicTypeManager::construct(0,s0); r2 = DynamicTypeManager::construct(0,s2);
      OctoPython::PyObjectRef e1 = dump_all(r1), e2 = dump_all(r2);
      res = Py_BuildValue("(sOiOO)","ok",*d1,left+s0.size()*1000+s2.size()*1000,*e1,*e2);
    }
    catch( std::exception &exc )
    { throw std::logic_error("vt: not readable after rewriting: "+DMI::exceptionToString(exc)); }
  }
  catch( std::logic_error &exc ) { if( !strncmp(exc.what(),"vt:",3) ) throw; res = Py_BuildValue("(ss)","err",exc.what()); }
  catch( std::exception &exc )
  {
    std::string s = DMI::exceptionToString(exc);
    if( PyErr_Occurred() ) PyErr_Clear();
    res = Py_BuildValue("(sN)","err",PyUnicode_DecodeLatin1(s.data(),s.size(),0));
  }
  return res;
  VT_END
}

// writes objects to a file
static PyObject * boio_write (PyObject *,PyObject *args)
{
  VT_TRY
  const char *fn; PyObject *specs; int append=0;
  if( !PyArg_ParseTuple(args,"sO|i",&fn,&specs,&append) ) return 0;
  DMI::BOIO io(fn,append ? DMI::BOIO::APPEND : DMI::BOIO::WRITE);
  PyObject *l = PyList_New(0); OctoPython::PyObjectRef lo = l;
  for( int i=0; i<PySequence_Length(specs); i++ )
  {
    ObjRef ref = build(item(specs,i));
    io << *ref;
    OctoPython::PyObjectRef d = dump_ref(ref,0); PyList_Append(l,*d);
  }
  io.close();
  Py_INCREF(l); return l;
  VT_END
}
// reads all objects of a file: (list of dumps, error or None)
static PyObject * boio_read (PyObject *,PyObject *args)
{
  VT_TRY
  const char *fn; int peek=0;
  if( !PyArg_ParseTuple(args,"s|i",&fn,&peek) ) return 0;
  PyObject *l = PyList_New(0); OctoPython::PyObjectRef lo = l;
  try
  {
    DMI::BOIO io(fn,DMI::BOIO::READ);
    for( int n=0; n<100000; n++ )
    {
      TypeId t; if( peek&1 ) t = io.nextType();
      if( peek&2 ) io.nextType();
      ObjRef ref; TypeId tid = io.readAny(ref);
      if( peek && (peek&1) && t != tid ) throw std::logic_error("vt: nextType() differs from the type of the object");
      if( !tid ) { if( ref.valid() ) throw std::logic_error("vt: object at the end of the file"); break; }
      if( ref->objectType() != tid ) throw std::logic_error("vt: readAny() returns another type");
      OctoPython::PyObjectRef d = dump_all(ref); PyList_Append(l,*d);
    }
    if( PyErr_Occurred() ) return 0;
    return Py_BuildValue("(OO)",l,Py_None);
  }
  catch( std::logic_error &exc ) { if( !strncmp(exc.what(),"vt:",3) ) throw; return Py_BuildValue("(Os)",l,exc.what()); }
  catch( std::exception &exc )
  {
    if( PyErr_Occurred() ) PyErr_Clear();
    std::string s = DMI::exceptionToString(exc);
    return Py_BuildValue("(ON)",l,PyUnicode_DecodeLatin1(s.data(),s.size(),0));
  }
  VT_END
}

// py_echo(obj) -> (dump, values converted back: directly, after going through blocks, and after a second conversion both ways)
static PyObject * py_echo (PyObject *,PyObject *args)
{
  VT_TRY
  PyObject *obj;
  if( !PyArg_ParseTuple(args,"O",&obj) ) return 0;
  ObjRef ref; OctoPython::pyToDMI(ref,obj);
  if( PyErr_Occurred() ) { PyErr_Print(); throw std::logic_error("vt: conversion succeeded but left an exception behind"); }
  OctoPython::PyObjectRef d = dump_ref(ref,0);
  if( !ref.valid() ) return Py_BuildValue("(OOOO)",*d,Py_None,Py_None,Py_None);
  OctoPython::PyObjectRef a = OctoPython::pyFromDMI(*ref);
  ObjRef r2 = via_blocks(*ref,2);
  OctoPython::PyObjectRef b = OctoPython::pyFromDMI(*r2);
  ObjRef r3; OctoPython::pyToDMI(r3,*a);
  OctoPython::PyObjectRef c = Py_None; Py_INCREF(Py_None);
  OctoPython::PyObjectRef c1 = r3.valid() ? OctoPython::pyFromDMI(*r3) : ~c;
  if( PyErr_Occurred() ) { PyErr_Print(); throw std::logic_error("vt: conversion back succeeded but left an exception behind"); }
  return Py_BuildValue("(OOOO)",*d,*a,*b,*c1);
  VT_END
}
// py_from(spec) -> (dump, Python value)
static PyObject * py_from (PyObject *,PyObject *args)
{
  VT_TRY
  PyObject *spec;
  if( !PyArg_ParseTuple(args,"O",&spec) ) return 0;
  ObjRef ref = build(spec);
  OctoPython::PyObjectRef d = dump_ref(ref,0);
  if( !ref.valid() ) return Py_BuildValue("(OO)",*d,Py_None);
  OctoPython::PyObjectRef a = OctoPython::pyFromDMI(*ref);
  if( PyErr_Occurred() ) { PyErr_Print(); throw std::logic_error("vt: conversion succeeded but left an exception behind"); }
  return Py_BuildValue("(OO)",*d,*a);
  VT_END
}
static PyMethodDef methods[] = {
  { "py_echo",py_echo,METH_VARARGS,"" },
  { "py_from",py_from,METH_VARARGS,"" },
  { "dmi_blocks",dmi_blocks,METH_VARARGS,"" },
  { "dmi_unblock",dmi_unblock,METH_VARARGS,"" },
  { "boio_write",boio_write,METH_VARARGS,"" },
  { "boio_read",boio_read,METH_VARARGS,"" },
  { "dmi_prog",dmi_prog,METH_VARARGS,"" },
  { 0,0,0,0 } };
static Methods reg(methods);
}
