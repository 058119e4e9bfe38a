// In-process MeqServer: forest commands, node execution, and a harness node class whose
// results are supplied by the generator.
#include "vt.h"
#include <MeqServer/MeqServer.h>
#include <MeqServer/MeqPython.h>
#include <MEQ/MTPool.h>
#include <MEQ/Node.h>
#include <MEQ/Request.h>
#include <MEQ/Result.h>
#include <MEQ/MeqVocabulary.h>
#include <AppAgent/EventChannel.h>
#include <DMI/TypeInfo.h>
#include <map>
#include <mutex>
#include <unistd.h>

namespace MeqPython { PyMODINIT_FUNC PyInit_MeqPython (Meq::MeqServer *mq); }

namespace vt {
using namespace Meq;

// ---- event channel that records what is posted ------------------------------------------
class RecChannel : public AppAgent::EventChannel
{
  public:
    std::mutex mx; std::vector<std::pair<HIID,ObjRef> > events; bool keep = false;
    virtual void postEvent (const HIID &id,const ObjRef &data,AtomicID,const HIID &)
    { if( !keep ) return; std::lock_guard<std::mutex> l(mx); events.push_back(std::make_pair(id,data)); }
};
static MeqServer *mqs = 0;
static RecChannel *chan = 0;
static bool pyinit = false;

// ---- harness node ------------------------------------------------------------------------
struct Source {
  std::vector<Result::Ref> res; // results, used in turn (last one repeated)
  int retcode = 0; int sleep_us = 0; int count = 0; int throws = 0;
  std::vector<HIID> rqids;
};
static std::mutex srcmx;
static std::map<std::string,Source> sources;
static std::vector<std::string> trace;      // order in which harness nodes were evaluated
static const int TpVt = -9001;

class VtNode : public Meq::Node
{
  public:
    VtNode () : Node(-1) {}
    virtual TypeId objectType () const { return TypeId(TpVt); }
  protected:
    virtual int getResult (Result::Ref &resref,const std::vector<Result::Ref> &childres,const Request &req,bool)
    {
      int rc = 0, us = 0; bool thr = false; Result::Ref mine;
      {
        std::lock_guard<std::mutex> l(srcmx);
        Source &s = sources[name()];
        if( !s.res.empty() )
        {
          int i = std::min<int>(s.count,s.res.size()-1);
          mine.copy(s.res[i],DMI::DEEP);
        }
        s.count++; s.rqids.push_back(req.id());
        trace.push_back(name());
        rc = s.retcode; us = s.sleep_us; thr = s.throws != 0;
      }
      if( us ) usleep(us);
      if( thr ) Throw("vt: induced failure in "+name());
      if( mine.valid() ) resref = mine;
      else if( !childres.empty() && childres[0].valid() ) resref.copy(childres[0]);
      else { resref <<= new Result(0); }
      return rc;
    }
};

// a node whose result is a function of its state and of the components of the request id that
// its dependency mask declares
class VtDep : public Meq::Node
{
  public:
    VtDep () : Node(-1) {}
    virtual TypeId objectType () const { return TypeId(TpVt-1); }
  protected:
    double base = 0; int deps = 0, fail_at = 0, missing_at = 0, spid = 0, us = 0, leading = 0;
    virtual void setStateImpl (DMI::Record::Ref &rec,bool initializing)
    {
      Node::setStateImpl(rec,initializing);
      rec[AidValue].get(base,initializing);
      rec[AidMask].get(deps,initializing);
      rec[AidFail|AidIndex].get(fail_at,initializing);
      rec[AidMissing|AidIndex].get(missing_at,initializing);
      rec[AidSpid|AidIndex].get(spid,initializing);
      rec[AidTime|AidIndex].get(us,initializing);
      rec[AidNum|AidIndex].get(leading,initializing);
    }
    virtual int getResult (Result::Ref &resref,const std::vector<Result::Ref> &childres,const Request &req,bool)
    {
      { std::lock_guard<std::mutex> l(srcmx); trace.push_back(name()); }
      if( us ) usleep(us);
      const HIID &id = req.id();
      double v = base; int sum = 0;
      for( int b=1; b<6; b++ )
        if( deps&(1<<b) )
        {
          int c = b < int(id.size()) ? id[b].id() : 0;
          sum += c;
          v += c*(b*0.37+0.11);
        }
      int rc = deps&0x3E;
      if( fail_at && sum%5 == fail_at%5 )
      {
        resref <<= new Result(1);
        VellSet &vs = resref().setNewVellSet(0);
        MakeFailVellSet(vs,"vt: generated failure in "+name());
        return rc|RES_FAIL;
      }
      if( missing_at && sum%5 == missing_at%5 )
      {
        resref <<= new Result(1);
        resref().setVellSet(0,new VellSet);
        return rc|RES_MISSING;
      }
      const Cells &cells = req.cells();
      int nt = 1;
      bool grid = (deps&0x18) == 0x18 && cells.isDefined(0);
      if( grid ) nt = cells.ncells(0);
      int nset = req.evalMode() < 0 ? 0 : req.evalMode();
      if( !spid ) nset = 0;
      // leading planes that depend on no parameter
      resref <<= new Result(leading+1);
      for( int i=0; i<leading; i++ )
        resref().setNewVellSet(i).setValue(new Vells(v+10+i));
      VellSet &vs = resref().setNewVellSet(leading,nset ? 1 : 0,nset);
      if( nset ) vs.setSpids(std::vector<VellSet::SpidType>(1,spid));
      for( int s=-1; s<nset; s++ )
      {
        double d = s < 0 ? 0 : s ? -0.25 : 0.5;
        Vells::Ref ref;
        if( grid )
        {
          ref <<= new Vells(double(0),LoShape(nt));
          double *p = ref().realStorage();
          for( int i=0; i<nt; i++ ) p[i] = v + d + 0.01*cells.center(0)(i);
        }
        else
          ref <<= new Vells(v+d);
        if( s < 0 ) vs.setValue(ref);
        else { vs.setPerturbation(0,d,s); vs.setPerturbedValue(0,ref,s); }
      }
      if( grid ) resref().setCells(cells);
      return rc;
    }
};
static DMI::BObj * construct_vtdep (int n) { return n>0 ? new VtDep[n] : new VtDep; }
static DMI::BObj * construct_vtnode (int n) { return n>0 ? new VtNode[n] : new VtNode; }

static void need ()
{
  if( mqs ) return;
  AtomicID::registerId(TpVt,"MeqVtNode");
  TypeInfoReg::addToRegistry(TpVt,TypeInfo(TypeInfo::DYNAMIC,0));
  DynamicTypeManager::addToRegistry(TpVt,construct_vtnode);
  AtomicID::registerId(TpVt-1,"MeqVtDep");
  TypeInfoReg::addToRegistry(TpVt-1,TypeInfo(TypeInfo::DYNAMIC,0));
  DynamicTypeManager::addToRegistry(TpVt-1,construct_vtdep);
  mqs = new MeqServer;
  AppAgent::EventChannel::Ref ref;
  ref <<= chan = new RecChannel;
  mqs->attachControl(ref);
}

Meq::Forest & the_forest () { need(); return mqs->getForest(); }
NodeFace & find_node (const char *name) { need(); return mqs->getForest().findNode(name); }
void set_source (const std::string &name,const std::vector<Result::Ref> &res,int rc,int us,int thr)
{
  need();
  Source s; s.res = res; s.retcode = rc; s.sleep_us = us; s.throws = thr;
  std::lock_guard<std::mutex> l(srcmx);
  sources[name] = s;
}
static PyObject * init (PyObject *,PyObject *args)
{
  int nthr = 0, py = 0;
  if( !PyArg_ParseTuple(args,"|ii",&nthr,&py) ) return 0;
  VT_TRY
  if( nthr > 1 && !MTPool::enabled() )
    MTPool::start(nthr*2-1,nthr);
  need();
  if( nthr > 1 )
    MTPool::brigade().join(MTPool::BUSY,0);
  if( py && !pyinit )
  {
    pyinit = true;
    PyThreadState *ts = PyThreadState_Get();
    MeqPython::PyInit_MeqPython(mqs);
    PyEval_RestoreThread(ts);
  }
  VT_END
  Py_RETURN_NONE;
}

typedef void (MeqServer::*Cmd)(DMI::Record::Ref &out,DMI::Record::Ref &in);
static std::map<std::string,Cmd> & cmds ()
{
  static std::map<std::string,Cmd> m;
  if( m.empty() )
  {
    m["Set.Cwd"] = &MeqServer::setCurrentDir;
    m["Set.Session.Name"] = &MeqServer::setSessionName;
    m["Set.Forest.State"] = &MeqServer::setForestState;
    m["Get.Forest.State"] = &MeqServer::getForestState;
    m["Get.Forest.Status"] = &MeqServer::getForestStatus;
    m["Create.Node"] = &MeqServer::createNode;
    m["Create.Node.Batch"] = &MeqServer::createNodeBatch;
    m["Delete.Node"] = &MeqServer::deleteNode;
    m["Node.Get.State"] = &MeqServer::nodeGetState;
    m["Node.Set.State"] = &MeqServer::nodeSetState;
    m["Get.Node.List"] = &MeqServer::getNodeList;
    m["Get.NodeIndex"] = &MeqServer::getNodeIndex;
    m["Node.Execute"] = &MeqServer::nodeExecute;
    m["Clear.Forest"] = &MeqServer::clearForest;
    m["Disable.Publish.Results"] = &MeqServer::disablePublishResults;
    m["Execute.Abort"] = &MeqServer::executeAbort;
    m["Set.Forest.Breakpoint"] = &MeqServer::setForestBreakpoint;
    m["Clear.Forest.Breakpoint"] = &MeqServer::clearForestBreakpoint;
    m["Debug.Set.Level"] = &MeqServer::debugSetLevel;
  }
  return m;
}
// cmd(name,args) -> reply record
static PyObject * cmd (PyObject *,PyObject *args)
{
  const char *name; PyObject *pyrec;
  if( !PyArg_ParseTuple(args,"sO",&name,&pyrec) ) return 0;
  VT_TRY
  need();
  std::map<std::string,Cmd>::iterator it = cmds().find(name);
  if( it == cmds().end() ) { PyErr_Format(PyExc_KeyError,"no command %s",name); return 0; }
  DMI::Record::Ref in = toRec(pyrec), out(DMI::ANONWR);
  { NoGIL g; (mqs->*(it->second))(out,in); }
  return fromDMI(*out);
  VT_END
}
// node_command(node,command,args) -> (retcode,result or None)
static PyObject * node_command (PyObject *,PyObject *args)
{
  const char *node,*command; PyObject *pyrec; PyObject *pyrq=0;
  if( !PyArg_ParseTuple(args,"ssO|s",&node,&command,&pyrec,&pyrq) ) return 0;
  VT_TRY
  need();
  DMI::Record::Ref in; if( pyrec != Py_None ) in = toRec(pyrec);
  Result::Ref resref; int rc;
  { NoGIL g; rc = mqs->getForest().findNode(node).processCommand(resref,toHIID(command),in,RequestId(),0); }
  PyObject *res = Py_None;
  if( resref.valid() ) res = fromDMI(*resref); else Py_INCREF(res);
  return Py_BuildValue("(iN)",rc,res);
  VT_END
}
// execute(node,request) -> (retcode,result or None)
static PyObject * execute (PyObject *,PyObject *args)
{
  const char *name; PyObject *pyreq;
  if( !PyArg_ParseTuple(args,"sO",&name,&pyreq) ) return 0;
  VT_TRY
  need();
  ObjRef ref = toDMI(pyreq);
  Request::Ref req; req = ref.ref_cast<Request>();
  Result::Ref resref; int rc;
  { NoGIL g; rc = mqs->getForest().findNode(name).execute(resref,*req,0); }
  PyObject *res = Py_None;
  if( resref.valid() ) res = fromDMI(*resref); else Py_INCREF(res);
  return Py_BuildValue("(iN)",rc,res);
  VT_END
}
static PyObject * get_state (PyObject *,PyObject *args)
{
  const char *name;
  if( !PyArg_ParseTuple(args,"s",&name) ) return 0;
  VT_TRY
  need();
  DMI::Record::Ref rec = mqs->getForest().findNode(name).syncState();
  return fromDMI(*rec);
  VT_END
}
static PyObject * set_state (PyObject *,PyObject *args)
{
  const char *name; PyObject *pyrec;
  if( !PyArg_ParseTuple(args,"sO",&name,&pyrec) ) return 0;
  VT_TRY
  need();
  DMI::Record::Ref in = toRec(pyrec);
  mqs->getForest().findNode(name).setState(in);
  VT_END
  Py_RETURN_NONE;
}
static PyObject * clear_cache (PyObject *,PyObject *args)
{
  const char *name; int recursive=0;
  if( !PyArg_ParseTuple(args,"s|i",&name,&recursive) ) return 0;
  VT_TRY
  need();
  NoGIL g;
  static long marker = 1;
  mqs->getForest().findNode(name).clearCache(recursive,marker++);
  VT_END
  Py_RETURN_NONE;
}
static PyObject * clear_forest (PyObject *,PyObject *)
{
  VT_TRY
  need();
  {
    NoGIL g;
    DMI::Record::Ref in(DMI::ANONWR),out(DMI::ANONWR);
    mqs->clearForest(out,in);
  }
  std::lock_guard<std::mutex> l(srcmx); sources.clear(); trace.clear();
  VT_END
  Py_RETURN_NONE;
}
// set_source(name,[results],retcode,sleep_us,throws)
static PyObject * set_source (PyObject *,PyObject *args)
{
  const char *name; PyObject *lst; int rc=0,us=0,thr=0;
  if( !PyArg_ParseTuple(args,"sO|iii",&name,&lst,&rc,&us,&thr) ) return 0;
  VT_TRY
  need();
  Source s; s.retcode = rc; s.sleep_us = us; s.throws = thr;
  int n = PySequence_Length(lst);
  for( int i=0; i<n; i++ )
  {
    OctoPython::PyObjectRef item = PySequence_GetItem(lst,i);
    ObjRef ref = toDMI(*item);
    Result::Ref r; r = ref.ref_cast<Result>();
    s.res.push_back(r);
  }
  std::lock_guard<std::mutex> l(srcmx);
  sources[name] = s;
  VT_END
  Py_RETURN_NONE;
}
// source_info(name) -> (count,[rqid strings])
static PyObject * source_info (PyObject *,PyObject *args)
{
  const char *name;
  if( !PyArg_ParseTuple(args,"s",&name) ) return 0;
  std::lock_guard<std::mutex> l(srcmx);
  Source &s = sources[name];
  PyObject *lst = PyList_New(0);
  for( size_t i=0; i<s.rqids.size(); i++ )
  { PyObject *o = PyUnicode_FromString(s.rqids[i].toString('.').c_str()); PyList_Append(lst,o); Py_DECREF(o); }
  return Py_BuildValue("(iN)",s.count,lst);
}
static PyObject * get_trace (PyObject *,PyObject *)
{
  std::lock_guard<std::mutex> l(srcmx);
  PyObject *lst = PyList_New(0);
  for( size_t i=0; i<trace.size(); i++ )
  { PyObject *o = PyUnicode_FromString(trace[i].c_str()); PyList_Append(lst,o); Py_DECREF(o); }
  trace.clear();
  return lst;
}
static PyObject * events (PyObject *,PyObject *args)
{
  int keep=-1;
  if( !PyArg_ParseTuple(args,"|i",&keep) ) return 0;
  VT_TRY
  need();
  std::vector<std::pair<HIID,ObjRef> > ev;
  { std::lock_guard<std::mutex> l(chan->mx); ev.swap(chan->events); if( keep>=0 ) chan->keep = keep; }
  PyObject *lst = PyList_New(0);
  for( size_t i=0; i<ev.size(); i++ )
  {
    PyObject *p = Py_None;
    if( ev[i].second.valid() ) p = fromDMI(*ev[i].second); else Py_INCREF(p);
    PyObject *o = Py_BuildValue("(sN)",ev[i].first.toString('.').c_str(),p);
    PyList_Append(lst,o); Py_DECREF(o);
  }
  return lst;
  VT_END
}
static PyObject * forest_info (PyObject *,PyObject *)
{
  VT_TRY
  need();
  return Py_BuildValue("(ii)",mqs->getForest().maxNodeIndex(),mqs->getForest().numInitErrors());
  VT_END
}
static PyObject * forest_valid (PyObject *,PyObject *args)
{
  int i;
  if( !PyArg_ParseTuple(args,"i",&i) ) return 0;
  VT_TRY
  need();
  return PyBool_FromLong(mqs->getForest().valid(i));
  VT_END
}
static PyObject * forest_get (PyObject *,PyObject *args)
{
  int i;
  if( !PyArg_ParseTuple(args,"i",&i) ) return 0;
  VT_TRY
  need();
  NodeFace &n = mqs->getForest().get(i);
  return Py_BuildValue("(si)",n.name().c_str(),n.nodeIndex());
  VT_END
}
static PyMethodDef methods[] = {
  {"init",init,METH_VARARGS,""}, {"cmd",cmd,METH_VARARGS,""}, {"node_command",node_command,METH_VARARGS,""},
  {"execute",execute,METH_VARARGS,""}, {"get_state",get_state,METH_VARARGS,""}, {"set_state",set_state,METH_VARARGS,""},
  {"clear_cache",clear_cache,METH_VARARGS,""}, {"clear_forest",clear_forest,METH_NOARGS,""},
  {"set_source",set_source,METH_VARARGS,""}, {"source_info",source_info,METH_VARARGS,""},
  {"get_trace",get_trace,METH_NOARGS,""}, {"events",events,METH_VARARGS,""},
  {"forest_info",forest_info,METH_NOARGS,""}, {"forest_valid",forest_valid,METH_VARARGS,""},
  {"forest_get",forest_get,METH_VARARGS,""},
  {0,0,0,0} };
static Methods reg(methods);
}
