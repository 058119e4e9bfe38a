// Small helpers to run nodes in-process on given child results.
#include <MEQ/Forest.h>
#include <MEQ/Node.h>
#include <MEQ/Request.h>
#include <MEQ/Result.h>
#include <MEQ/VellSet.h>
#include <MEQ/Vells.h>
#include <MEQ/Cells.h>
#include <MEQ/Domain.h>
#include <MEQ/Axis.h>
#include <MEQ/MeqVocabulary.h>
#include <MEQ/AID-Meq.h>
#include <MEQ/TID-Meq.h>
#include <MeqNodes/TID-MeqNodes.h>
#include <DMI/Record.h>
#include <DMI/Vec.h>
#include <DMI/List.h>
#include <DMI/NumArray.h>
#include <DMI/BlockSet.h>
#include <DMI/TypeInfo.h>
#include <DMI/DynamicTypeManager.h>
#include <cstdio>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace DMI; using namespace Meq; using std::string; using std::vector;

static int aidRegistry = aidRegistry_Meq() + aidRegistry_MeqNodes();
static int nfail = 0;
#define CHECK(cond) do { if( !(cond) ) { nfail++; printf("line %d: not true: %s\n",__LINE__,#cond); } } while(0)
static inline bool same (double a,double b) { return std::fabs(a-b) <= 1e-9*(1+std::fabs(b)); }
static inline bool same (dcomplex a,dcomplex b) { return std::abs(a-b) <= 1e-9*(1+std::abs(b)); }

static std::map<string,Result::Ref> sources;
static std::map<string,int> evals;
class SrcNode : public Meq::Node
{
  public:
    SrcNode () : Node(-1) {}
    virtual TypeId objectType () const { return TypeId(-9002); }
  protected:
    virtual int getResult (Result::Ref &res,const vector<Result::Ref> &,const Request &,bool)
    { evals[name()]++; if( sources.count(name()) ) res.copy(sources[name()],DMI::DEEP); else res <<= new Result(0); return 0; }
};
static DMI::BObj * new_src (int n) { return n>0 ? new SrcNode[n] : new SrcNode; }
static Forest forest;
static void start ()
{
  AtomicID::registerId(-9002,"DemoSrc");
  TypeInfoReg::addToRegistry(-9002,TypeInfo(TypeInfo::DYNAMIC,0));
  DynamicTypeManager::addToRegistry(-9002,new_src);
}
// makes an (uninitialised) node; call forest.initAll() when all are made
static void node (const string &name,const string &cls,const vector<string> &children = {},DMI::Record::Ref rec = DMI::Record::Ref(DMI::ANONWR))
{
  rec()[AidClass] = cls; rec()[AidName] = name;
  if( !children.empty() )
  {
    DMI::Vec *v = new DMI::Vec(Tpint,children.size()); ObjRef r(v,DMI::ANONWR); rec().add(AidChildren,r);
    for( uint i=0; i<children.size(); i++ ) (*v)[i] = children[i].empty() ? -1 : forest.findIndex(children[i]);
  }
  int ni = -1; forest.create(ni,rec);
}
static void src (const string &name,const Result::Ref &res) { node(name,"DemoSrc"); sources[name] = res; }
static Cells::Ref cells (int nt,int nf,double t0=0,double t1=1,double f0=0,double f1=1)
{
  Domain::Ref dom; dom <<= new Domain(t0,t1,f0,f1);
  Cells::Ref c; c <<= new Cells(*dom,nt,nf); return c;
}
static Request::Ref request (const Cells::Ref &c,int id=1)
{
  Request::Ref rq; HIID rqid(3); rqid[0] = RequestType::EVAL; rqid[1] = id; rqid[2] = id; rq <<= new Request(*c,rqid); return rq;
}
static Vells::Ref vells (const vector<double> &v,int n0=1,int n1=0,int n2=0)
{
  LoShape s = n2 ? LoShape(n0,n1,n2) : n1 ? LoShape(n0,n1) : LoShape(n0);
  Vells::Ref r; r <<= new Vells(0.,s,false);
  double *p = r().realStorage(); for( uint i=0; i<v.size(); i++ ) p[i] = v[i];
  return r;
}
static VellSet::Ref vellset (const vector<double> &v,int n0=1,int n1=0,int n2=0)
{ VellSet::Ref vs; vs <<= new VellSet; vs().setValue(vells(v,n0,n1,n2)); return vs; }
static int execute (Result::Ref &res,const string &name,const Request::Ref &rq)
{ return forest.findNode(name).execute(res,*rq,0); }
static vector<double> reals (const Vells &v)
{ return vector<double>(v.realStorage(),v.realStorage()+v.nelements()); }
static void demo ();
int main ()
{
  setvbuf(stdout,0,_IONBF,0); start();
  try { demo(); }
  catch( std::exception &e ) { printf("exception: %s\n",exceptionToString(e).c_str()); return 3; }
  printf("%d failed\n",nfail);
  fflush(stdout); _exit(nfail ? 1 : 0);
}
