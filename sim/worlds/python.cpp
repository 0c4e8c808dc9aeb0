// World C17: a Python program and a C++ program send the same calls to the same arm, over a faulty simulated disk.
// The module is the real generated binding code compiled against a stand-in for pybind11 (sim/pystub).
#include "bench.h"
#include "../core/pyapi.h"
#include "../core/simdisk.h"
#include <algorithm>
#include <set>
#include <filesystem>
namespace fs=std::filesystem;
namespace sim {
static const char*const KINPAR[4]={"DHtable","world2L0","Ln2EE","gravity"};
struct PyWorld: World {
  Plan generate(uint64_t seed,int idx)override{
    Rng r(mix64(seed)^mix64(idx*1013+5)^hashStr("C17")); Plan p; p.world="C17"; p.knob["arm"]=(long)r.below(std::max(1,g_farmN)); p.knob["seed"]=idx; auto S=[&]{ return r.next()>>1; }; int ni=r.range(1,3); p.knob["instances"]=ni; bool faults=r.chance(0.6); int n=r.range(8,40); bool conf=r.chance(0.8);
    for(int i=0;i<ni&&conf;i++) p.ops.push_back({"load_conf",i,0,0,S()});
    for(int i=0;i<n;i++){ long a=r.below(ni); double u=r.uni(); Op o; if(u<0.22) o={"set",a,(long)r.below(12),(long)r.below(10),S()}; else if(u<0.28) o={"args",a,(long)r.below(6),(long)r.below(10),S()}; else if(u<0.42) o={"par",a,(long)r.below(11),(long)r.below(10),S()}; else if(u<0.75) o={"ask",a,(long)r.range(1,6),0,S()}; else if(u<0.79) o={"sizes",a,0,0,S()}; else if(u<0.8) o={"resizeVariables",a,0,0,S()}; else if(u<0.82) o={"new",a,0,0,S()}; else if(u<0.9){ o={r.chance(0.5)?"load_conf":"load_par_REG",a,(long)r.below(6),faults?(long)r.below(6):0,S()}; } else { static const char*sv[3]={"save_par_REG","save_par_DYN","save_par"}; o={sv[r.below(3)],a,(long)r.below(2),faults?(long)r.below(7):0,S()}; } p.ops.push_back(o); }
    p.ops.push_back({"askall",(long)r.below(ni),0,0,S()}); return p; }
  struct Pair { PyApi*py=nullptr,*cx=nullptr; std::string why; };
  static Pair& protos(long id){ static std::map<long,Pair> m; auto it=m.find(id); if(it!=m.end()) return it->second; Pair&p=m[id]; auto&e=armEntry(true,id);
    void*h=dlopen((g_farmDir+"/pyarms.so").c_str(),RTLD_NOW|RTLD_LOCAL); if(!h) throw Infra{std::string("dlopen: ")+dlerror()}; auto f=(PyApi*(*)(std::string&))dlsym(h,("py_new_"+e.arm.name).c_str()); if(!f) throw Infra{"no py_new"}; p.py=f(p.why);
    void*g=dlopen((g_farmDir+"/arms.so").c_str(),RTLD_NOW|RTLD_LOCAL); auto d=g?(PyApi*(*)())dlsym(g,("direct_new_"+e.arm.name).c_str()):nullptr; if(!d) throw Infra{"no direct_new"}; p.cx=d(); return p; }
  void prepare(const Plan&p)override{ protos(p.kn("arm")); }
  struct Out { bool thrown=false; std::string err,text; PV v; std::string file; bool hasFile=false; };
  struct Actor { std::unique_ptr<PyApi> py,cx; };
  static Out one(PyApi&x,const std::string&n,const PVs&a,const PKw&k){ Out o; Quiet q; try{ o.v=x.call(n,a,k); } catch(std::exception&e){ o.thrown=true; o.err=e.what(); } o.text=q.text(); return o; }
  static std::string show(const PV&v){ switch(v.k){ case PV::none: return "None"; case PV::boolean: return v.i?"True":"False"; case PV::integer: return std::to_string(v.i); case PV::real: return fmt("%.17g",v.d); case PV::str: return v.s; default: return mstr(v.m); } }
  static std::string show(const Out&o){ return o.thrown?"raises "+o.err:"returns "+show(o.v)+(o.text.empty()?"":" and prints "+o.text); }
  static bool same(const PV&x,const PV&y){ if(x.k!=y.k) return false; if(x.k==PV::arr){ if(x.m.rows()!=y.m.rows()||x.m.cols()!=y.m.cols()) return false; for(int i=0;i<x.m.size();i++){ double a=x.m.data()[i],b=y.m.data()[i]; if(std::isnan(a)&&std::isnan(b)) continue; if(memcmp(&a,&b,8)) return false; } return true; } return x.i==y.i&&x.s==y.s&&(x.k!=PV::real||!memcmp(&x.d,&y.d,8)); }
  static void dig(Ctx&c,const PV&v){ c.dig.u(v.k); c.dig.u(v.i); c.dig.s(v.s); for(int i=0;i<v.m.size();i++) c.dig.d(v.m.data()[i]); }
  static std::string argstr(const PVs&a,const PKw&k){ std::string s; for(auto&x:a) s+=(s.empty()?"":", ")+show(x); for(auto&x:k) s+=(s.empty()?"":", ")+x.first+"="+show(x.second); return s; }
  void compare(Ctx&c,const std::string&n,const PVs&a,const PKw&k,const Out&p,const Out&x){ c.hit("assertions"); dig(c,p.v); c.hit("calls"); std::string what="Python "+n+"("+argstr(a,k).substr(0,300)+") "; if(p.thrown!=x.thrown) fail("raises:"+Bench::cls(n),what+show(p)+", the class "+show(x)); if(!p.thrown&&!same(p.v,x.v)) fail("result:"+Bench::cls(n),what+show(p)+", the class "+show(x)); if(p.text!=x.text) fail("output:"+Bench::cls(n),what+"prints \""+p.text+"\", the class \""+x.text+"\""); if(p.hasFile&&p.file!=x.file) fail("file:"+Bench::cls(n),what+"stores "+p.file.substr(0,400)+", the class "+x.file.substr(0,400)); }
  void both(Ctx&c,Actor&t,const std::string&n,const PVs&a={},const PKw&k={}){ Out p=one(*t.py,n,a,k),x=one(*t.cx,n,a,k); compare(c,n,a,k,p,x); }
  void states(Ctx&c,Actor&t,const std::string&after){ for(auto g:{"DYN","REG","K","D","Dm","Mm","Dl","DHtable","world2L0","Ln2EE","gravity"}){ std::string n=std::string("get_par_")+g; Out p=one(*t.py,n,{},{}),x=one(*t.cx,n,{},{}); c.hit("assertions"); if(p.thrown||x.thrown||!same(p.v,x.v)) fail("state:"+n,"after "+after+": Python "+n+" "+show(p)+", the class "+show(x)); } }
  static Vec rnd(int n,Rng&r){ Vec v(n); for(int i=0;i<n;i++) v[i]=r.uni(-3,3); return v; }
  static int badSize(int n,Rng&r){ int k=r.chance(0.4)?n-1:(r.chance(0.4)?n+1:0); if(k<0||k==n) k=n+1; return k; }
  static int parSize(const Arm&a,int i){ static const int g[11]={G_DYN,G_DYN,G_K,G_D,G_DM,G_MM,G_DL,G_DH,G_BASE,G_EE,G_GRAV}; return i<7?a.full(g[i]):a.nsym(g[i]); }
  void disk(Ctx&c,Actor&t,const Op&o,Rng&r,const std::string&n,const std::string&f,const PVs&a,const PKw&k,bool load){
    DiskCfg d; d.roots={c.dir}; d.seed=r.next(); switch(o.c){ case 0: break; case 1: d.pShort=0.6; d.pEintr=0.4; break; case 2: d.failCls=load?DO_OPENR:DO_OPENW; d.failNth=0; break; case 3: d.failCls=load?DO_READ:DO_WRITE; d.failNth=r.below(3); break; case 4: d.failCls=load?DO_READ:DO_CLOSE; d.failNth=0; break; case 5: if(load){ d.failCls=DO_READ; d.failNth=r.below(2); d.sticky=true; } else d.budget=r.below(2500); break; default: d.failCls=DO_WRITE; d.failNth=0; d.sticky=true; } d.failSel=r.below(1000);
    bool had=fs::exists(f); std::string old=had?readFile(f):""; Out res[2]; DiskShared*sh=newShared(); uint64_t h[2];
    for(int i=0;i<2;i++){ memset(sh,0,sizeof*sh); diskStart(d,sh); res[i]=one(i?*t.cx:*t.py,n,a,k); diskStop(); h[i]=sh->hash; if(!i) for(int q=0;q<FK_NK;q++) if(sh->kinds[q]) c.hit(std::string("fault.")+faultKind[q],sh->kinds[q]); if(!load){ res[i].hasFile=true; res[i].file=fs::exists(f)?"+"+readFile(f):"no file"; if(!i){ if(had) writeFile(f,old); else fs::remove(f); } } }
    freeShared(sh); c.dig.u(h[0]); compare(c,n,a,k,res[0],res[1]); c.hit(load?"loads":"saves"); }
  void run(const Plan&p,Ctx&c)override{
    Pair&pr=protos(p.kn("arm")); ArmEntry&e=armEntry(true,p.kn("arm")); const Arm&A=e.arm; if(!pr.py) fail("import","importing the Python module of "+A.name+" failed: "+pr.why);
    // everything is there
    std::vector<std::string> q=pr.cx->names(),need=q; for(auto&f:functionsOf(A)) need.push_back("get_"+f.name); for(int v=0;v<12;v++) need.push_back(std::string("set_")+ST[v]); for(auto x:{"DYN","REG","K","D","Dm","Mm","Dl","DHtable","gravity","world2L0","Ln2EE"}){ need.push_back(std::string("set_par_")+x); need.push_back(std::string("get_par_")+x); } for(auto x:{"setArguments","load_conf","load_par_REG","save_par_REG","save_par_DYN","save_par","get_numJoints","get_numParDYN","get_numParREG","resizeVariables"}) need.push_back(x);
    for(auto&n:need){ c.hit("assertions"); if(!pr.py->overloads(n)) fail("missing:"+Bench::cls(n),n+" is not available in the Python module of "+A.name); }
    int ni=p.kn("instances"); std::vector<Actor> t(ni); auto born=[&](Actor&x){ x.py.reset(pr.py->fresh()); x.cx.reset(pr.cx->fresh()); }; for(auto&x:t) born(x);
    std::set<std::string> asked; std::string sf=c.dir+"/saved.yaml",lf=c.dir+"/load.yaml";
    for(auto&o:p.ops){ Actor&x=t[o.a%ni]; Rng r(o.s); c.ev(o.str()); c.hit("ops"); c.cnt["sim_us"]+=1000; bool bad=o.c==9;
      if(o.k=="set"){ int n=stSize(A,o.b); if(bad){ n=badSize(n,r); c.hit("fault.malformed"); } Vec v=rnd(n,r); std::string nm=ST[o.b]; if(o.c%3==1) both(c,x,"set_"+nm,{},{{nm,PV(v)}}); else both(c,x,"set_"+nm,{PV(v)}); }
      else if(o.k=="args"){ Vec v[4]; for(auto&y:v) y=rnd(A.nj,r); if(bad){ int w=r.below(4); v[w]=rnd(badSize(A.nj,r),r); c.hit("fault.malformed"); } static const char*nm[4]={"q","dq","dqr","ddqr"}; int np=o.b>4?4:o.b; PVs a; PKw k; for(int i=0;i<4;i++) if(i<np) a.push_back(PV(v[i])); else k[nm[i]]=PV(v[i]); both(c,x,"setArguments",a,k); }
      else if(o.k=="par"){ static const char*nm[11]={"DYN","REG","K","D","Dm","Mm","Dl","DHtable","world2L0","Ln2EE","gravity"}; int i=o.b; int n=parSize(A,i); if(bad){ n=badSize(n,r); c.hit("fault.malformed"); } Vec v=rnd(n,r); if(i<2&&n==10*A.nj&&r.chance(0.7)){ for(int l=0;l<A.nj;l++) physicalInertia(r,v.data()+10*l); if(i==1) v=Bench::regOf(std::vector<double>(v.data(),v.data()+n)); } std::string fn=std::string("set_par_")+nm[i]; PVs a; PKw k; PV pv(v); if(i==7&&n>1&&r.chance(0.2)){ int d; do d=r.range(2,n); while(n%d); pv=PV(Mat(Eigen::Map<Mat>(v.data(),n/d,d))); c.hit("fault.malformed"); } if(o.c%4==1) k["par"]=pv; else a.push_back(pv); if(i<2){ std::string fl=i?"update_DYN":"update_REG"; int w=r.below(5); if(w==1||w==2){ if(a.empty()) k[fl]=PV(w==1); else a.push_back(PV(w==1)); } else if(w==3||w==4) k[fl]=PV(w==3); } both(c,x,fn,a,k); states(c,x,fn); c.hit("param_updates"); }
      else if(o.k=="ask"){ for(int i=0;i<o.b;i++){ auto&n=q[r.below(q.size())]; both(c,x,n); asked.insert(n); } }
      else if(o.k=="askall"){ for(auto&n:q) both(c,x,n); states(c,x,"the last call"); }
      else if(o.k=="sizes"){ for(auto n:{"get_numJoints","get_numParDYN","get_numParREG"}) both(c,x,n); }
      else if(o.k=="resizeVariables"){ both(c,x,"resizeVariables"); states(c,x,"resizeVariables"); }
      else if(o.k=="new") { born(x); states(c,x,"construction"); c.hit("fault.restart"); }
      else if(o.k=="load_conf"||o.k=="load_par_REG"){ bool cf=o.k=="load_conf"; std::string s=readFile(cf?e.confFile:e.regFile),f=lf; if(o.b==4){ f=c.dir+"/missing.yaml"; c.hit("fault.missing_file"); } else if(o.b==5){ s=s.substr(0,r.below(s.size())); c.hit("fault.cut_file"); } else if(o.b==3){ s=readFile(cf?e.regFile:e.confFile); c.hit("fault.other_file"); } writeFile(lf,s); std::string fl=cf?"update_REG":"update_DYN"; PVs a; PKw k; if(r.chance(0.3)) k["file_path"]=PV(f); else a.push_back(PV(f)); int w=r.below(5); if(w==1||w==2){ if(a.empty()) k[fl]=PV(w==1); else a.push_back(PV(w==1)); } else if(w==3||w==4) k[fl]=PV(w==3); disk(c,x,o,r,o.k,f,a,k,true); states(c,x,o.k); }
      else { PVs a; PKw k; if(o.b) k["file_path"]=PV(sf); else a.push_back(PV(sf)); disk(c,x,o,r,o.k,sf,a,k,false); states(c,x,o.k); }
      if(r.chance(0.3)) for(int i=0;i<ni;i++) if(i!=o.a%ni) states(c,t[i],"a call to another object"); }
    c.hit("functions_asked",asked.size()); c.cnt["nontrivial"]=1; }
};
World* makePython(const std::string&){ return new PyWorld(); }
}
