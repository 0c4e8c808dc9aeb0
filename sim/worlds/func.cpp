// World C16: histories of functions added to an arm (while its model is computed and afterwards), replaced, refused, failing,
// queried and exported; against a symbolic-free evaluation of the same formulas.
#include "bench.h"
#include "func.h"
#include "../core/cli.h"
#include "robot.h"
#include "utils.h"
#include "userDefined.h"
#include <filesystem>
#include <functional>
namespace fs=std::filesystem;
namespace thunder_ns { int compute_userDefined_orig(Robot&); }
namespace sim {
using thunder_ns::Robot; typedef casadi::SX SX;
static std::function<void(Robot&)> userHook;
thunder_ns::Robot& robotOf(VRobot*);
namespace {
enum LK { L_STATE,L_PAR,L_REG,L_FUN,L_ONE };
struct Fn; typedef std::shared_ptr<Fn> FnP;
struct Leaf { LK k=L_ONE; int v=0,i=0,j=0; std::string name; FnP fn; };
struct Term { double c; int op; Leaf x,y; };
struct Fn { std::string name,descr; int r=1,c=1; std::vector<std::vector<Term>> e; std::vector<std::string> args; };
struct Cat { std::string name; int r,c; std::vector<std::string> args; };
std::vector<Cat> catalog(Robot&r){ std::vector<Cat> o; for(auto&f:r.get_functions()) o.push_back({f.name,f.out_size[0],f.out_size[1],f.args}); return o; }
const char*const POOL[]={"dist","energy","q_err","tau_user","f1","F_2","cost","manip_index","y","robot_fun"}; const int NPOOL=10;
SX leafSX(const Leaf&l,Robot&r,const Arm&a,bool packed){ switch(l.k){ case L_STATE: return r.model.at(ST[l.v])(l.i); case L_REG: return r.model.at("par_REG")(l.i); case L_FUN: return r.model.at(l.name)(l.i,l.j);
    case L_PAR: { if(!packed) return r.model.at(grpName(l.v))(l.i); if(!a.symb[l.v][l.i]) return SX(a.val[l.v][l.i]); int k=0; for(int q=0;q<l.i;q++) k+=a.symb[l.v][q]; return r.model.at(grpName(l.v))(k); } default: return SX(1); } }
template<class T> T comb(int op,const T&x,const T&y){ using std::sin; using std::cos; switch(op){ case 0: return x; case 1: return x*y; case 2: return x/(1+y*y); case 3: return x/(1+y*y)+y/(2+x*x); case 4: return x*x-y; default: return sin(x/(1+x*x))+cos(y/(1+y*y)); } }
SX exprOf(const Fn&f,Robot&r,const Arm&a,bool packed,bool sparse){ SX m=sparse?SX(f.r,f.c):SX::zeros(f.r,f.c); for(int j=0;j<f.c;j++) for(int i=0;i<f.r;i++){ auto&t=f.e[j*f.r+i]; if(t.empty()) continue; SX s=0; for(auto&x:t) s+=x.c*comb<SX>(x.op,leafSX(x.x,r,a,packed),leafSX(x.y,r,a,packed)); m(i,j)=s; } return m; }
// the functions a robot has been given, and what they should answer
struct Book { const Arm&a; std::map<std::string,FnP> cur; Book(const Arm&a_):a(a_){}
  Leaf leaf(Rng&r,const std::vector<Cat>&cat,std::set<std::string>&args){ Leaf l; double u=r.uni(); if(u<0.35){ do l.v=r.below(12); while(stSize(a,l.v)==0||(l.v>=7&&l.v<11&&!a.elastic)); l.k=L_STATE; l.i=r.below(stSize(a,l.v)); args.insert(ST[l.v]); return l; }
    if(u<0.65){ l.k=L_PAR; do l.v=r.below(NGRP); while(a.full(l.v)==0); l.i=r.below(a.full(l.v)); args.insert(grpName(l.v)); return l; } if(u<0.72){ l.k=L_REG; l.i=r.below(10*a.nj); args.insert("par_REG"); return l; } if(u<0.77) return l;
    const Cat&q=r.pick(cat); l.k=L_FUN; l.name=q.name; l.i=r.below(q.r); l.j=r.below(q.c); auto it=cur.find(q.name); if(it!=cur.end()) l.fn=it->second; for(auto&x:q.args) args.insert(x); return l; }
  FnP make(uint64_t seed,Robot&rob,const std::string&name){ Rng r(seed); auto cat=catalog(rob); FnP f(new Fn); f->name=name; static const char*D[]={"","distance from the goal","user function: a*b + c / d","line one\nline two","100% \"quoted\" \\ text","tabs\tand // slashes /* too */","ends with a backslash \\"}; f->descr=D[r.below(7)]; f->r=r.pick(std::vector<int>{1,1,1,2,3,4,6}); f->c=r.pick(std::vector<int>{1,1,1,1,2,3,5}); std::set<std::string> args; bool sp=r.chance(0.3); for(int k=0;k<f->r*f->c;k++){ std::vector<Term> t; int n=sp&&r.chance(0.5)?0:r.range(1,3); for(int i=0;i<n;i++){ Term x; x.c=r.uni(-2,2); x.op=r.below(6); x.x=leaf(r,cat,args); x.y=leaf(r,cat,args); t.push_back(x); } f->e.push_back(t); }
    if(r.chance(0.15)) args.insert(ST[r.below(7)]); f->args.assign(args.begin(),args.end()); for(int i=(int)f->args.size()-1;i>0;i--) std::swap(f->args[i],f->args[r.below(i+1)]); return f; }
};
struct Eval { Bench&sh; const Arm&a; Eff&eff; std::map<std::string,Mat> memo; Vec reg; bool bad=false; Eval(Bench&s):sh(s),a(s.a),eff(s.eff){ reg=sh.m->getPar("par_REG"); }
  double leaf(const Leaf&l){ switch(l.k){ case L_STATE: return sh.acc.by(ST[l.v])[l.i]; case L_PAR: return eff.v[l.v][l.i]; case L_REG: return reg[l.i]; case L_ONE: return 1; case L_FUN: { if(l.fn) return entry(*l.fn,l.i,l.j); auto it=memo.find(l.name); if(it==memo.end()){ Quiet q; it=memo.emplace(l.name,sh.m->get(l.name)).first; } return it->second(l.i,l.j); } } return 0; }
  double entry(const Fn&f,int i,int j){ double s=0; for(auto&x:f.e[j*f.r+i]) s+=x.c*comb<double>(x.op,leaf(x.x),leaf(x.y)); return s; }
  Mat value(const Fn&f){ Mat m(f.r,f.c); for(int j=0;j<f.c;j++) for(int i=0;i<f.r;i++) m(i,j)=entry(f,i,j); return m; } };
bool hasVar(const Arm&a,int v){ return stSize(a,v)>0&&!(v>=7&&v<11&&!a.elastic); }
std::string key(const Op&o){ return POOL[o.a%NPOOL]; }
std::string sig(Robot&r){ std::ostringstream o; for(auto&f:r.get_functions()){ o<<f.name<<" "<<f.out_size[0]<<"x"<<f.out_size[1]<<" "<<f.description<<"("; for(auto&a:f.args) o<<a<<","; o<<")\n"; } return o.str(); }
}
struct FuncWorld: World {
  Plan generate(uint64_t seed,int idx)override{ Rng r(mix64(seed)^mix64(idx*1013+5)^hashStr("C16")); Plan p; p.world="C16"; bool farm=g_farmN>0&&idx%4==3; p.knob["farm"]=farm; p.knob["arm"]=farm?(long)r.below(g_farmN):idx/6; auto S=[&]{ return r.next()>>1; };
    auto state=[&]{ double u=r.uni(); Op o; if(u<0.5) o={"set",0,(long)r.below(12),0,S()}; else if(u<0.85) o={"par",0,(long)r.below(NGRP),0,S()}; else if(u<0.95) o={"reg",0,0,0,S()}; else o={"bad",0,(long)r.below(12),0,S()}; p.ops.push_back(o); };
    if(farm){ int n=r.range(4,14); for(int i=0;i<n;i++){ state(); if(r.chance(0.3)) p.ops.push_back({"ask",0,0,0,S()}); if(r.chance(0.1)) p.ops.push_back({"copy",0,0,0,S()}); } p.ops.push_back({"ask",0,1,0,S()}); return p; }
    int nc=r.range(0,4); double wild=r.chance(0.5)?0.25:0; auto add=[&](const char*k){ p.ops.push_back({k,(long)(r.chance(wild*0.3)?NPOOL*(1+r.below(40)):r.below(NPOOL)),(long)r.below(4),0,S()}); };
    for(int i=0;i<nc;i++) add("addc"); int n=r.range(6,22); for(int i=0;i<n;i++){ double u=r.uni(); if(u<0.25) add("add"); else if(u<0.25+wild*0.6) add("refuse"); else if(u<0.25+wild*1.2) add("broken"); else if(u<0.7) state(); else if(u<0.76) p.ops.push_back({"copy",0,0,0,S()}); else if(u<0.8) p.ops.push_back({"export",0,0,0,S()}); else p.ops.push_back({"ask",0,0,0,S()}); }
    p.ops.push_back({"ask",0,1,0,S()}); return p; }
  void prepare(const Plan&p)override{ armEntry(p.kn("farm"),p.kn("arm")); shadowProto(p.kn("farm"),p.kn("arm")); }
  static VRobot* shadowProto(bool farm,long id){ static std::map<std::pair<bool,long>,std::unique_ptr<VRobot>> m; auto&x=m[{farm,id}]; if(!x){ auto&e=armEntry(farm,id); x.reset(makeInProc(e.arm.name,e.yaml)); } return x.get(); }
  // replaced: the name the operation addresses (also names of built-in functions)
  static std::string nameFor(const Op&o,Robot&r){ if(o.a<NPOOL) return POOL[o.a]; auto c=catalog(r); return c[(o.a/NPOOL)%c.size()].name; }
  static void doAdd(Robot&r,const Op&o,Book&bk,bool packed){ std::string n=nameFor(o,r); FnP f=bk.make(o.s,r,n); bool overwrite=o.b!=3||!r.model.count(n); int rc=-1; SX ex=exprOf(*f,r,bk.a,packed,o.b&1); std::string err; { Quiet q; try{ rc=r.add_function(n,ex,f->args,f->descr,overwrite&&o.b!=3); } catch(std::exception&e){ err=e.what(); } }
    if(!err.empty()) fail("add:failed","adding "+n+" failed: "+err.substr(0,600)); bool expectRefuse=o.b==3&&!overwrite; if(expectRefuse){ if(rc!=0) fail("refuse:accepted","replacing "+n+" without being asked to returned "+std::to_string(rc)); return; } if(rc!=1) fail("add:failed","adding "+n+" returned "+std::to_string(rc)); bk.cur[n]=f; }
  void run(const Plan&p,Ctx&c)override{ bool farm=p.kn("farm"); ArmEntry&ent=armEntry(farm,p.kn("arm")); const Arm&a=ent.arm; Bench sh(c,ent); sh.m.reset(shadowProto(farm,p.kn("arm"))->fresh()); sh.acc.zero(a.nj,a.nej()); sh.eff=effOf(a); Bench b(c,ent); Book bk(a); std::unique_ptr<VRobot> holder; bool nt=false;
    if(farm){ b.boot(); farmFuncs(g_seed,p.kn("arm"),bk,nullptr); c.hit("farm_runs"); }
    else { std::vector<Op> dc; for(auto&o:p.ops) if(o.k=="addc") dc.push_back(o); std::unique_ptr<Violation> v; userHook=[&](Robot&r){ try{ for(auto&o:dc){ c.ev(o.str()); doAdd(r,o,bk,false); c.hit("functions_added_during_computation"); } } catch(Violation&x){ v.reset(new Violation(x)); } }; VRobot*m=nullptr; try{ m=makeInProc(a.name,ent.yaml); } catch(std::exception&e){ userHook=nullptr; fail("construct",std::string("building the arm failed: ")+e.what()); } userHook=nullptr; if(v) throw *v; b.m.reset(m); b.acc.zero(a.nj,a.nej()); b.eff=effOf(a); }
    int exports=0;
    for(auto&o:p.ops){ if(o.k=="addc") continue; Rng r(o.s); c.ev(o.str()); c.cnt["sim_us"]+=1000; c.hit("ops");
      if(o.k=="set"){ if(!hasVar(a,o.b)) continue; int n=stSize(a,o.b); Vec v(n); for(int i=0;i<n;i++) v[i]=r.uni(-3,3); b.setState(o.b,v); sh.setState(o.b,v); sh.acc=stateOf(sh,o.b,v); }
      else if(o.k=="bad"){ if(!hasVar(a,o.b)) continue; Vec v=Vec::Constant(stSize(a,o.b)+1,7); Quiet q; b.m->setState(ST[o.b],v); c.hit("fault.malformed"); }
      else if(o.k=="par"){ if(a.full(o.b)==0) continue; Vec v=b.genPar(o.b,r); if(o.b==G_DYN&&b.gen()) for(int i=0;i<v.size();i++) if(!a.symb[G_DYN][i]) v[i]=a.val[G_DYN][i]; b.setPar(o.b,v); sh.setPar(o.b,v); }
      else if(o.k=="reg"){ Vec d=b.genPar(G_DYN,r); for(int i=0;i<d.size();i++) if(!a.symb[G_DYN][i]) d[i]=a.val[G_DYN][i]; Vec g=Bench::regOf(std::vector<double>(d.data(),d.data()+d.size())); b.setReg(g); sh.setReg(g); }
      else if(o.k=="copy"){ std::unique_ptr<VRobot> k(b.m->clone()); if(r.chance(0.5)) std::swap(k,b.m); else if(!farm&&k){ /* the copy is disturbed; the original must not notice */ Robot&kr=robotOf(k.get()); Book other=bk; Op x{"add",(long)r.below(NPOOL),0,0,r.next()>>1}; doAdd(kr,x,other,true); k->setState("q",Vec::Constant(a.nj,0.3)); } holder=std::move(k); c.hit("copies"); }
      else if(o.k=="ask"){ ask(c,b,sh,bk,r,o.b,farm); nt=true; }
      else if(farm) continue;
      else if(o.k=="add"){ Robot&R=robotOf(b.m.get()); bool was=R.model.count(nameFor(o,R)); doAdd(R,o,bk,true); c.hit(was?"functions_replaced":"functions_added"); }
      else if(o.k=="refuse"){ Robot&R=robotOf(b.m.get()); std::string n; if(r.chance(0.25)) n=r.pick(std::vector<std::string>{"q","par_DYN","w","dq"}); else { auto cat=catalog(R); n=r.pick(cat).name; } FnP f=bk.make(o.s^3,R,n); std::string s0=sig(R); SX ex=exprOf(*f,R,a,true,false); int rc; { Quiet q; rc=R.add_function(n,ex,f->args,f->descr,false); } if(rc!=0) fail("refuse:accepted","replacing "+n+" without being asked to returned "+std::to_string(rc)); if(sig(R)!=s0) fail("refuse:changed","the refused replacement of "+n+" changed the functions of the arm"); c.hit("fault.refused"); }
      else if(o.k=="broken") broken(c,robotOf(b.m.get()),bk,o,r);
      else if(o.k=="export"){ if(exports++) continue; exportLib(c,b,r); nt=true; } }
    c.cnt["nontrivial"]=nt; }
  static JState stateOf(Bench&sh,int v,const Vec&x){ JState s=sh.acc; s.by(ST[v])=x; return s; }
  // a function that needs an input which is not among its arguments cannot be added; nothing may remain of it
  void broken(Ctx&c,Robot&R,Book&bk,const Op&o,Rng&r){ std::string n=nameFor(o,R); FnP f=bk.make(o.s^5,R,n); std::string lost; SX ex=exprOf(*f,R,bk.a,true,false)+R.model.at("ddq")(0); f->args.erase(std::remove(f->args.begin(),f->args.end(),"ddq"),f->args.end()); std::string s0=sig(R); bool had=R.model.count(n); int rc=0; bool threw=false; { Quiet q; try{ rc=R.add_function(n,ex,f->args,f->descr,o.b!=3); } catch(std::exception&){ threw=true; } } c.hit("fault.incomplete_arguments"); if(!threw&&rc==1) fail("broken:accepted","a function that needs ddq was accepted without ddq among its arguments"); if(sig(R)!=s0) fail("broken:changed","the failed addition of "+n+" changed the functions of the arm"); if(!had&&R.model.count(n)) fail("broken:changed","the failed addition of "+n+" left it in the model"); }
  void ask(Ctx&c,Bench&b,Bench&sh,Book&bk,Rng&r,bool all,bool farm){ Eval ev(sh); auto names=b.m->queries(); std::set<std::string> have(names.begin(),names.end()); for(auto&f:bk.cur){ c.hit("assertions"); if(!have.count(f.first)) fail("missing",f.first+" is not among the functions of the arm"); Mat w=ev.value(*f.second),x; { Quiet q; x=b.m->get(f.first); } for(int i=0;i<x.size();i++) c.dig.d(x.data()[i]); c.hit("added_answers"); if(x.rows()!=w.rows()||x.cols()!=w.cols()) fail("shape",f.first+" has wrong shape "+mstr(x)); double e=relErr(x,w); if(!(e<1e-6)) fail("value",f.first+" ("+std::to_string(f.second->args.size())+" inputs) answers "+mstr(x)+", expected "+mstr(w)); }
    int n=0; for(int i=(int)names.size()-1;i>0;i--) std::swap(names[i],names[r.below(i+1)]); for(auto&q:names){ if(bk.cur.count(q)) continue; if(!all&&n++>=5) break; Mat x,y; { Quiet k; x=b.m->get(q); y=sh.m->get(q); } c.hit("builtin_answers"); bool same=x.rows()==y.rows()&&x.cols()==y.cols(); if(same) for(int i=0;i<x.size();i++) if(farm?false:(x.data()[i]!=y.data()[i]&&!(std::isnan(x.data()[i])&&std::isnan(y.data()[i])))) same=false; if(same&&farm&&!(relErr(x,y)<1e-6)) same=false; if(!same) fail("builtin:"+Bench::cls(q),q+" answers "+mstr(x)+", the same arm without added functions answers "+mstr(y)); } if(!farm) for(auto&q:sh.m->queries()) if(!have.count(q)) fail("missing",q+" is not among the functions of the arm any more"); }
  void exportLib(Ctx&c,Bench&b,Rng&r){ if(b.a.nj>2) return; Robot&R=robotOf(b.m.get()); std::string d=c.dir+"/lib/"; fs::create_directories(d); int rc; { Quiet q; rc=R.generate_library(d,b.a.name+"_gen",true); } if(rc!=1) fail("export:failed","generating the library failed"); std::string h=readFile(d+b.a.name+"_gen.h"); for(auto&q:R.get_functions()){ c.hit("assertions"); if(h.find(" "+b.a.name+"_"+q.name+"_fun(")==std::string::npos) fail("export:missing",q.name+" is not declared in the generated library"); casadi::Function f; try{ f=casadi::Function::load(d+q.name+".casadi"); } catch(std::exception&e){ fail("export:missing",q.name+".casadi cannot be loaded"); } std::vector<casadi::DM> in; for(auto&x:q.args){ Vec v=R.get_arg(x); in.push_back(casadi::DM(std::vector<double>(v.data(),v.data()+v.size()))); } std::vector<casadi::DM> out; try{ out=f(in); } catch(std::exception&e){ fail("export:value",q.name+".casadi cannot be evaluated: "+std::string(e.what()).substr(0,300)); } Mat x; { Quiet k; x=R.get(q.name); } casadi::DM D=casadi::DM::densify(out.at(0)); if((int)D.size1()!=x.rows()||(int)D.size2()!=x.cols()) fail("export:value",q.name+": wrong shape in the library"); Mat y(x.rows(),x.cols()); for(int i=0;i<y.size();i++) y.data()[i]=D.nonzeros()[i]; if(!(relErr(y,x)<1e-9)&&!x.hasNaN()) fail("export:value",q.name+" answers "+mstr(y)+" in the library and "+mstr(x)+" in the arm"); c.hit("exported_functions"); } std::error_code ec; fs::remove_all(d,ec); }
  // the functions of a farm arm: fixed by (seed, arm).  r: the robot being generated, or null to rebuild the list in memory
  static void farmFuncs(uint64_t seed,long i,Book&bk,Robot*dummy){ (void)dummy; VRobot*m=nullptr; userHook=[&](Robot&r){ during(seed,i,bk,r); }; auto&e=armEntry(true,i); m=makeInProc(e.arm.name,e.yaml); userHook=nullptr; std::unique_ptr<VRobot> own(m); if(i%2) after(seed,i,bk,robotOf(m)); }
  static void during(uint64_t seed,long i,Book&bk,Robot&r){ Rng g(mix64(seed)^hashStr("farmfuncs")^mix64(i+3)); int n=g.range(2,4); if(i%2) n=1; for(int k=0;k<n;k++) doAdd(r,Op{"addc",(long)((i+k*3)%NPOOL),(long)g.below(3),0,g.next()>>1},bk,false); if(i%3==1) doAdd(r,Op{"addc",(long)NPOOL*(1+g.below(20)),1,0,g.next()>>1},bk,false); }
  static void after(uint64_t seed,long i,Book&bk,Robot&r){ Rng g(mix64(seed)^hashStr("farmafter")^mix64(i+3)); int n=g.range(2,4); for(int k=0;k<n;k++) doAdd(r,Op{"add",(long)((i+5+k*3)%NPOOL),(long)g.below(3),0,g.next()>>1},bk,true); doAdd(r,Op{"add",(long)((i+5)%NPOOL),0,0,g.next()>>1},bk,true); }
};
World* makeFuncWorld(const std::string&){ return new FuncWorld(); }
// generation of farm arm i in the current directory: even arms through the real command line, odd ones through the library's own API
// py: always through the command line, odd arms with added functions; 2: with Python bindings
int funcGenerate(long i,int py){ Arm a=farmArm(g_profile,g_seed,i); Book bk(a); if(!py||i%2) userHook=[&](Robot&r){ FuncWorld::during(g_seed,i,bk,r); };
  if(i%2==0||py){ CliJob j; j.args={"gen","-n",a.name}; if(py==2) j.args.push_back("-p"); j.args.push_back(a.name+".yaml"); j.cwd=fs::current_path(); CliRun r=cliRun(j,g_scratch+"/out"); std::cout<<r.out; if(r.signaled) std::cout<<r.how()<<"\n"; return 0; }
  Robot robot=thunder_ns::robot_from_file(a.name,a.name+".yaml",1); userHook=nullptr; FuncWorld::after(g_seed,i,bk,robot); std::string d=fs::current_path().string()+"/"+a.name+"_generatedFiles/"; fs::create_directory(d); if(!robot.generate_library(d,a.name+"_gen",false)) return 1; std::string h=d+"thunder_"+a.name+".h",s=d+"thunder_"+a.name+".cpp"; extern std::string g_template; fs::copy_file(g_template+"/thunder_robot.h",h); fs::copy_file(g_template+"/thunder_robot.cpp",s); if(!thunder_ns::change_to_robot("robot",a.name,robot,h,s,false)) return 1; if(!robot.save_conf(d+a.name+"_conf.yaml")||!robot.save_par_REG(d+a.name+"_par_REG.yaml")) return 1; std::cout<<"Library generated!\n"; return 0; }
}
// seam: the user's own functions, which are compiled into the library in src/userDefined.cpp
namespace thunder_ns { int compute_userDefined(Robot&r){ int k=compute_userDefined_orig(r); if(sim::userHook) sim::userHook(r); return k; } }
