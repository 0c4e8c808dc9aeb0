// Worlds C12-C14: the real command line generator in forked children under the simulated disk, clock and scheduler.
#include "bench.h"
#include "../core/cli.h"
#include "robot.h"
#include <casadi/casadi.hpp>
#include <yaml-cpp/yaml.h>
#include <filesystem>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
#include <set>
#include <signal.h>
namespace fs=std::filesystem;
namespace sim {
extern std::string g_template;
typedef std::map<std::string,std::string> Tree;   // relative path -> content
namespace {
enum { O_NAME=1,O_PY=2,O_CAS=4,O_COPY=8 };
struct Job { long arm=0; int name=0,bits=0,layout=0; bool operator<(const Job&o)const{ return std::tie(arm,name,bits,layout)<std::tie(o.arm,o.name,o.bits,o.layout); } };
const char*const NM[]={"alpha","my_robot","r","robot","Arm_7","thunder_x","robots2","frankaFR3","b"}; const int NNM=9;
std::string jobName(const Job&j){ return NM[j.name%NNM]; }
Arm jobArm(long id){ Rng r(mix64(g_seed)^hashStr("genworld")^mix64(id+3)); ArmOpt o; o.njMin=1; o.njMax=id%5==4?2:1; if(id%17==9) o.njMin=o.njMax=3; if(id%13==6){ o.slides=true; o.njMin=o.njMax=10+id%2; } o.symAll=0.3; o.symSome=0.5; return genArm(r.next(),o,"x"); }
// the same structure with other values and other symbolic parameters
Arm variantArm(long id,uint64_t seed){ Arm a=jobArm(id); Rng r(seed); for(int g=0;g<NGRP;g++){ if(g==G_GRAV&&!a.gravGiven) continue; bool all=r.chance(0.3),some=r.chance(0.6); for(auto&x:a.symb[g]) x=all||(some&&r.chance(0.5)); a.symbGiven[g]=1; for(auto&v:a.val[g]) if(v!=0&&r.chance(0.5)) v*=r.uni(0.5,2); } return a; }
Arm otherArm(long id,const Op&o,long kind){ return kind>=2?variantArm(id,o.s):jobArm(id+500); }
struct Place { std::string root; std::string cwd(const Job&j)const{ return root+(j.layout%2?"/dev/src/thunder/build":"/work"); } std::string cfgDir(const Job&j)const{ return (j.layout/2)%3==0?cwd(j):root+"/cfg"; } std::string stem(const Job&j)const{ return j.bits&O_NAME?"conf_of_"+jobName(j):jobName(j); } std::string cfg(const Job&j)const{ return cfgDir(j)+"/"+stem(j)+".yaml"; }
  std::string cfgArg(const Job&j)const{ switch((j.layout/2)%3){ case 0: return stem(j)+".yaml"; case 1: return std::string(j.layout%2?"../../../../cfg/":"../cfg/")+stem(j)+".yaml"; default: return cfg(j); } }
  std::string gen(const Job&j)const{ return cwd(j)+"/"+jobName(j)+"_generatedFiles"; } std::string copyRoot(const Job&j)const{ return root+(j.layout%2?"/dev/src":"/home/src"); } std::string tmpl()const{ return root+"/template"; }
  void create()const{ for(auto d:{"/work","/cfg","/dev/src/thunder/build"}) fs::create_directories(root+d); for(auto h:{"/dev/src","/home/src"}) for(auto p:{"/thunder_robot/","/thunder_robot_chrono/"}) for(auto k:{"library","src","robots"}) fs::create_directories(root+h+p+k); fs::create_directories(tmpl()); for(auto f:{"thunder_robot.h","thunder_robot.cpp","CMakeLists.txt"}) fs::copy_file(g_template+"/"+f,tmpl()+"/"+f,fs::copy_options::overwrite_existing); }
  void writeCfg(const Job&j,const std::string&text)const{ writeFile(cfg(j),text); } };
Tree snap(const std::string&d){ Tree t; std::error_code ec; if(!fs::exists(d)) return t; for(auto&e:fs::recursive_directory_iterator(d,ec)){ std::string rel=fs::path(e.path()).lexically_relative(d).string(); if(e.is_regular_file()) t[rel]=readFile(e.path()); else t[rel+"/"]=""; } return t; }
// everything the job is supposed to produce, relative to the place
Tree product(const Place&p,const Job&j){ Tree t; for(auto&k:snap(p.gen(j))) t["gen/"+k.first]=k.second; if(j.bits&O_COPY){ std::string n=jobName(j); for(auto&k:snap(p.copyRoot(j))) { std::string b=fs::path(k.first).filename(); if(b.rfind(n+"_",0)==0||b.rfind("thunder_"+n+".",0)==0) t["copy/"+k.first]=k.second; } } return t; }
struct Ran { CliRun r; DiskShared*s=nullptr; };
CliJob cliJob(const Place&p,const Job&j){ CliJob c; c.args={"gen"}; if(j.bits&O_NAME){ c.args.push_back("-n"); c.args.push_back(jobName(j)); } if(j.bits&O_PY) c.args.push_back("-p"); if(j.bits&O_CAS) c.args.push_back("-f"); if(j.bits&O_COPY) c.args.push_back("-c"); c.args.push_back(p.cfgArg(j)); c.cwd=p.cwd(j); c.disk=true; c.cfg.roots={p.root}; c.cfg.redirect={{g_template,p.tmpl()},{"/home/thunder_dev/thunder_dynamics",p.root+"/home"}}; return c; }
struct Shm { DiskShared*s; Shm():s(newShared()){ if(!s) throw Infra{"mmap"}; } ~Shm(){ freeShared(s); } Shm(const Shm&)=delete; };
CliRun go(CliJob&c,const Shm&s,const std::string&out){ c.sh=s.s; CliRun r=cliRun(c,out); return r; }
bool said(const std::string&out,const char*w){ return out.find(w)!=std::string::npos; }
struct Ref { Tree tree; long ops=0,bytes=0; std::vector<std::pair<int,long>> log; std::string out; };
std::map<Job,Ref> refs;
std::string diffTree(const Tree&want,const Tree&got){ for(auto&k:want){ auto i=got.find(k.first); if(i==got.end()) return k.first+" is missing"; if(i->second!=k.second){ size_t n=0; while(n<k.second.size()&&n<i->second.size()&&k.second[n]==i->second[n]) n++; return k.first+" differs from byte "+std::to_string(n)+" on (size "+std::to_string(i->second.size())+", expected "+std::to_string(k.second.size())+"): got '"+i->second.substr(n,60)+"', expected '"+k.second.substr(n,60)+"'"; } } return ""; }
std::string tail(const std::string&s){ return s.size()>300?s.substr(s.size()-300):s; }
Ref& refOf(const Job&j){ auto it=refs.find(j); if(it!=refs.end()) return it->second; Place p{g_scratch+"/ref"}; std::error_code ec; fs::remove_all(p.root,ec); p.create(); p.writeCfg(j,armYaml(jobArm(j.arm))); CliJob c=cliJob(p,j); Shm s; CliRun r=go(c,s,g_scratch+"/ref.out"); if(r.signaled||!said(r.out,"Library generated!")||((j.bits&O_COPY)&&!said(r.out,"Copied to thunder_robot_chrono!"))) fail("undisturbed","an undisturbed generation does not succeed ("+r.how()+"): "+tail(r.out)); Ref f; f.tree=product(p,j); f.ops=s.s->ops; f.bytes=s.s->bytesW; f.out=r.out; for(long i=0;i<std::min<long>(s.s->nlog,8192);i++) f.log.push_back({s.s->log[i].cls,i}); fs::remove_all(p.root,ec);
  if(f.tree.size()<6||f.ops<10) throw Infra{"reference tree is too small: the simulated disk does not see the generator"}; return refs[j]=f; }
// is this text a configuration with all mandatory parts?
bool vec(const YAML::Node&n,size_t k,bool more=false){ if(!n||!n.IsSequence()||(more?n.size()<k:n.size()!=k)) return false; for(auto x:n){ x.as<double>(); } return true; }
bool completeCfg(const std::string&t){ try{ YAML::Node y=YAML::Load(t); if(!y.IsMap()) return false; int n=y["num_joints"].as<int>(); auto ty=y["type_joints"].as<std::vector<std::string>>(); if((int)ty.size()!=n) return false; int e=0; for(auto&s:ty) e+=s.find("_SEA")!=std::string::npos; if(!y["kinematics"].IsMap()||!vec(y["kinematics"]["DH"],4*n)) return false; for(auto f:{"Base_to_L0","Ln_to_EE"}) if(!y[f].IsMap()||!vec(y[f]["tr"],3)||!vec(y[f]["ypr"],3)) return false; if(y["gravity"]&&(!y["gravity"].IsMap()||!vec(y["gravity"]["value"],3))) return false;
    if(!y["dynamics"].IsMap()||(int)y["dynamics"].size()<n) return false; int dl=y["Dl_order"]?y["Dl_order"].as<int>():0; int li=0; for(auto l:y["dynamics"]){ if(li++==n) break; for(auto k:{"mass","CoM_x","CoM_y","CoM_z","Ixx","Ixy","Ixz","Iyy","Iyz","Izz"}) l.second["inertial"][k].as<double>(); if(l.second["friction"]&&!vec(l.second["friction"]["Dl"],dl,true)) return false; }
    if(y["ELASTIC_MODEL"]&&y["ELASTIC_MODEL"].as<bool>()){ auto E=y["elastic"]; if(!E.IsMap()) return false; int K=E["K_order"].as<int>(),D=E["D_order"].as<int>(),M=E["Dm_order"].as<int>(); if(!E["joints"].IsMap()||(int)E["joints"].size()<e) return false; int ei=0; for(auto q:E["joints"]){ if(ei++==e) break; if(!vec(q.second["K"],K,true)||!vec(q.second["D"],D,true)||!vec(q.second["Dm"],M,true)) return false; q.second["Mm"].as<double>(); } }
    return true; } catch(std::exception&){ return false; } }
bool sameYaml(const std::string&a,const std::string&b){ try{ return YAML::Dump(YAML::Load(a))==YAML::Dump(YAML::Load(b)); } catch(std::exception&){ return false; } }
}
struct GenWorld: World { std::string id; GenWorld(const std::string&i):id(i){}
  Job job(const Plan&p,const std::string&s="")const{ Job j; j.arm=p.kn("arm"+s); j.name=p.kn("name"+s); j.bits=p.kn("bits"+s); j.layout=p.kn("layout"+s); return j; }
  static int bitsFor(Rng&r){ int b=0; if(r.chance(0.5)) b|=O_NAME; if(r.chance(0.35)) b|=O_PY; if(r.chance(0.35)) b|=O_CAS; if(r.chance(0.4)) b|=O_COPY; return b; }
  Plan generate(uint64_t seed,int idx)override{
    Rng g(mix64(seed)^mix64(idx/6+77)^hashStr(id)), r(mix64(seed)^mix64(idx*1013+5)^hashStr(id)); Plan p; p.world=id; auto S=[&]{ return r.next()>>1; };
    long arm=idx/6; int base=g.below(NNM); int lay=g.below(6); int bits=bitsFor(g); 
    auto put=[&](const std::string&s,long a,int n,int b,int l){ p.knob["arm"+s]=a; p.knob["name"+s]=n; p.knob["bits"+s]=b; p.knob["layout"+s]=l; };
    put("",arm,base,bits,lay);
    auto faultOp=[&]{ Op o; double u=r.uni(); if(u<0.25) o={"torn",(long)(r.next()>>40),(long)(r.next()>>34),0,S()}; else if(u<0.7) o={"fail",r.chance(0.3)?(long)DO_OPENW:(long)r.below(DO_NCLS),(long)(r.next()>>40),(long)r.below(16),S()}; else if(u<0.9) o={"full",0,(long)(r.next()>>34),0,S()}; else o={"crash",0,(long)(r.next()>>40),(long)(r.next()>>44),S()}; return o; };
    if(id=="C12"){ int n=r.pick(std::vector<int>{1,1,1,2,2,3}); for(int i=0;i<n;i++){ double u=r.uni(); if(u<0.2) p.ops.push_back({"other",(long)r.below(3),(long)(r.chance(0.5)?bitsFor(r)&~O_NAME:-1),0,S()}); else if(u<0.3) p.ops.push_back({"junk",0,0,0,S()}); else if(u<0.38) p.ops.push_back(faultOp()); long k=r.next()>>40; p.ops.push_back({"crash",(long)(r.chance(0.3)?1+r.below(2):0),r.chance(0.7)?-1-k:k,(long)(r.next()>>44),S()}); if(r.chance(0.5)) p.ops.push_back({"power",0,0,0,S()}); if(r.chance(0.15)) p.ops.push_back({"touch",0,0,0,S()}); } p.ops.push_back({"again",(long)r.chance(0.2),0,0,S()}); }
    else if(id=="C13"){ if(r.chance(0.45)) p.ops.push_back({"other",r.pick(std::vector<long>{0,1,2,2,2}),-1,0,S()}); int n=r.pick(std::vector<int>{1,1,2,3}); for(int i=0;i<n;i++){ double u=r.uni(); if(u<0.68) p.ops.push_back(faultOp()); else if(u<0.73) p.ops.push_back({"notemplate",(long)r.below(4),0,0,S()}); else if(u<0.93) p.ops.push_back({"cut",(long)r.below(4),(long)(r.next()>>34),0,S()}); else if(u<0.96) p.ops.push_back({"nodest",(long)r.below(6),0,0,S()}); else p.ops.push_back({"plain",0,0,0,S()}); } }
    else { int k=r.pick(std::vector<int>{1,2,2,2,3}); p.knob["gens"]=k; int sameDir=r.chance(0.75); for(int i=1;i<k;i++) put(std::to_string(i),arm+1000*i*(1+idx%2),(base+i*(1+(int)(idx%3)))%NNM,bits^(int)(idx%2?O_COPY:O_CAS),sameDir?lay:lay^1); p.knob["farm"]=g_farmN?(long)r.below(g_farmN):0; p.knob["answers"]=r.chance(0.3); p.knob["content"]=idx%6==0;
      if(r.chance(0.4)) p.ops.push_back({"other",(long)(1+r.below(2)),r.chance(0.4)?(long)bitsFor(r):-1,0,S()}); if(r.chance(0.2)) p.ops.push_back({"crash",0,(long)(r.next()>>40),(long)(r.next()>>44),S()}); if(r.chance(0.2)) p.ops.push_back({"junk",0,0,0,S()});
      for(int i=0;i<k;i++){ p.ops.push_back({"env",i,(long)r.chance(0.6),(long)r.chance(0.6),S()}); if(r.chance(0.5)) p.ops.push_back({"clock",i,(long)r.below(4),0,S()}); if(r.chance(0.5)) p.ops.push_back({"io",i,0,0,S()}); }
      int ns=k>1?r.range(5,60):0; int mx=r.pick(std::vector<int>{1,5,20,120}); for(int i=0;i<ns;i++) p.ops.push_back({"step",(long)r.below(k),(long)(1+r.below(mx)),0,0}); }
    return p; }
  void prepare(const Plan&p)override{ refOf(job(p)); if(id=="C14"){ for(int i=1;i<p.kn("gens");i++) refOf(job(p,std::to_string(i))); if(p.kn("answers")&&g_farmN) armEntry(true,p.kn("farm")); } }
  // places where the product of the job is announced; checks every announcement against the undisturbed product
  static void announced(Ctx&c,const Place&pl,const Job&j,const CliRun&r,const Ref&ref,const std::string&what){
    Tree t=product(pl,j); auto part=[&](const std::string&pre){ Tree w; for(auto&k:ref.tree) if(k.first.compare(0,pre.size(),pre)==0) w.insert(k); return w; };
    auto req=[&](const char*msg,const std::string&pre){ c.hit("assertions"); if(!said(r.out,msg)) return; c.hit("announced"); std::string d=diffTree(part(pre),t); if(!d.empty()) fail("announced:"+std::string(msg),what+": the generator announced '"+msg+"' but "+d+" ("+r.how()+")"); };
    req("Library generated!","gen/"); req("Copied to thunder_robot!","copy/thunder_robot/"); req("Copied to thunder_robot_chrono!","copy/thunder_robot_chrono/"); }
  static void inputs(Ctx&c,const Place&pl,const Job&j,const std::string&cfg,const Tree&tm,const std::string&what){ c.hit("assertions"); if(readFile(pl.cfg(j))!=cfg) fail("inputs:config",what+": the configuration file was modified"); if(snap(pl.tmpl())!=tm) fail("inputs:template",what+": the template directory was modified"); }
  static void account(Ctx&c,const DiskShared*s){ for(int k=0;k<FK_NK;k++) if(s->kinds[k]) c.hit(std::string("fault.")+faultKind[k],s->kinds[k]); c.hit("disk_ops",s->ops); c.cnt["sim_us"]+=s->ops; c.dig.u(s->hash); c.dig.u(s->ops); c.log.push_back(fmt("   %ld file operations, %ld bytes written, %ld faults, trace %016llx",s->ops,s->bytesW,s->injected,(unsigned long long)s->hash)); }
  static void junk(Ctx&c,const Place&pl,const Job&j,const Tree&ref,uint64_t s){ Rng r(s); std::string g=pl.gen(j); fs::create_directories(g); for(auto&k:ref){ if(k.first.compare(0,4,"gen/")||k.first.back()=='/'||!r.chance(0.5)) continue; std::string t; switch(r.below(4)){ case 0: break; case 1: t=std::string(k.second.size()+1+r.below(20000),'\n'); break; case 2: t=k.second+k.second; break; default: for(int i=0,n=r.below(5000);i<n;i++) t+=(char)r.below(256); } writeFile(g+"/"+k.first.substr(4),t); } c.hit("fault.stale_file"); }
  void run(const Plan&p,Ctx&c)override{ alarm(170); if(id=="C14") return run14(p,c);
    Job j=job(p); Ref&ref=refOf(j); Place pl{c.dir+"/w"}; pl.create(); std::string cfg=armYaml(jobArm(j.arm)); pl.writeCfg(j,cfg); Tree tm=snap(pl.tmpl()); std::string out=c.dir+"/out"; bool nt=false; std::set<std::string> seen; const DiskShared*last=nullptr; std::unique_ptr<Shm> hold; (void)last;
    for(size_t oi=0;oi<p.ops.size();oi++){ const Op&o=p.ops[oi]; std::string what="step "+std::to_string(oi+1)+" ("+o.k+")"; c.ev(o.str());
      if(o.k=="junk"){ junk(c,pl,j,ref.tree,o.s); continue; }
      if(o.k=="touch"){ Rng r(o.s); for(auto&d:{pl.gen(j),pl.copyRoot(j)}) if(fs::exists(d)) for(auto&e:fs::recursive_directory_iterator(d)) if(r.chance(0.7)) fs::last_write_time(e.path(),fs::file_time_type::clock::now()+std::chrono::hours(r.chance(0.5)?-500000:r.range(1,100000))); c.hit("fault.clock_skew"); continue; }
      if(o.k=="power"){ if(!hold) continue; Rng r(o.s); DiskShared*s=hold->s; int hit=0; for(long i=0;i<s->npath;i++){ if(!s->written[i]) continue; std::string f=pl.root+std::string(s->path[i]+1); if(!fs::is_regular_file(f)) continue; size_t n=fs::file_size(f); switch(r.below(6)){ case 0: case 1: continue; case 2: fs::resize_file(f,0); break; case 3: fs::resize_file(f,n?r.below(n):0); break; case 4: { std::string t=readFile(f); size_t b=n?r.below(n):0; for(size_t x=b;x<n;x++) t[x]=0; writeFile(f,t); break; } case 5: fs::remove(f); break; } hit++; } c.hit("fault.power_loss"); c.hit("files_mutilated",hit); hold.reset(); continue; }
      CliJob cj=cliJob(pl,j); auto sh=std::make_unique<Shm>(); bool cut=false,own=false; std::string text=cfg; std::vector<std::pair<std::string,std::string>> moved; Job jj=j; const Ref*rf=&ref; Rng r(o.s);
      auto crashAt=[&](long b,long part){ // negative: somewhere in the part of the run that writes
        long first=0; for(auto&x:ref.log) if(x.first==DO_OPENW||x.first==DO_MKDIR){ first=x.second; break; } long n=ref.ops; cj.cfg.crashAt=b<0?first+(-1-b)%std::max(1L,n-first):b%n; cj.cfg.crashPart=part; };
      if(o.k=="other"){ // an ordinary generation of another arm under the same name (or of the same arm) with other options
        if(o.a){ text=armYaml(otherArm(j.arm,o,o.a)); own=true; } if(o.b>=0){ jj.bits=(int)o.b&~O_NAME; jj.bits|=j.bits&O_NAME; own=true; cj=cliJob(pl,jj); } }
      else if(o.k=="crash"){ crashAt(o.b,o.c); if(o.a){ text=armYaml(otherArm(j.arm,o,o.a)); own=true; } }
      else if(o.k=="fail"){ for(int k=0;k<DO_NCLS;k++){ int cl=(o.a+k)%DO_NCLS; long n=0; for(auto&x:ref.log) n+=x.first==cl; if(!n) continue; cj.cfg.failCls=cl; cj.cfg.failNth=o.b%n; break; } cj.cfg.failSel=o.c; cj.cfg.sticky=o.s&1; }
      else if(o.k=="torn"){ // one file cannot grow beyond a line boundary (or any other byte)
          std::vector<std::string> fl; for(auto&x:ref.tree) if(x.first.back()!='/'&&!x.second.empty()) fl.push_back(x.first); const std::string&f=fl[o.a%fl.size()]; const std::string&t=ref.tree.at(f); cj.cfg.quotaPath="/"+fs::path(f).filename().string(); std::vector<size_t> nl; for(size_t i=0;i+1<t.size();i++) if(t[i]=='\n') nl.push_back(i+1); if((o.b&1)||nl.empty()) cj.cfg.quota=(o.b/2)%t.size(); else cj.cfg.quota=(o.b&2)?nl[nl.size()-1-(o.b/4)%std::min<size_t>(nl.size(),12)]:nl[(o.b/4)%nl.size()]; }
      else if(o.k=="full") cj.cfg.budget=o.b%(ref.bytes+1);
      else if(o.k=="notemplate"){ static const char*f[]={"","/thunder_robot.h","/thunder_robot.cpp","/CMakeLists.txt"}; std::string x=pl.tmpl()+f[o.a%4]; fs::rename(x,pl.root+"/moved"); moved.push_back({pl.root+"/moved",x}); c.hit("fault.missing_template"); }
      else if(o.k=="nodest"){ if(!(j.bits&O_COPY)) continue; static const char*f[]={"/thunder_robot/library","/thunder_robot/src","/thunder_robot/robots","/thunder_robot_chrono/library","/thunder_robot_chrono/src","/thunder_robot_chrono/robots"}; std::string x=pl.copyRoot(j)+f[o.a%6]; fs::rename(x,pl.root+"/moved"); moved.push_back({pl.root+"/moved",x}); c.hit("fault.missing_directory"); }
      else if(o.k=="cut"){ cut=true; size_t n=cfg.size(),b; if(o.a==0) b=o.b%n; else { // near a line or list boundary
          std::vector<size_t> cand; for(size_t i=0;i<n;i++) if(cfg[i]=='\n'||cfg[i]==','||cfg[i]==']'||cfg[i]==':') cand.push_back(i); b=std::min(n,cand[o.b%cand.size()]+(o.b/7)%2); } text=cfg.substr(0,b); c.hit("fault.truncated_config"); }
      else if(o.k=="again"||o.k=="plain"){ if(o.a){ cj.cfg.pShort=0.2; cj.cfg.pEintr=0.1; cj.cfg.seed=o.s; } }
      pl.writeCfg(j,text); Tree tmNow=snap(pl.tmpl()); Tree before=product(pl,j); CliRun res=go(cj,*sh,out); account(c,sh->s); c.hit("generations"); c.dig.s(std::to_string(res.signaled)+std::to_string(res.rc)); c.ev(" -> "+res.how()+(said(res.out,"Library generated!")?" Library generated!":""));
      if(res.signaled&&res.sig==SIGXCPU) fail("hang",what+": the generator does not terminate");
      inputs(c,pl,j,text,tmNow,what); if(!sh->s->ended&&sh->s->kinds[FK_CRASH]) nt=true; if(sh->s->injected||cut||moved.size()) nt=true;
      if(id=="C13"||o.k=="again"||o.k=="plain"){
        if(cut){ bool comp=completeCfg(text),same=sameYaml(text,cfg); c.hit(comp?"cut_complete":"cut_incomplete"); if(!comp&&said(res.out,"Library generated!")) fail("announced:cut",what+": the generator announced success for a configuration cut after "+std::to_string(text.size())+" of "+std::to_string(cfg.size())+" bytes: ..."+text.substr(text.size()>80?text.size()-80:0)); if(same) announced(c,pl,j,res,ref,what); }
        else if(own){ if(said(res.out,"Library generated!")==false) fail("refused",what+": undisturbed generation failed: "+res.how()+" "+tail(res.out)); }
        else announced(c,pl,j,res,*rf,what);
        bool must=!cut&&!own&&moved.empty()&&sh->s->kinds[FK_CRASH]==0&&sh->s->injected==sh->s->kinds[FK_SHORT]+sh->s->kinds[FK_EINTR]; if(must){ c.hit("assertions"); if(!said(res.out,"Library generated!")||((j.bits&O_COPY)&&!said(res.out,"Copied to thunder_robot_chrono!"))) fail("refused",what+": no fault was injected but the generation was not announced ("+res.how()+"): "+tail(res.out)); }
        if(o.k=="again"){ Tree after=product(pl,j); std::string d=diffTree(ref.tree,after); c.hit("assertions"); if(!d.empty()) fail("repair","after re-running the same command "+d); for(auto&k:after) if(!ref.tree.count(k.first)&&!before.count(k.first)) fail("repair:extra","re-running the same command created "+k.first+", which an uninterrupted run does not"); nt=nt&&true; } }
      for(auto&m:moved) fs::rename(m.first,m.second); if(o.k=="crash"||o.k=="fail"||o.k=="full"||o.k=="torn") hold=std::move(sh); }
    c.cnt["nontrivial"]=nt; }
  // ---- C14: interleaved generators, environments, clocks, histories; content and answers ----
  void run14(const Plan&p,Ctx&c){
    int K=std::max(1L,p.kn("gens",1)); Place pl{c.dir+"/w"}; pl.create(); std::vector<Job> J; for(int i=0;i<K;i++){ J.push_back(job(p,i?std::to_string(i):"")); for(int k=0;k<i;k++) if(jobName(J[k])==jobName(J[i])) J[i].name=J[k].name+1; }
    for(int i=0;i<K;i++) refOf(J[i]); std::vector<CliJob> cj; std::vector<std::string> cfg; for(auto&j:J){ cfg.push_back(armYaml(jobArm(j.arm))); pl.writeCfg(j,cfg.back()); cj.push_back(cliJob(pl,j)); } Tree tm=snap(pl.tmpl()); bool varied=K>1; int dims=0;
    for(auto&o:p.ops){ c.ev(o.str()); if(o.a>=K&&o.k!="other"&&o.k!="crash") continue;
      if(o.k=="env"){ if(o.b){ cj[o.a].env=1+(o.s&0x7fffffff); dims++; c.hit("fault.environment"); } if(o.c){ cj[o.a].junk=1+(o.s>>5&0xffffff); dims++; c.hit("fault.heap_layout"); } }
      else if(o.k=="clock"){ cj[o.a].cfg.clock=true; cj[o.a].cfg.seed=o.s; static const uint64_t t[4]={0,1700000000ull,4102444800ull,86400ull*365*60}; cj[o.a].cfg.clock0=(t[o.b%4]+(o.s>>20&0xffff))*1000000000ull; cj[o.a].cfg.pJump=(o.s&3)?0.3:0; dims++; c.hit("fault.clock"); }
      else if(o.k=="io"){ cj[o.a].cfg.seed=o.s; cj[o.a].cfg.pShort=0.3; cj[o.a].cfg.pEintr=0.15; dims++; }
      else if(o.k=="junk"){ junk(c,pl,J[0],refOf(J[0]).tree,o.s); dims++; }
      else if(o.k=="other"||o.k=="crash"){ Job b=J[0]; CliJob x=cliJob(pl,b); if(o.k=="other"){ pl.writeCfg(b,armYaml(otherArm(b.arm,o,o.a))); if(o.b>=0){ b.bits=(o.b&~O_NAME)|(b.bits&O_NAME); x=cliJob(pl,b); } } else { Ref&f=refOf(b); x.cfg.crashAt=o.b%f.ops; x.cfg.crashPart=o.c; } Shm s; go(x,s,c.dir+"/out"); account(c,s.s); pl.writeCfg(J[0],cfg[0]); dims++; c.hit("generations"); } }
    Tree before; for(auto&k:snap(pl.root)) before.insert(k);
    // run
    std::vector<CliRun> res(K); std::vector<std::unique_ptr<Shm>> sh; for(int i=0;i<K;i++) sh.push_back(std::make_unique<Shm>());
    if(K==1){ res[0]=go(cj[0],*sh[0],c.dir+"/out0"); }
    else { struct G{ int rd,wr,pid; bool alive=true,wait=false; }; std::vector<G> g(K); std::vector<int> mine; long switches=0; int lastRun=-1;
      auto settle=[&](G&x){ char b; ssize_t n; while((n=read(x.rd,&b,1))<0&&errno==EINTR){} if(n==1) x.wait=true; else { x.alive=false; x.wait=false; } };
      for(int i=0;i<K;i++){ int a[2],b[2]; if(pipe(a)||pipe(b)) throw Infra{"pipe"}; cj[i].cfg.gateWr=a[1]; cj[i].cfg.gateRd=b[0]; cj[i].sh=sh[i]->s; cj[i].closeFds=mine; cj[i].closeFds.push_back(a[0]); cj[i].closeFds.push_back(b[1]); g[i].pid=cliStart(cj[i],c.dir+"/out"+std::to_string(i)); ::close(a[1]); ::close(b[0]); g[i].rd=a[0]; g[i].wr=b[1]; mine.push_back(a[0]); mine.push_back(b[1]); settle(g[i]); }
      auto give=[&](int i){ if(!g[i].alive) return false; if(lastRun!=i){ switches++; lastRun=i; c.dig.u(i*1000003+sh[i]->s->ops); } if(write(g[i].wr,"g",1)!=1){ g[i].alive=false; return false; } settle(g[i]); return true; };
      for(auto&o:p.ops) if(o.k=="step"&&o.a<K) for(long n=0;n<o.b&&give(o.a);n++){}
      bool any=true; while(any){ any=false; for(int i=0;i<K;i++){ int n=0; while(n<40&&give(i)) n++; if(g[i].alive) any=true; } }
      for(int i=0;i<K;i++){ ::close(g[i].rd); ::close(g[i].wr); res[i]=cliWait(g[i].pid,c.dir+"/out"+std::to_string(i)); } c.hit("fault.preemption",switches); c.hit("interleaved"); c.mx("max_switches",switches); }
    Tree own=before; Tree after; for(auto&k:snap(pl.root)) after.insert(k);
    for(int i=0;i<K;i++){ account(c,sh[i]->s); c.hit("generations"); std::string what="generator "+std::to_string(i+1)+" of "+std::to_string(K)+" ("+jobName(J[i])+")"; Ref&f=refOf(J[i]); c.hit("assertions",2);
      if(res[i].signaled||!said(res[i].out,"Library generated!")||((J[i].bits&O_COPY)&&!said(res[i].out,"Copied to thunder_robot_chrono!"))) fail("depends:failed",what+" did not succeed ("+res[i].how()+"): "+tail(res[i].out));
      Tree t=product(pl,J[i]); std::string d=diffTree(f.tree,t); if(!d.empty()) fail("depends:content",what+": "+d);
      // only its own files
      std::string n=jobName(J[i]); auto mineP=[&](const std::string&rel){ std::string full=pl.root+"/"+rel; if(full.compare(0,pl.gen(J[i]).size()+1,pl.gen(J[i])+"/")==0||full==pl.gen(J[i])) return true; if(J[i].bits&O_COPY){ std::string cr=pl.copyRoot(J[i])+"/"; std::string b=fs::path(rel).filename(); if(full.compare(0,cr.size(),cr)==0&&(b.rfind(n+"_",0)==0||b.rfind("thunder_"+n+".",0)==0)) return true; } return false; };
      for(long k=0;k<sh[i]->s->npath;k++) if(sh[i]->s->written[k]){ std::string rel=sh[i]->s->path[k]+2; if(!mineP(rel)) fail("foreign",what+" wrote "+rel); } 
      for(auto&k:after) if(mineP(k.first[k.first.size()-1]=='/'?k.first.substr(0,k.first.size()-1):k.first)) own[k.first]=k.second; for(auto&k:before) if(mineP(k.first)&&!after.count(k.first)) own.erase(k.first); }
    for(int i=0;i<K;i++) inputs(c,pl,J[i],cfg[i],tm,"generator "+std::to_string(i+1)); c.hit("assertions"); std::string d=diffTree(own,after); if(d.empty()) d=diffTree(after,own); if(!d.empty()) fail("foreign","the generators changed a file that is not theirs: "+d);
    if(p.kn("content")) content(p,c,J[0]);
    if(p.kn("answers")&&g_farmN) answers(p,c);
    c.cnt["nontrivial"]=varied||dims>=2; }
  // the generated parameter files and casadi functions describe the configured arm
  void content(const Plan&p,Ctx&c,const Job&j){ Ref&f=refOf(j); Arm a=jobArm(j.arm); std::string n=jobName(j); auto bad=[&](const std::string&w){ fail("content",w); };
    YAML::Node y=YAML::Load(f.tree["gen/"+n+"_conf.yaml"]),o=YAML::Load(armYaml(a)); std::function<void(const YAML::Node&,const YAML::Node&,const std::string&)> cmp=[&](const YAML::Node&x,const YAML::Node&z,const std::string&path){ c.hit("assertions"); if(x.Type()!=z.Type()) bad("_conf.yaml: "+path+" has another type"); if(x.IsMap()){ if(x.size()!=z.size()) bad("_conf.yaml: "+path+" has other entries"); for(auto k:x){ std::string key=k.first.as<std::string>(); if(!z[key]) bad("_conf.yaml: "+path+"/"+key+" is missing"); cmp(k.second,z[key],path+"/"+key); } } else if(x.IsSequence()){ if(x.size()!=z.size()) bad("_conf.yaml: "+path+" has another length"); for(size_t i=0;i<x.size();i++) cmp(x[i],z[i],path+"["+std::to_string(i)+"]"); } else if(x.IsScalar()&&x.Scalar()!=z.Scalar()){ double u=0,v=1; try{ u=x.as<double>(); v=z.as<double>(); }catch(std::exception&){ } if(u!=v) bad("_conf.yaml: "+path+" is "+z.Scalar()+" instead of "+x.Scalar()); } }; cmp(o,y,"");
    YAML::Node r=YAML::Load(f.tree["gen/"+n+"_par_REG.yaml"]); Eff e=effOf(a); Vec reg=Bench::regOf(e.v[G_DYN]); static const char*ik[10]={"mass","m_CoM_x","m_CoM_y","m_CoM_z","Ixx","Ixy","Ixz","Iyy","Iyz","Izz"}; int l=0; for(auto k:r["dynamics"]){ if(l>=a.nj) bad("_par_REG.yaml has too many links"); for(int q=0;q<10;q++){ c.hit("assertions"); double x=k.second["inertial"][ik[q]].as<double>(); double w=reg[10*l+q]; if(!(std::fabs(x-w)<=1e-9*(1+std::fabs(w)))) bad(fmt("_par_REG.yaml: link %d %s is %.17g, expected %.17g",l+1,ik[q],x,w)); } l++; } if(l!=a.nj) bad("_par_REG.yaml has too few links");
    if(j.bits&O_CAS){ Place q{c.dir+"/cas"}; fs::create_directories(q.root); std::unique_ptr<VRobot> m; { Place pp{c.dir+"/y"}; fs::create_directories(pp.root); writeFile(pp.root+"/x.yaml",armYaml(a)); m.reset(makeInProc(n,pp.root+"/x.yaml")); } thunder_ns::Robot&R=robotOf(m.get()); Rng rr(p.kn("arm")+5); for(auto s:{"q","dq","dqr","ddqr"}){ Vec v(a.nj); for(int i=0;i<a.nj;i++) v[i]=rr.uni(-2,2); m->setState(s,v); }
      Quiet quiet; int cnt=0; for(auto&fn:R.get_functions()){ std::string file="gen/"+fn.name+"_fun.casadi"; std::string alt="gen/"+fn.name+".casadi"; auto it=f.tree.find(file); if(it==f.tree.end()) it=f.tree.find(alt); if(it==f.tree.end()) bad("-f did not save the function "+fn.name); writeFile(q.root+"/f.casadi",it->second); casadi::Function F=casadi::Function::load(q.root+"/f.casadi"); std::vector<casadi::DM> in; for(auto&arg:fn.args) in.push_back(casadi::DM(std::vector<double>([&]{ Vec v=R.get_arg(arg); return std::vector<double>(v.data(),v.data()+v.size()); }()))); casadi::DM o2=casadi::DM::densify(F(in)[0]); Mat w=m->get(fn.name); c.hit("assertions"); cnt++; if(o2.size1()!=w.rows()||o2.size2()!=w.cols()) bad("saved function "+fn.name+" has another shape"); for(int x=0;x<w.rows();x++) for(int z=0;z<w.cols();z++){ double g=(double)o2(x,z); if(!(std::fabs(g-w(x,z))<=1e-9*(1+std::fabs(w(x,z))))) bad("saved function "+fn.name+" answers differently from the arm"); } } c.hit("casadi_functions",cnt); } }
  void answers(const Plan&p,Ctx&c){ ArmEntry&e=armEntry(true,p.kn("farm")); std::unique_ptr<VRobot> g(newModel(e)),m(makeInProc(e.arm.name,e.yaml)); Quiet quiet; g->load("conf",e.confFile,true,{}); Rng r(p.kn("arm")*131+p.kn("farm")+9); for(int v=0;v<12;v++){ Vec x(stSize(e.arm,v)); for(int i=0;i<x.size();i++) x[i]=r.uni(-2,2); g->setState(ST[v],x); if(std::string(ST[v])!="w") m->setState(ST[v],x); }
    try{ Vec w(6); for(int i=0;i<6;i++) w[i]=0.1*i; g->setState("w",w); m->setState("w",w); }catch(std::exception&){ }
    for(auto&f:functionsOf(e.arm)){ c.hit("assertions"); if(!g->has(f.name)) fail("content:missing","the generated class has no get_"+f.name); if(!m->has(f.name)) continue; Mat a=g->get(f.name),b=m->get(f.name); double er=relErr(a,b); if(!(er<=1e-8)) fail("content:answer","generated get_"+f.name+" answers "+mstr(a)+", the arm it was generated from "+mstr(b)); c.hit("answers"); } }
};
World* makeGenWorld(const std::string&n){ return new GenWorld(n); }
}
