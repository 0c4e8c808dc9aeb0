// simulator driver: batches of seeded runs, each in its own forked process; exact replay of plan files.
#include "worlds/bench.h"
#include "core/cli.h"
#include "worlds/func.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <malloc.h>
#include <signal.h>
#include <chrono>
#include <filesystem>
#include <set>
#include <sys/personality.h>
namespace fs=std::filesystem;
namespace sim {
World* makeLoop(const std::string&);World* makeHistory(const std::string&);World* makePersist(const std::string&);World* makeGenWorld(const std::string&);World* makeYamlWorld(const std::string&);World* makeFuncWorld(const std::string&);World* makeThreads(const std::string&);World* makePython(const std::string&);World* makeCfgWorld();
World* makeWorld(const std::string&n){
  if(n=="C01"||n=="C02"||n=="C03"||n=="C04") return makeLoop(n);
  if(n=="C05"||n=="C06"||n=="C07") return makeHistory(n);
  if(n=="C09"||n=="C10"||n=="C11") return makePersist(n);
  if(n=="C08") return makeThreads(n);
  if(n=="C12"||n=="C13"||n=="C14") return makeGenWorld(n);
  if(n=="C15") return makeYamlWorld(n);
  if(n=="C16") return makeFuncWorld(n);
  if(n=="C17") return makePython(n);
  if(n=="C19") return makeCfgWorld();
  throw Infra{"unknown world "+n}; }
std::string g_template;
static std::string esc(const std::string&s){ std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else if(c<32||c>126) o+='?'; else o+=c; } return o; }
static std::string json(const Result&r,long idx,bool withLog){ std::ostringstream o; o.precision(15); o<<"{\"idx\":"<<idx<<",\"viol\":"<<(r.viol?"true":"false")<<",\"cls\":\""<<esc(r.cls)<<"\",\"detail\":\""<<esc(r.detail.substr(0,1500))<<"\",\"infra\":\""<<esc(r.infra)<<"\",\"hash\":\""<<std::hex<<r.hash<<std::dec<<"\",\"cnt\":{"; bool f=true; for(auto&k:r.cnt){ o<<(f?"":",")<<"\""<<esc(k.first)<<"\":"<<k.second; f=false; } o<<"}"; if(withLog){ o<<",\"log\":["; f=true; for(auto&l:r.log){ o<<(f?"":",")<<"\""<<esc(l)<<"\""; f=false; } o<<"]"; } o<<"}"; return o.str(); }
static void put(FILE*f,const std::string&s){ uint64_t n=s.size(); fwrite(&n,8,1,f); fwrite(s.data(),1,n,f); }
static bool get(FILE*f,std::string&s){ uint64_t n; if(fread(&n,8,1,f)!=1||n>(1u<<28)) return false; s.resize(n); return n==0||fread(&s[0],1,n,f)==n; }
static int runCounter=0;
// one simulated run in a forked child
static Result runForked(World*w,const Plan&p,int perturb){
  std::string dir=g_scratch+"/run"+std::to_string(getpid())+"_"+std::to_string(runCounter++); fs::create_directories(dir); int fd[2]; if(pipe(fd)) throw Infra{"pipe"}; fflush(nullptr); pid_t pid=fork(); if(pid<0) throw Infra{"fork"};
  if(pid==0){ close(fd[0]); rlimit rl{60,62}; setrlimit(RLIMIT_CPU,&rl); rlimit rc{0,0}; setrlimit(RLIMIT_CORE,&rc); rlimit rm{8ull<<30,8ull<<30}; setrlimit(RLIMIT_AS,&rm); mallopt(M_PERTURB,perturb); if(!freopen("/dev/null","w",stderr)){} if(!freopen("/dev/null","r",stdin)){} 
    Ctx c; c.dir=dir; Result r; try{ w->run(p,c); } catch(Violation&v){ r.viol=true; r.cls=v.cls; r.detail=v.detail; } catch(Infra&i){ r.infra=i.what; if(r.infra.empty()) r.infra="?"; } catch(std::exception&e){ r.viol=true; r.cls="exception"; r.detail=std::string("uncaught exception: ")+e.what(); }
    r.hash=c.dig.h; FILE*f=fdopen(fd[1],"wb"); put(f,r.viol?"1":"0"); put(f,r.cls); put(f,r.detail); put(f,r.infra); std::string h((char*)&r.hash,8); put(f,h); put(f,std::to_string(c.cnt.size())); for(auto&k:c.cnt){ put(f,k.first); std::string d((char*)&k.second,8); put(f,d); } put(f,std::to_string(c.log.size())); for(auto&l:c.log) put(f,l); fclose(f); _exit(0); }
  close(fd[1]); Result r; FILE*f=fdopen(fd[0],"rb"); std::string v,h,n; bool ok=get(f,v)&&get(f,r.cls)&&get(f,r.detail)&&get(f,r.infra)&&get(f,h)&&get(f,n); if(ok){ r.viol=v=="1"; memcpy(&r.hash,h.data(),8); int k=atoi(n.c_str()); for(int i=0;i<k&&ok;i++){ std::string a,b; ok=get(f,a)&&get(f,b); if(ok) memcpy(&r.cnt[a],b.data(),8);} std::string m; if(ok&&get(f,m)) for(int i=0;i<atoi(m.c_str());i++){ std::string l; if(!get(f,l)) break; r.log.push_back(l);} }
  fclose(f); int st=0; waitpid(pid,&st,0); std::error_code ec; fs::remove_all(dir,ec);
  if(!ok){ r=Result(); if(WIFSIGNALED(st)){ int s=WTERMSIG(st); if(s==SIGKILL){ r.infra="run killed (memory?)"; } else if(s==SIGXCPU){ r.viol=true; r.cls="hang"; r.detail="no progress: CPU limit reached"; } else { r.viol=true; r.cls=std::string("crash:")+strsignal(s); r.detail="the process under test died: "+std::string(strsignal(s)); } } else { r.viol=true; r.cls="exit"; r.detail="the process under test exited with status "+std::to_string(WEXITSTATUS(st)); } }
  return r; }
bool wantsPerturb(const std::string&w){ return w=="C05"||w=="C06"||w=="C07"||w=="C09"||w=="C10"||w=="C19"; }
static Result runOne(World*w,const Plan&p){ Result r=runForked(w,p,getenv("SIM_PERTURB")?atoi(getenv("SIM_PERTURB")):0x5a); if(r.viol||!r.infra.empty()||!wantsPerturb(p.world)) return r; Result r2=runForked(w,p,0xc3); if(r2.viol) return r2; if(r2.hash!=r.hash){ r2.viol=true; r2.cls="indeterminate"; r2.detail="answers differ between two executions of the same history that differ only in the content of uninitialised memory"; r2.hash=r.hash; } return r2; }
}
using namespace sim;
int main(int argc,char**argv){
  // one fixed address-space layout: addresses must not differ between an execution and its replay
  { int per=personality(0xffffffff); if(per!=-1&&!(per&ADDR_NO_RANDOMIZE)&&!getenv("SIM_NOASLR")){ setenv("SIM_NOASLR","1",1); if(personality(per|ADDR_NO_RANDOMIZE)!=-1) execv("/proc/self/exe",argv); } unsetenv("SIM_NOASLR"); }
  std::map<std::string,std::string> o; for(int i=2;i+1<argc;i+=2) o[argv[i]]=argv[i+1]; std::string cmd=argc>1?argv[1]:"";
  g_seed=std::stoull(o.count("--seed")?o["--seed"]:"1"); g_profile=o["--world"]; g_farmDir=o["--farm"]; g_farmN=o.count("--farmn")?atoi(o["--farmn"].c_str()):0;
  g_scratch=o.count("--scratch")?o["--scratch"]:"/tmp"; g_scratch+="/sim"+std::to_string(getpid()); fs::create_directories(g_scratch); struct Clean{ pid_t me=getpid(); std::string d=g_scratch; ~Clean(){ if(getpid()==me){ std::error_code ec; fs::remove_all(d,ec);} } } clean;
  g_template=o.count("--template")?o["--template"]:"/repo/src/thunder/thunder_robot_template"; setBaseRedirect("/usr/local/share/thunder_dynamics/thunder_robot_template",g_template); g_yamlSo=o["--yamlso"];
  try{
    if(cmd=="farm"){ // write arm configurations
      for(int i=0;i<g_farmN;i++){ Arm a=farmArm(g_profile,g_seed,i); std::string d=g_farmDir+"/arm"+std::to_string(i); fs::create_directories(d); writeFile(d+"/"+a.name+".yaml",armYaml(a)); std::cout<<a.name<<"\n"; } return 0; }
    if(cmd=="cli"){ std::vector<std::string> a; bool on=false; for(int i=2;i<argc;i++){ if(on) a.push_back(argv[i]); else if(std::string(argv[i])=="--") on=true; } CliJob j; j.args=a; j.cwd=fs::current_path(); CliRun r=cliRun(j,g_scratch+"/out"); std::cout<<r.out; std::cout.flush(); if(r.signaled) std::cout<<r.how()<<"\n"; return r.signaled?134:r.rc; }
    if(cmd=="funcgen"){ int r=funcGenerate(atoi(o["--idx"].c_str()),o.count("--pyfun")?atoi(o["--pyfun"].c_str()):0); std::cout.flush(); return r; }
    World*w=makeWorld(g_profile);
    if(cmd=="plan"){ std::cout<<w->generate(g_seed,atoi(o["--idx"].c_str())).str(); return 0; }
    if(cmd=="run"){ std::ifstream in(o["--plan"]); Plan p=Plan::parse(in); 
      int fd[2]; if(pipe(fd)) return 3; fflush(nullptr); pid_t pid=fork(); if(pid==0){ Result r; try{ w->prepare(p); r=runOne(w,p); } catch(Violation&v){ r.viol=true; r.cls=v.cls; r.detail=v.detail; } catch(Infra&i){ r.infra=i.what; } catch(std::exception&e){ r.viol=true; r.cls="prepare"; r.detail=e.what(); } std::string s=json(r,0,true)+"\n"; if(write(fd[1],s.data(),s.size())<0){} _exit(0); }
      close(fd[1]); std::string s; char b[65536]; ssize_t n; while((n=read(fd[0],b,sizeof b))>0) s.append(b,n); int st; waitpid(pid,&st,0); if(s.empty()){ Result r; r.viol=true; r.cls=std::string("crash-prepare"); r.detail="the process under test died while building the arm"; s=json(r,0,true)+"\n"; } std::cout<<s; return 0; }
    if(cmd=="batch"){ long from=std::stol(o["--from"]),stride=std::stol(o["--stride"]),count=std::stol(o["--count"]); double budget=std::stod(o["--budget"]); int group=o.count("--group")?atoi(o["--group"].c_str()):6; std::string out=o["--out"]; int recheck=o.count("--recheck")?atoi(o["--recheck"].c_str()):0; auto t0=std::chrono::steady_clock::now(); auto el=[&]{ return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); };
      // groups of consecutive run indices share prepared arms; groups are dealt out to workers
      for(long g=from;g*group<count&&el()<budget;g+=stride){ int fd[2]; if(pipe(fd)) return 3; fflush(nullptr); pid_t pid=fork(); if(pid==0){ close(fd[0]); std::ofstream f(out,std::ios::app); long cur=g*group; 
          for(long i=g*group;i<(g+1)*group&&i<count;i++){ cur=i; if(write(fd[1],&cur,8)<0){} Plan p=w->generate(g_seed,i); Result r; try{ w->prepare(p); r=runOne(w,p); if(recheck&&!r.viol&&r.infra.empty()&&i%recheck==0){ Result q=runForked(w,p,0x11+i%7); r.cnt["determinism_rechecks"]=1; if(q.viol){ r=q; } else if(q.hash!=r.hash&&!wantsPerturb(g_profile)) r.infra="nondeterministic run: hash differs on re-execution"; } } catch(Violation&v){ r.viol=true; r.cls=v.cls; r.detail=v.detail; } catch(Infra&x){ r.infra=x.what; } catch(std::exception&e){ r.viol=true; r.cls="prepare"; r.detail=e.what(); } f<<json(r,i,r.viol)<<"\n"; f.flush(); }
          _exit(0); }
        close(fd[1]); long cur=-1,x; while(read(fd[0],&x,8)==8) cur=x; close(fd[0]); int st; waitpid(pid,&st,0); if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ std::ofstream f(out,std::ios::app); Result r; r.viol=true; r.cls="crash-prepare"; r.detail="the process under test died while building the arm"; f<<json(r,cur,true)<<"\n"; } std::error_code ec; for(auto&en:fs::directory_iterator(g_scratch)) fs::remove_all(en.path(),ec); }
      return 0; }
  } catch(Infra&i){ std::cerr<<"infra: "<<i.what<<"\n"; return 3; } catch(Violation&v){ std::cerr<<"violation outside run: "<<v.cls<<": "<<v.detail<<"\n"; return 4; } catch(std::exception&e){ std::cerr<<"error: "<<e.what()<<"\n"; return 3; }
  std::cerr<<"usage\n"; return 2; }
