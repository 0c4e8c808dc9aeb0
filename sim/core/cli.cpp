#include "cli.h"
#include "rng.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstring>
#include <cstdlib>
#include <dlfcn.h>
#include <stdexcept>
#include <random>
#include <exception>
int thunder_cli_main(int,char**);
namespace sim {
static bool rngOn=false; static int rngMode=0; static Rng rngS(1);
// the converter seeds its generator from std::random_device: this is the seam for its randomness
unsigned simRandomDevice(){ switch(rngMode){ case 1: return 0; case 2: return 0xffffffffu; case 3: return (unsigned)(rngS.next()&3); case 4: return 12345; default: return (unsigned)rngS.next(); } }
bool simRandomOn(){ return rngOn; }
std::string CliRun::how()const{ return signaled?std::string("died: ")+strsignal(sig):"exit status "+std::to_string(rc); }
static int startChild(const CliJob&j,const std::string&outFile,int(*body)(const CliJob&)){
  std::cout.flush(); fflush(nullptr); pid_t pid=fork(); if(pid<0) return -1; if(pid) return pid;
  rlimit rl{60,62}; setrlimit(RLIMIT_CPU,&rl); rlimit rc{0,0}; setrlimit(RLIMIT_CORE,&rc);
  int fd=::open(outFile.c_str(),O_CREAT|O_WRONLY|O_TRUNC|O_APPEND,0644); dup2(fd,1); dup2(fd,2); ::close(fd); int nul=::open("/dev/null",O_RDONLY); dup2(nul,0); for(int x:j.closeFds) ::close(x);
  if(chdir(j.cwd.c_str())) _exit(98);
  if(j.env){ Rng r(j.env); unsetenv("HOME"); switch(r.below(4)){ case 0: break; case 1: setenv("HOME","/nonexistent/home",1); break; case 2: clearenv(); break; default: setenv("HOME",std::string(3000,'h').c_str(),1); } if(r.chance(0.5)) setenv("TZ","Pacific/Kiritimati",1); if(r.chance(0.5)) setenv("LANG","it_IT.UTF-8",1); if(r.chance(0.3)) setenv("TMPDIR","/nonexistent",1); }
  if(j.junk){ Rng r(j.junk); static std::vector<void*> keep; for(int i=0;i<400;i++){ void*p=malloc(16+r.below(5000)); if(p) memset(p,(int)r.next(),16); if(r.chance(0.5)) keep.push_back(p); else free(p); } }
  std::set_terminate([]{ // what the standard library does, without the core dump machinery
    try{ auto e=std::current_exception(); if(e) std::rethrow_exception(e); } catch(std::exception&e){ std::cerr<<"terminate called: "<<e.what()<<std::endl; } catch(...){ } signal(SIGABRT,SIG_DFL); raise(SIGABRT); _exit(97); });
  int r; if(j.disk) diskStart(j.cfg,j.sh); r=body(j); if(j.disk) diskStop(); std::cout.flush(); fflush(nullptr); _exit(r&255); }
static int bodyCli(const CliJob&j){ std::vector<std::string> a=j.args; a.insert(a.begin(),"thunder"); std::vector<char*> v; for(auto&s:a) v.push_back(&s[0]); v.push_back(nullptr); struct T{ static int run(int c,char**v) noexcept { return thunder_cli_main(c,v); } }; return T::run(a.size(),v.data()); }
int cliStart(const CliJob&j,const std::string&o){ return startChild(j,o,bodyCli); }
typedef int(*YamlMain)(); static YamlMain yamlMain=nullptr; std::string g_yamlSo;
static int bodyYaml(const CliJob&){ struct T{ static int run() noexcept { return yamlMain(); } }; rngOn=true; return T::run(); }
int yamlStart(const CliJob&j,const std::string&o,unsigned long long s,int m){ if(!yamlMain){ void*h=dlopen(g_yamlSo.c_str(),RTLD_NOW|RTLD_LOCAL); if(!h) throw std::runtime_error(std::string("dlopen: ")+dlerror()); yamlMain=(YamlMain)dlsym(h,"_Z12genyaml_mainv"); if(!yamlMain) throw std::runtime_error("no genyaml main"); } rngS=Rng(s); rngMode=m; return startChild(j,o,bodyYaml); }
static int(*freeBody)(void*)=nullptr; static void*freeArg=nullptr; static int bodyFree(const CliJob&){ struct T{ static int run() noexcept { return freeBody(freeArg); } }; return T::run(); }
int bodyStart(const CliJob&j,const std::string&o,int(*f)(void*),void*a){ freeBody=f; freeArg=a; return startChild(j,o,bodyFree); }
CliRun cliWait(int pid,const std::string&o){ int st=0; waitpid(pid,&st,0); CliRun r; if(WIFSIGNALED(st)){ r.signaled=true; r.sig=WTERMSIG(st);} else r.rc=WEXITSTATUS(st); std::ifstream f(o,std::ios::binary); std::stringstream s; s<<f.rdbuf(); r.out=s.str(); return r; }
CliRun cliRun(const CliJob&j,const std::string&o){ return cliWait(cliStart(j,o),o); }
}
// seam for the converter's randomness: std::random_device draws from here while a simulated converter runs
std::random_device::result_type std::random_device::_M_getval(){ if(sim::simRandomOn()) return sim::simRandomDevice(); unsigned v=0; FILE*f=fopen("/dev/urandom","rb"); if(f){ if(fread(&v,4,1,f)!=1) v=0; fclose(f);} return v; }
