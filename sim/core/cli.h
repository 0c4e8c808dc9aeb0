// Runs the real generator command line in a forked child under the simulated disk.
#pragma once
#include "simdisk.h"
#include <string>
#include <vector>
namespace sim {
struct CliRun { bool signaled=false; int sig=0,rc=0; std::string out; std::string how()const; };
struct CliJob { std::vector<std::string> args; std::string cwd; bool disk=false; DiskCfg cfg; DiskShared*sh=nullptr; int env=0; long junk=0; std::vector<int> closeFds; };
int cliStart(const CliJob&,const std::string&outFile);    // returns pid
CliRun cliWait(int pid,const std::string&outFile);
CliRun cliRun(const CliJob&,const std::string&outFile);
extern std::string g_yamlSo;
int bodyStart(const CliJob&,const std::string&outFile,int(*)(void*),void*); // any other piece of library code
int yamlStart(const CliJob&,const std::string&outFile,unsigned long long rngSeed,int rngMode); // the inertial converter
}
