#pragma once
#include "vrobot.h"
#include <memory>
#include <sstream>
namespace thunder_ns { class Robot; }
namespace sim {
struct Quiet { std::ostringstream out,err; std::streambuf*o,*e; Quiet(); ~Quiet(); std::string text(); };  // captures std::cout / std::cerr
VRobot* makeInProc(const std::string&name,const std::string&yaml,bool compute=true,bool bare=false);
thunder_ns::Robot& robotOf(VRobot*);
}
