// A generated class as a Python program sees it: calls by name with positional, keyword and default arguments.
#pragma once
#include "../pystub/pybind11/pybind11.h"
#include <string>
namespace sim {
typedef pybind11::value PV; typedef std::vector<PV> PVs; typedef std::map<std::string,PV> PKw;
struct PyApi { virtual ~PyApi(){} virtual PV call(const std::string&n,const PVs&pos,const PKw&kw)=0; virtual PyApi*fresh()=0; virtual std::vector<std::string> names()=0; virtual int overloads(const std::string&)=0; };
}
