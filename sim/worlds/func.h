#pragma once
namespace sim { int funcGenerate(long i,int py=0); }
