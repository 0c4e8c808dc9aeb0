// Simulated disk and clock: the libc calls that libstdc++, yaml-cpp and casadi use for file I/O and time are interposed in
// the simulator executable.  Off: plain pass-through.  On: every call on a file below one of the roots is an event that the
// seeded fault plan may fail, shorten, interrupt, or end the process at; the clock is virtual.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <cstdint>
namespace sim {
enum { DO_OPENR,DO_OPENW,DO_READ,DO_WRITE,DO_CLOSE,DO_STAT,DO_MKDIR,DO_SENDFILE,DO_META,DO_NCLS };
extern const char*const diskCls[DO_NCLS];
struct DiskShared {                    // lives in shared memory: survives the death of the simulated process
  long ops,nlog,injected,bytesW; long byCls[DO_NCLS]; long kinds[16]; long nw,ended; uint64_t hash;
  struct Ent{ signed char cls; unsigned char wr; short err; int n; int path; } log[8192];
  long npath; char path[512][240];      // relative to its root; log[].path indexes here
  unsigned char written[512];           // 1: opened for writing / created
};
enum { FK_OPENFAIL,FK_READEIO,FK_WRITEERR,FK_CLOSEERR,FK_STATERR,FK_MKDIRERR,FK_SENDERR,FK_SHORT,FK_EINTR,FK_FULL,FK_CRASH,FK_METAERR,FK_NK };
extern const char*const faultKind[FK_NK];
struct DiskCfg {
  std::vector<std::string> roots;       // absolute directory prefixes, no trailing slash
  std::vector<std::pair<std::string,std::string>> redirect; // path prefix -> other prefix (always applied while started)
  long failAt=-1; long failSel=0; int failCls=-1; long failNth=-1; /* the n-th op of a class */ bool sticky=false;   // op index to fail; sticky: all later ops of the same class on the same path fail too
  long crashAt=-1; long crashPart=-1;   // die at this op; for writes: after crashPart bytes of it (mod size+1)
  long budget=-1;                       // disk full after this many bytes
  std::string quotaPath; long quota=-1;  // writes to the file with this path suffix fail with ENOSPC after `quota` bytes
  double pShort=0,pEintr=0; uint64_t seed=1;
  bool clock=false; uint64_t clock0=0; double pJump=0;
  int gateRd=-1,gateWr=-1;              // lock-step gate: one byte out before each op, one byte in to go on
};
void diskStart(const DiskCfg&,DiskShared*);
void diskStop();
bool diskOn();
DiskShared* newShared();                // zeroed MAP_SHARED block
void freeShared(DiskShared*);
void setBaseRedirect(const std::string&from,const std::string&to);  // applied even while stopped
}
