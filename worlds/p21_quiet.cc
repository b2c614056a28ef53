// The trace macros as shipped (VP_DEBUG not defined): they evaluate and write nothing, errors excepted.
#include <iostream>
#include <string>
#include "sot/core/debug.hh"
using namespace dynamicgraph::sot;
#ifdef VP_DEBUG
#error this unit is about the default
#endif
std::string quietMacros(int level) {
  int n = 0; auto arg = [&] { ++n; return 1; }; (void)arg; bool next = false;
  sotDEBUG(level) << arg() << std::endl; sotDEBUGMUTE(level) << arg() << std::endl; sotTDEBUG(level) << arg() << std::endl;
  sotDEBUGIN(level); sotDEBUGOUT(level); sotDEBUGINOUT(level); sotTDEBUGIN(level); sotTDEBUGOUT(level); sotTDEBUGINOUT(level);
  sotDEBUGF(level, "%d", 1); sotDEBUGF("%d", 1); sotTDEBUGF(level, "%d", 1); sotTDEBUGF("%d", 1); sotERRORF(level, "%d", 1); sotERRORF("%d", 1);
  if (level > 1000) sotDEBUG(level) << arg(); else next = true;     // as one statement
  if (n) return "a disabled trace evaluates its text";
  if (!next) return "a trace macro swallows the else of its caller";
  if (sotDEBUG_ENABLE(level) || sotTDEBUG_ENABLE(level)) return "a disabled trace level is reported as enabled";
  return "";
}
std::string quietError(const std::string& s) {
  int line = __LINE__; sotERROR << s << std::endl;
  return "\t!! " + std::string(__FILE__) + ": quietError(#" + std::to_string(line) + ") :";
}
