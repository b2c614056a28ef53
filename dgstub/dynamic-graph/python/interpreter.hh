#ifndef VERIF_DG_INTERP
#define VERIF_DG_INTERP
#include "../dgstub.hh"
namespace dynamicgraph {
namespace python {
// Interpreter seam: worlds may install a handler.
struct Interpreter {
  static std::function<void(const std::string &, std::string &, std::string &, std::string &)> &handler() { static std::function<void(const std::string &, std::string &, std::string &, std::string &)> h; return h; }
  std::string python(const std::string &c) { std::string r, o, e; python(c, r, o, e); return r; }
  void python(const std::string &c, std::string &r, std::string &o, std::string &e) { if (handler()) handler()(c, r, o, e); }
  std::string processStream(std::istream &, std::ostream &) { return ""; }
  void runPythonFile(std::string) {}
  void runPythonFile(std::string, std::string &) {}
  void runMain() {}
};
}
}  // namespace dynamicgraph
#endif
