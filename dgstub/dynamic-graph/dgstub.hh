#ifndef DGSTUB_ONCE_VA
#define DGSTUB_ONCE_VA
#include <boost/preprocessor/repetition/enum_params.hpp>
#include <boost/preprocessor/repetition/enum_trailing_params.hpp>
#include <cstdarg>
#include <functional>
#include <utility>
#endif
// Stand-in for the dynamic-graph library (not installed in this sandbox),
// written from its documented behaviour: signals with double-buffered values,
// time dependencies, entities, commands, pools and loggers.
#ifndef VERIF_DGSTUB_HH
#define VERIF_DGSTUB_HH
#include <algorithm>
#include <boost/any.hpp>
#include <boost/assign/list_of.hpp>
#include <boost/bind.hpp>
#include <boost/bind/bind.hpp>
#include <boost/function.hpp>
#include <boost/thread/mutex.hpp>
#include <cmath>
#include <complex>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/Geometry>
using namespace boost::placeholders;

#define DYNAMIC_GRAPH_DLLAPI
#define DYNAMIC_GRAPH_DLLEXPORT
#define DYNAMIC_GRAPH_ENTITY_DECL()                                   \
 public:                                                              \
  virtual const std::string &getClassName() const { return CLASS_NAME; } \
  static const std::string CLASS_NAME

namespace dynamicgraph {
typedef Eigen::VectorXd Vector;
typedef Eigen::MatrixXd Matrix;
typedef Vector::Index size_type;

// ---------------------------------------------------------------- exceptions
class ExceptionAbstract : public std::exception {
 public:
  enum ExceptionEnum { ABSTRACT = 0, SIGNAL = 100, FACTORY = 300, TRACES = 700, TOOLS = 600 };
  int code;
  std::string message;
  ExceptionAbstract(const int &c, const std::string &m) : code(c), message(m) {}
  virtual ~ExceptionAbstract() throw() {}
  virtual const std::string &getExceptionName() const { static std::string n("Abstract"); return n; }
  int getCode() const { return code; }
  const std::string &getStringMessage() const { return message; }
  const char *getMessage() { return message.c_str(); }
  virtual const char *what() const throw() { return message.c_str(); }
  friend std::ostream &operator<<(std::ostream &os, const ExceptionAbstract &e) { return os << e.message; }
};
inline std::string dgstub_msg(const std::string &m, const char *f, va_list a) {
  char b[512]; vsnprintf(b, sizeof b, f, a); return m + b;
}
#define DGSTUB_EXC(NAME, ...)                                             \
  class NAME : public ExceptionAbstract {                                 \
   public:                                                                \
    enum ErrorCodeEnum { __VA_ARGS__ };                                   \
    NAME(const ErrorCodeEnum &c, const std::string &m = "") : ExceptionAbstract(c, m) {} \
    NAME(const ErrorCodeEnum &c, const std::string &m, const char *f, ...) : ExceptionAbstract(c, m) { \
      va_list a; va_start(a, f); message = dgstub_msg(m, f, a); va_end(a); } \
    virtual ~NAME() throw() {}                                            \
    virtual const std::string &getExceptionName() const { static std::string n(#NAME); return n; } \
  };
DGSTUB_EXC(ExceptionSignal, GENERIC = 100, READWRITE_LOCK, COPY_NOT_INITIALIZED, NOT_INITIALIZED, PLUG_IMPOSSIBLE, SET_IMPOSSIBLE, BAD_CAST)
DGSTUB_EXC(ExceptionFactory, GENERIC_F = 300, UNREFERED_OBJECT, UNREFERED_SIGNAL, UNREFERED_FUNCTION, DYNAMIC_LOADING, SIGNAL_CONFLICT, FUNCTION_CONFLICT, OBJECT_CONFLICT, SYNTAX_ERROR, READ_FILE)
DGSTUB_EXC(ExceptionTraces, GENERIC_T = 700, NOT_OPEN)
#define DG_THROW throw
#define DG_RETHROW catch (dynamicgraph::ExceptionAbstract &) { throw; }

}  // namespace dynamicgraph
// ---------------------------------------------------------------- text form of matrices: [n](a,b) and [r,c]((a,b),(c,d))
namespace Eigen {
inline bool dgstub_c(std::istream &is, char want) { char c; return (is >> c) && c == want; }
inline std::istringstream &operator>>(std::istringstream &is, dynamicgraph::Vector &v) {
  unsigned n = 0;
  if (!dgstub_c(is, '[') || !(is >> n) || !dgstub_c(is, ']') || !dgstub_c(is, '(')) throw dynamicgraph::ExceptionSignal(dynamicgraph::ExceptionSignal::GENERIC, "bad vector format");
  v.resize(n);
  for (unsigned k = 0; k < n; ++k) { if (!(is >> v(k)) || !dgstub_c(is, k + 1 == n ? ')' : ',')) throw dynamicgraph::ExceptionSignal(dynamicgraph::ExceptionSignal::GENERIC, "bad vector format"); }
  return is;
}
inline std::istringstream &operator>>(std::istringstream &is, dynamicgraph::Matrix &m) {
  unsigned r = 0, c = 0;
  if (!dgstub_c(is, '[') || !(is >> r) || !dgstub_c(is, ',') || !(is >> c) || !dgstub_c(is, ']') || !dgstub_c(is, '(')) throw dynamicgraph::ExceptionSignal(dynamicgraph::ExceptionSignal::GENERIC, "bad matrix format");
  m.resize(r, c);
  for (unsigned i = 0; i < r; ++i) {
    if (!dgstub_c(is, '(')) throw dynamicgraph::ExceptionSignal(dynamicgraph::ExceptionSignal::GENERIC, "bad matrix format");
    for (unsigned j = 0; j < c; ++j) { if (!(is >> m(i, j)) || !dgstub_c(is, j + 1 == c ? ')' : ',')) throw dynamicgraph::ExceptionSignal(dynamicgraph::ExceptionSignal::GENERIC, "bad matrix format"); }
    if (!dgstub_c(is, i + 1 == r ? ')' : ',')) throw dynamicgraph::ExceptionSignal(dynamicgraph::ExceptionSignal::GENERIC, "bad matrix format");
  }
  return is;
}
inline std::ostream &operator<<(std::ostream &os, const Transform<double, 3, Affine> &t) { return os << t.matrix(); }
inline std::ostream &operator<<(std::ostream &os, const Quaternion<double> &q) { return os << q.coeffs().transpose(); }
inline std::ostream &operator<<(std::ostream &os, const AngleAxis<double> &q) { return os << q.angle() << " " << q.axis().transpose(); }
}  // namespace Eigen
namespace dynamicgraph {
// ---------------------------------------------------------------- signals
template <class Time>
class SignalBase {
 public:
  explicit SignalBase(std::string n = "") : name(n), signalTime(), ready(false) {}
  virtual ~SignalBase() {}
  SignalBase(const SignalBase &) = delete;
  SignalBase &operator=(const SignalBase &) = delete;
  virtual const Time &getTime() const { return signalTime; }
  virtual void setTime(const Time &t) { signalTime = t; }
  const bool &getReady() const { return ready; }
  const std::string &getName() const { return name; }
  virtual void getClassName(std::string &c) const { c = typeid(this).name(); }
  virtual void setPeriodTime(const Time &) {}
  virtual Time getPeriodTime() const { return 1; }
  virtual void addDependency(const SignalBase<Time> &) {}
  virtual void removeDependency(const SignalBase<Time> &) {}
  virtual void clearDependencies() {}
  virtual bool needUpdate(const Time &) const { return ready; }
  inline void setReady(const bool sready = true) { ready = sready; }
  virtual std::ostream &writeGraph(std::ostream &os) const { return os; }
  virtual std::ostream &displayDependencies(std::ostream &os, const int = -1, std::string space = "", std::string next1 = "", std::string = "") const {
    return os << space << next1 << name;
  }
  virtual void plug(SignalBase<Time> *) { throw ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE, "plug impossible: " + name); }
  virtual void unplug() { throw ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE, "unplug impossible: " + name); }
  virtual bool isPlugged() const { return false; }
  virtual SignalBase<Time> *getPluged() const { return NULL; }
  virtual void setConstantDefault() { throw ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE, "no default: " + name); }
  virtual void set(std::istringstream &) { throw ExceptionSignal(ExceptionSignal::SET_IMPOSSIBLE, "set impossible: " + name); }
  virtual void get(std::ostream &) const {}
  virtual void trace(std::ostream &os) const { get(os); }
  virtual void recompute(const Time &) {}
  virtual std::ostream &display(std::ostream &os) const { return os << "Sig:" << name; }
  std::string shortName() const { size_t p = name.rfind(':'); return name.substr(p + 1); }
  void ExtractNodeAndLocalNames(std::string &l, std::string &n) const {
    size_t a = name.find('('), b = name.find(')'); n = name.substr(a + 1, b - a - 1); l = shortName();
  }
  friend std::ostream &operator<<(std::ostream &os, const SignalBase<Time> &s) { return s.display(os); }

 protected:
  std::string name;
  Time signalTime;
  bool ready;
};

template <class Time>
class SignalArray {
 public:
  std::vector<SignalBase<Time> *> array;
  SignalArray(int = 0) {}
  SignalArray(SignalBase<Time> &s) { array.push_back(&s); }
  SignalArray<Time> &operator<<(SignalBase<Time> &s) { array.push_back(&s); return *this; }
  SignalArray<Time> &operator<<(const SignalArray<Time> &s) { array.insert(array.end(), s.array.begin(), s.array.end()); return *this; }
  SignalArray<Time> &push_back(SignalBase<Time> &s) { array.push_back(&s); return *this; }
  SignalBase<Time> &operator[](unsigned k) const { return *array[k]; }
  unsigned getSize() const { return (unsigned)array.size(); }
};
template <class Time>
SignalArray<Time> operator<<(SignalBase<Time> &a, SignalBase<Time> &b) { SignalArray<Time> r(a); r << b; return r; }
template <class Time>
class SignalArray_const {
 public:
  std::vector<const SignalBase<Time> *> array;
  SignalArray_const(int = 0) {}
  SignalArray_const(const SignalBase<Time> &s) { array.push_back(&s); }
  SignalArray_const(const SignalArray<Time> &s) : array(s.array.begin(), s.array.end()) {}
  SignalArray_const<Time> &operator<<(const SignalBase<Time> &s) { array.push_back(&s); return *this; }
  const SignalBase<Time> &operator[](unsigned k) const { return *array[k]; }
  unsigned getSize() const { return (unsigned)array.size(); }
};
static const SignalArray<int> sotNOSIGNAL(0);

template <typename T>
struct signal_io_base {
  static void disp(const T &v, std::ostream &os) { os << v << '\n'; }
  static T cast(std::istringstream &is) {
    T v; is >> v;
    if (is.fail()) throw ExceptionSignal(ExceptionSignal::GENERIC, "failed to deserialize");
    return v;
  }
  static void trace(const T &v, std::ostream &os) { disp(v, os); }
};
template <typename T>
struct signal_io_unimplemented {
  static void disp(const T &, std::ostream &) { throw std::logic_error("this disp is not implemented."); }
  static T cast(std::istringstream &) { throw std::logic_error("this cast is not implemented."); }
  static void trace(const T &, std::ostream &) { throw std::logic_error("this trace is not implemented."); }
};
template <typename T> struct signal_io : signal_io_base<T> {};
template <> inline void signal_io_base<Vector>::disp(const Vector &v, std::ostream &os) {
  os << "[" << v.size() << "]("; for (int k = 0; k < v.size(); ++k) os << (k ? "," : "") << v[k]; os << ")\n";
}

template <class T, class Time>
class Signal : public SignalBase<Time> {
 public:
  typedef boost::function2<T &, T &, Time> t_function;
  typedef boost::timed_mutex Mutex;
  enum SignalType { CONSTANT, REFERENCE, REFERENCE_NON_CONST, FUNCTION };
  Signal(std::string n) : SignalBase<Time>(n), signalType(CONSTANT), Treference(NULL), TreferenceNonConst(NULL), Tcopy1(), Tcopy2(), Tcopy(&Tcopy1), copyInit(false), keepReference(false) {}
  virtual ~Signal() {}
  virtual void get(std::ostream &os) const { signal_io<T>::disp(accessCopy(), os); }
  virtual std::ostream &display(std::ostream &os) const {
    os << "Sig:" << this->name << " (Type "; 
    switch (signalType) { case CONSTANT: os << "Cst"; break; case REFERENCE: os << "Ref"; break; case REFERENCE_NON_CONST: os << "RefNonCst"; break; default: os << "Fun"; }
    return os << ")";
  }
  virtual void setConstant(const T &t) { signalType = CONSTANT; setTcopy(t); this->setReady(); }
  virtual void setReference(const T *t, Mutex * = NULL) { signalType = REFERENCE; Treference = t; copyInit = false; this->setReady(); }
  virtual void setReferenceNonConstant(T *t, Mutex * = NULL) { signalType = REFERENCE_NON_CONST; Treference = t; TreferenceNonConst = t; copyInit = false; this->setReady(); }
  virtual void setFunction(t_function t, Mutex * = NULL) { signalType = FUNCTION; Tfunction = t; copyInit = false; this->setReady(); }
  bool getKeepReference() { return keepReference; }
  void setKeepReference(const bool &b) { keepReference = b; }
  virtual const T &access(const Time &t) {
    switch (signalType) {
      case REFERENCE:
      case REFERENCE_NON_CONST:
        this->setTime(t); setTcopy(*Treference); return accessCopy();
      case FUNCTION:
        this->signalTime = t;
        setTcopy(Tfunction(getTwork(), t));
        return accessCopy();
      default:
        if (this->getReady()) { this->setReady(false); this->setTime(t); }
        return accessCopy();
    }
  }
  virtual void recompute(const Time &t) { access(t); }
  virtual const T &operator()(const Time &t) { return access(t); }
  virtual Signal<T, Time> &operator=(const T &t) {
    if (keepReference && signalType == REFERENCE_NON_CONST && TreferenceNonConst) *TreferenceNonConst = t; else setConstant(t);
    return *this;
  }
  operator const T &() const { return accessCopy(); }
  virtual const T &accessCopy() const { return *Tcopy; }

 protected:
  SignalType signalType;
  const T *Treference;
  T *TreferenceNonConst;
  t_function Tfunction;
  T Tcopy1, Tcopy2;
  T *Tcopy;
  bool copyInit;
  bool keepReference;
  virtual const T &setTcopy(const T &t) {
    T *o = (Tcopy == &Tcopy1) ? &Tcopy2 : &Tcopy1;
    if (o != &t) *o = t;
    Tcopy = o; copyInit = true;
    return *Tcopy;
  }
  virtual T &getTwork() { return Tcopy == &Tcopy1 ? Tcopy2 : Tcopy1; }
};

template <class T, class Time>
class SignalPtr : public virtual Signal<T, Time> {
 protected:
  Signal<T, Time> *signalPtr;
  bool modeNoThrow;
  bool transmitAbstract;
  SignalBase<Time> *abstractTransmitter;
  bool autoref() const { return signalPtr == this; }

 public:
  SignalPtr(Signal<T, Time> *ptr, std::string n = "") : Signal<T, Time>(n), signalPtr(NULL), modeNoThrow(false), transmitAbstract(false), abstractTransmitter(NULL) { if (ptr) plug(ptr); }
  virtual ~SignalPtr() { signalPtr = NULL; }
  Signal<T, Time> *getPtr() {
    if (!signalPtr) throw ExceptionSignal(ExceptionSignal::NOT_INITIALIZED, "In SignalPtr: SIN ptr not set.", " (in signal <%s>)", this->getName().c_str());
    return signalPtr;
  }
  const Signal<T, Time> *getPtr() const { return const_cast<SignalPtr *>(this)->getPtr(); }
  SignalBase<Time> *getAbstractPtr() { return getPtr(); }
  virtual void plug(SignalBase<Time> *u) {
    if (!u) { signalPtr = NULL; return; }
    Signal<T, Time> *s = dynamic_cast<Signal<T, Time> *>(u);
    if (!s) throw ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE, "Compl. Uncompatible types for plugging.", "(while trying to plug <%s> on <%s>)", u->getName().c_str(), this->getName().c_str());
    signalPtr = s;
    this->setReady();
  }
  virtual void unplug() { plug(NULL); }
  virtual bool isPlugged() const { return NULL != signalPtr; }
  virtual SignalBase<Time> *getPluged() const { return signalPtr; }
  virtual bool isAbstractPluged() const { return false; }
  virtual bool needUpdate(const Time &t) const {
    if (isPlugged() && !autoref()) return signalPtr->needUpdate(t);
    return Signal<T, Time>::needUpdate(t);
  }
  virtual const Time &getTime() const {
    if (isPlugged() && !autoref()) return signalPtr->getTime();
    return Signal<T, Time>::getTime();
  }
  virtual void setConstant(const T &t) { plug(this); Signal<T, Time>::setConstant(t); }
  virtual void setReference(const T *t, typename Signal<T, Time>::Mutex *m = NULL) { plug(this); Signal<T, Time>::setReference(t, m); }
  virtual void setReferenceNonConstant(T *t, typename Signal<T, Time>::Mutex *m = NULL) { plug(this); Signal<T, Time>::setReferenceNonConstant(t, m); }
  virtual void setFunction(typename Signal<T, Time>::t_function f, typename Signal<T, Time>::Mutex *m = NULL) { plug(this); Signal<T, Time>::setFunction(f, m); }
  virtual void setConstantDefault(const T &t) { modeNoThrow = true; Signal<T, Time>::setTcopy(t); }
  virtual void setConstantDefault() { setConstantDefault(this->accessCopy()); }
  inline void unsetConstantDefault() { modeNoThrow = false; }
  virtual const T &operator()(const Time &t) { return access(t); }
  virtual const T &access(const Time &t) {
    if (modeNoThrow && !isPlugged() && Signal<T, Time>::copyInit) return Signal<T, Time>::accessCopy();
    if (autoref()) return Signal<T, Time>::access(t);
    const T &r = getPtr()->access(t);
    if (modeNoThrow) { Signal<T, Time>::copyInit = true; Signal<T, Time>::setTcopy(r); }
    return r;
  }
  virtual const T &accessCopy() const {
    if (modeNoThrow && !isPlugged() && Signal<T, Time>::copyInit) return Signal<T, Time>::accessCopy();
    if (autoref()) return Signal<T, Time>::accessCopy();
    return getPtr()->accessCopy();
  }
  virtual std::ostream &display(std::ostream &os) const {
    os << "SIG:" << this->name;
    if (!isPlugged()) os << " UNPLUGGED"; else if (autoref()) os << " CST"; else os << " -->-- " << signalPtr->getName();
    return os;
  }
  virtual std::ostream &displayDependencies(std::ostream &os, const int d = -1, std::string s = "", std::string n1 = "", std::string n2 = "") const {
    if (signalPtr && !autoref()) { os << s << n1 << "-- " << this->name << " -->-- "; return getPtr()->displayDependencies(os, d, s, "", n2); }
    return SignalBase<Time>::displayDependencies(os, d, s, n1, n2);
  }
  using Signal<T, Time>::operator=;
  virtual SignalPtr<T, Time> &operator=(const T &t) { setConstant(t); return *this; }
};

template <class Time>
struct TimeDependency {
  enum DependencyType { TIME_DEPENDENT, BOOL_DEPENDENT, ALWAYS_READY };
  mutable Time lastAskForUpdate;
  SignalBase<Time> &leader;
  typedef std::list<const SignalBase<Time> *> Dependencies;
  Dependencies dependencies;
  bool updateFromAllChildren;
  DependencyType dependencyType;
  Time periodTime;
  TimeDependency(SignalBase<Time> *sig, const DependencyType dep = TIME_DEPENDENT) : leader(*sig), updateFromAllChildren(false), dependencyType(dep), periodTime(1) {}
  TimeDependency(SignalBase<Time> *sig, const SignalArray_const<Time> &arr, const DependencyType dep = TIME_DEPENDENT) : TimeDependency(sig, dep) {
    for (auto *s : arr.array) addDependency(*s);
  }
  virtual ~TimeDependency() {}
  void addDependencies(const SignalArray_const<Time> &a) { for (auto *s : a.array) addDependency(*s); }
  virtual void addDependency(const SignalBase<Time> &s) { dependencies.push_front(&s); }
  virtual void removeDependency(const SignalBase<Time> &s) { dependencies.remove(&s); }
  virtual void clearDependency() { dependencies.clear(); }
  virtual bool needUpdate(const Time &t) const {
    switch (dependencyType) {
      case BOOL_DEPENDENT: {
        bool res = leader.getReady();
        if (!res) for (auto *s : dependencies) if (s->needUpdate(t)) { res = true; break; }
        return res;
      }
      case ALWAYS_READY: return true;
      default: {
        if (t < leader.getTime() + periodTime) return false;
        bool res = leader.getReady();
        if (dependencies.empty()) res = true;
        if (!res) for (auto *s : dependencies) {
          if (s->needUpdate(t)) { res = true; if (!updateFromAllChildren) break; }
          else if (s->getTime() > leader.getTime()) { res = true; if (!updateFromAllChildren) break; }
        }
        return res;
      }
    }
  }
  std::ostream &displayDependencies(std::ostream &os, const int depth, std::string space, std::string next1, std::string next2) const {
    leader.SignalBase<Time>::displayDependencies(os, depth, space, next1, next2);
    if (depth != 0) for (auto *s : dependencies) { os << std::endl; s->displayDependencies(os, depth - 1, space + "  ", "", ""); }
    return os;
  }
  void setDependencyType(DependencyType d) { dependencyType = d; }
  void setNeedUpdateFromAllChildren(const bool b = true) { updateFromAllChildren = b; }
  bool getNeedUpdateFromAllChildren() const { return updateFromAllChildren; }
  void setPeriodTime(const Time &p) { periodTime = p; }
  Time getPeriodTime() const { return periodTime; }
};

template <class T, class Time>
class SignalTimeDependent : public virtual Signal<T, Time>, public TimeDependency<Time> {
 public:
  SignalTimeDependent(std::string n = "") : Signal<T, Time>(n), TimeDependency<Time>(this) {}
  SignalTimeDependent(const SignalArray_const<Time> &arr, std::string n = "") : Signal<T, Time>(n), TimeDependency<Time>(this, arr) {}
  SignalTimeDependent(boost::function2<T &, T &, Time> t, const SignalArray_const<Time> &sig, std::string n = "") : Signal<T, Time>(n), TimeDependency<Time>(this, sig) { this->setFunction(t); }
  virtual ~SignalTimeDependent() {}
  inline const T &operator()(const Time &t) { return access(t); }
  const T &access(const Time &t) {
    if (TimeDependency<Time>::needUpdate(t)) {
      const T &r = Signal<T, Time>::access(t);
      SignalBase<Time>::setReady(false);
      return r;
    }
    return Signal<T, Time>::accessCopy();
  }
  virtual void recompute(const Time &t) { access(t); }
  virtual void addDependency(const SignalBase<Time> &s) { TimeDependency<Time>::addDependency(s); }
  virtual void removeDependency(const SignalBase<Time> &s) { TimeDependency<Time>::removeDependency(s); }
  virtual void clearDependencies() { TimeDependency<Time>::clearDependency(); }
  virtual bool needUpdate(const Time &t) const { return TimeDependency<Time>::needUpdate(t); }
  virtual void setPeriodTime(const Time &p) { TimeDependency<Time>::setPeriodTime(p); }
  virtual Time getPeriodTime() const { return TimeDependency<Time>::getPeriodTime(); }
  std::ostream &display(std::ostream &os) const { return Signal<T, Time>::display(os); }
  std::ostream &displayDependencies(std::ostream &os, const int d = -1, std::string s = "", std::string n1 = "", std::string n2 = "") const {
    return TimeDependency<Time>::displayDependencies(os, d, s, n1, n2);
  }
  using Signal<T, Time>::operator=;
  SignalTimeDependent &operator=(const T &t) { Signal<T, Time>::operator=(t); return *this; }
};

// ---------------------------------------------------------------- loggers
enum MsgType {
  MSG_TYPE_TYPE_BITS = 15, MSG_TYPE_STREAM_BIT = 16,
  MSG_TYPE_DEBUG = 1, MSG_TYPE_INFO = 2, MSG_TYPE_WARNING = 4, MSG_TYPE_ERROR = 8,
  MSG_TYPE_DEBUG_STREAM = 17, MSG_TYPE_INFO_STREAM = 18, MSG_TYPE_WARNING_STREAM = 20, MSG_TYPE_ERROR_STREAM = 24
};
#define MSG_TYPE_DEBUG dynamicgraph::MSG_TYPE_DEBUG
#define MSG_TYPE_INFO dynamicgraph::MSG_TYPE_INFO
#define MSG_TYPE_WARNING dynamicgraph::MSG_TYPE_WARNING
#define MSG_TYPE_ERROR dynamicgraph::MSG_TYPE_ERROR
#define MSG_TYPE_DEBUG_STREAM dynamicgraph::MSG_TYPE_DEBUG_STREAM
#define MSG_TYPE_INFO_STREAM dynamicgraph::MSG_TYPE_INFO_STREAM
#define MSG_TYPE_WARNING_STREAM dynamicgraph::MSG_TYPE_WARNING_STREAM
#define MSG_TYPE_ERROR_STREAM dynamicgraph::MSG_TYPE_ERROR_STREAM
enum LoggerVerbosity { VERBOSITY_ALL, VERBOSITY_INFO_WARNING_ERROR, VERBOSITY_WARNING_ERROR, VERBOSITY_ERROR, VERBOSITY_NONE };
struct dgstub_null : std::ostream { dgstub_null() : std::ostream(NULL) {} };
inline std::ostream &dgstub_nullstream() { static dgstub_null n; n.clear(); n.setstate(std::ios::badbit); return n; }
// every message logged, for worlds that look at what was reported
inline std::vector<std::string> &dgstub_log() { static std::vector<std::string> v; return v; }
template <typename T> std::string toString(const T &v, const int precision = 3, const int width = -1) {
  std::stringstream ss; if (width > precision) ss << std::fixed << std::setw(width) << std::setprecision(precision) << v; else ss << std::fixed << std::setprecision(precision) << v; return ss.str();
}
template <typename T> std::string toString(const std::vector<T> &v, const int precision = 3, const int width = -1, const std::string sep = ", ") {
  std::string r; for (size_t k = 0; k < v.size(); ++k) r += (k ? sep : std::string()) + toString(v[k], precision, width); return r;
}
class Logger {
 public:
  Logger(double = 0.001, double = 5.) {}
  void countdown() {}
  void sendMsg(const std::string &m, MsgType, const std::string & = "") { if (dgstub_log().size() < 10000) dgstub_log().push_back(m); }
  std::ostream &stream(MsgType, const std::string & = "") { return dgstub_nullstream(); }
  std::ostream &stream(...) { return dgstub_nullstream(); }
  bool setTimeSample(double t) { ts_ = t; return true; }
  bool setStreamPrintPeriod(double t) { sp_ = t; return true; }
  double getTimeSample() { return ts_; }
  double getStreamPrintPeriod() { return sp_; }
  void setVerbosity(LoggerVerbosity v) { v_ = v; }
  LoggerVerbosity getVerbosity() { return v_; }
 private:
  double ts_ = 0.001, sp_ = 5; LoggerVerbosity v_ = VERBOSITY_ERROR;
};
class RealTimeLogger {
 public:
  static RealTimeLogger &instance() { static RealTimeLogger r; return r; }
  static void destroy() {}
  template <class T> void addOutputStream(const T &) {}
  std::ostream &front() { return dgstub_nullstream(); }
};
#define dgRTLOG() ::dynamicgraph::dgstub_nullstream()
#define dgADD_OSTREAM_TO_RTLOG(x)

#define SEND_MSG(msg, type) this->sendMsg(msg, type, std::string(__FILE__))
#define SEND_DEBUG_STREAM_MSG(msg) SEND_MSG(msg, MSG_TYPE_DEBUG_STREAM)
#define SEND_INFO_STREAM_MSG(msg) SEND_MSG(msg, MSG_TYPE_INFO_STREAM)
#define SEND_WARNING_STREAM_MSG(msg) SEND_MSG(msg, MSG_TYPE_WARNING_STREAM)
#define SEND_ERROR_STREAM_MSG(msg) SEND_MSG(msg, MSG_TYPE_ERROR_STREAM)
#define DYNAMIC_GRAPH_ENTITY_DEBUG(e) ::dynamicgraph::dgstub_nullstream()
#define DYNAMIC_GRAPH_ENTITY_INFO(e) ::dynamicgraph::dgstub_nullstream()
#define DYNAMIC_GRAPH_ENTITY_WARNING(e) ::dynamicgraph::dgstub_nullstream()
#define DYNAMIC_GRAPH_ENTITY_ERROR(e) ::dynamicgraph::dgstub_nullstream()
#define DYNAMIC_GRAPH_ENTITY_DEBUG_STREAM(e) ::dynamicgraph::dgstub_nullstream()
#define DYNAMIC_GRAPH_ENTITY_INFO_STREAM(e) ::dynamicgraph::dgstub_nullstream()
#define DYNAMIC_GRAPH_ENTITY_WARNING_STREAM(e) ::dynamicgraph::dgstub_nullstream()
#define DYNAMIC_GRAPH_ENTITY_ERROR_STREAM(e) ::dynamicgraph::dgstub_nullstream()
#define dgDEBUG(l) if (1) ; else ::dynamicgraph::dgstub_nullstream()
#define dgDEBUGIN(l) if (1) ; else ::dynamicgraph::dgstub_nullstream()
#define dgDEBUGOUT(l) if (1) ; else ::dynamicgraph::dgstub_nullstream()
#define dgDEBUGINOUT(l) if (1) ; else ::dynamicgraph::dgstub_nullstream()

// ---------------------------------------------------------------- entity & pool
namespace command {
class Command;
}
class Entity;
class PoolStorage {
 public:
  typedef std::map<std::string, Entity *> Entities;
  static PoolStorage *getInstance() { static PoolStorage *p = new PoolStorage; return p; }
  static void destroy();   // deletes the entities, as the library does
  void registerEntity(const std::string &n, Entity *e) {
    if (entityMap.count(n)) throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT, "Another entity already defined with the same name. ", "Entity name is <%s>.", n.c_str());
    entityMap[n] = e;
  }
  void deregisterEntity(const std::string &n) {
    if (!entityMap.erase(n)) throw ExceptionFactory(ExceptionFactory::UNREFERED_OBJECT, "Entity not defined yet. ", "Entity name is <%s>.", n.c_str());
  }
  Entity &getEntity(const std::string &n) {
    auto it = entityMap.find(n);
    if (it == entityMap.end()) throw ExceptionFactory(ExceptionFactory::UNREFERED_OBJECT, "Unknown entity.", " (while calling <%s>)", n.c_str());
    return *it->second;
  }
  const Entities &getEntityMap() const { return entityMap; }
  bool existEntity(const std::string &n) { return entityMap.count(n) != 0; }
  bool existEntity(const std::string &n, Entity *&e) { auto it = entityMap.find(n); if (it == entityMap.end()) return false; e = it->second; return true; }
  void clearPlugin(const std::string &n);
  SignalBase<int> &getSignal(std::istringstream &sigpath);
  void writeGraph(const std::string &) {}
  void writeCompletionList(std::ostream &) {}
 private:
  Entities entityMap;
};

class Entity {
 public:
  typedef std::map<std::string, SignalBase<int> *> SignalMap;
  typedef std::map<const std::string, command::Command *> CommandMap_t;
  explicit Entity(const std::string &n) : name(n) {
    if (name.empty()) { std::stringstream ss; ss << std::hex << (long)this; name = ss.str(); }
    entityRegistration();
  }
  virtual ~Entity();
  Entity(const Entity &) = delete;
  const std::string &getName() const { return name; }
  virtual const std::string &getClassName() const { static std::string n("Entity"); return n; }
  virtual std::string getDocString() const { return "No header documentation"; }
  bool hasSignal(const std::string &s) const { return signalMap.count(s) != 0; }
  SignalBase<int> &getSignal(const std::string &s) {
    auto it = signalMap.find(s);
    if (it == signalMap.end()) throw ExceptionFactory(ExceptionFactory::UNREFERED_SIGNAL, "The requested signal is not registered", ": %s", s.c_str());
    return *it->second;
  }
  const SignalBase<int> &getSignal(const std::string &s) const { return const_cast<Entity *>(this)->getSignal(s); }
  std::ostream &displaySignalList(std::ostream &os) const { for (auto &p : signalMap) os << *p.second << "\n"; return os; }
  virtual std::ostream &writeGraph(std::ostream &os) const { return os; }
  virtual std::ostream &writeCompletionList(std::ostream &os) const { return os; }
  virtual void display(std::ostream &os) const { os << getClassName() << ": " << name; }
  virtual SignalBase<int> *test() { return NULL; }
  virtual void test2(SignalBase<int> *) {}
  SignalMap getSignalMap() const { return signalMap; }
  const CommandMap_t &getNewStyleCommandMap() { return commandMap; }
  command::Command *getNewStyleCommand(const std::string &n) {
    auto it = commandMap.find(n);
    if (it == commandMap.end()) throw ExceptionFactory(ExceptionFactory::UNREFERED_FUNCTION, "Command <" + n + "> is not registered in Entity.");
    return it->second;
  }
  Logger &logger() { return logger_; }
  const Logger &logger() const { return logger_; }
  void setLoggerVerbosityLevel(LoggerVerbosity v) { logger_.setVerbosity(v); }
  LoggerVerbosity getLoggerVerbosityLevel() { return logger_.getVerbosity(); }
  bool setTimeSample(double t) { return logger_.setTimeSample(t); }
  double getTimeSample() { return logger_.getTimeSample(); }
  bool setStreamPrintPeriod(double t) { return logger_.setStreamPrintPeriod(t); }
  double getStreamPrintPeriod() { return logger_.getStreamPrintPeriod(); }
  void sendMsg(const std::string &m, MsgType t = MSG_TYPE_INFO, const std::string &l = "") { logger_.sendMsg(m, t, l); }
  friend std::ostream &operator<<(std::ostream &os, const Entity &e) { e.display(os); return os; }
  void addCommand(const std::string &n, command::Command *c);

 protected:
  void entityRegistration() { PoolStorage::getInstance()->registerEntity(name, this); }
  void entityDeregistration() { try { PoolStorage::getInstance()->deregisterEntity(name); } catch (...) {} }
  void signalRegistration(const SignalArray<int> &sigs) {
    for (auto *s : sigs.array) {
      std::string n = s->shortName();
      auto it = signalMap.find(n);
      if (it != signalMap.end()) {
        if (it->second != s) throw ExceptionFactory(ExceptionFactory::SIGNAL_CONFLICT, "Another signal already defined with the same name. ", "Signame is <%s>.", n.c_str());
        continue;
      }
      signalMap[n] = s;
    }
  }
  void signalDeregistration(const std::string &n) {
    if (!signalMap.erase(n)) throw ExceptionFactory(ExceptionFactory::UNREFERED_SIGNAL, "The requested signal is not registered", ": %s", n.c_str());
  }
  std::string name;
  SignalMap signalMap;
  CommandMap_t commandMap;
  Logger logger_;
};
inline SignalBase<int> &PoolStorage::getSignal(std::istringstream &path) {
  char o[200] = "", s[200] = "";
  path.getline(o, sizeof o, '.');
  path >> s;
  std::string on(o), sn(s);
  return getEntity(on).getSignal(sn);
}
inline void PoolStorage::clearPlugin(const std::string &n) { auto it = entityMap.find(n); if (it != entityMap.end()) delete it->second; }

class FactoryStorage {
 public:
  typedef Entity *(*EntityConstructor_ptr)(const std::string &);
  static FactoryStorage *getInstance() { static FactoryStorage *f = new FactoryStorage; return f; }
  void registerEntity(const std::string &n, EntityConstructor_ptr c) { m[n] = c; }
  Entity *newEntity(const std::string &c, const std::string &n) {
    auto it = m.find(c);
    if (it == m.end()) throw ExceptionFactory(ExceptionFactory::UNREFERED_OBJECT, "Unknown entity.", " (while calling new_entity <%s>)", c.c_str());
    return it->second(n);
  }
  bool existEntity(const std::string &n) { return m.count(n) != 0; }
  std::map<std::string, EntityConstructor_ptr> m;
};
class EntityRegisterer {
 public:
  EntityRegisterer(const std::string &n, FactoryStorage::EntityConstructor_ptr c) { FactoryStorage::getInstance()->registerEntity(n, c); }
};
template <class E> struct EntityHelper { typedef E EntityClassName; };
#define DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN_WITHOUT_NAME(CLASS, NAME)                                       \
  namespace { dynamicgraph::Entity *dgstub_make_##CLASS(const std::string &n) { return new CLASS(n); }     \
  struct dgstub_reg_##CLASS { dgstub_reg_##CLASS() { dynamicgraph::FactoryStorage::getInstance()->registerEntity(NAME, &dgstub_make_##CLASS); } } dgstub_regobj_##CLASS; }
#define DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(CLASS, NAME) \
  const std::string CLASS::CLASS_NAME = NAME;           \
  DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN_WITHOUT_NAME(CLASS, NAME)

// ---------------------------------------------------------------- values & commands
namespace command {
class EitherType;
class Value {
 public:
  enum Type { NONE, BOOL, UNSIGNED, INT, UINT64, FLOAT, DOUBLE, STRING, VECTOR, MATRIX, MATRIX4D, VALUES, NB_TYPES };
  Type t; boost::any a;
  Value() : t(NONE) {}
  explicit Value(const bool &v) : t(BOOL), a(v) {}
  explicit Value(const unsigned &v) : t(UNSIGNED), a(v) {}
  explicit Value(const unsigned long &v) : t(UINT64), a(v) {}
  explicit Value(const int &v) : t(INT), a(v) {}
  explicit Value(const float &v) : t(FLOAT), a(v) {}
  explicit Value(const double &v) : t(DOUBLE), a(v) {}
  explicit Value(const char *v) : t(STRING), a(std::string(v)) {}
  explicit Value(const std::string &v) : t(STRING), a(v) {}
  explicit Value(const Vector &v) : t(VECTOR), a(v) {}
  explicit Value(const Matrix &v) : t(MATRIX), a(v) {}
  explicit Value(const Eigen::Matrix4d &v) : t(MATRIX4D), a(v) {}
  explicit Value(const std::vector<Value> &v) : t(VALUES), a(v) {}
  Type type() const { return t; }
  EitherType value() const;
  bool boolValue() const { return boost::any_cast<bool>(a); }
  unsigned unsignedValue() const { return boost::any_cast<unsigned>(a); }
  int intValue() const { return boost::any_cast<int>(a); }
  float floatValue() const { return boost::any_cast<float>(a); }
  double doubleValue() const {
    switch (t) { case FLOAT: return boost::any_cast<float>(a); case INT: return boost::any_cast<int>(a); case UNSIGNED: return boost::any_cast<unsigned>(a); default: return boost::any_cast<double>(a); }
  }
  std::string stringValue() const { return boost::any_cast<std::string>(a); }
  Vector vectorValue() const { return boost::any_cast<Vector>(a); }
  Matrix matrixXdValue() const { return boost::any_cast<Matrix>(a); }
  Eigen::Matrix4d matrix4dValue() const { return boost::any_cast<Eigen::Matrix4d>(a); }
  std::vector<Value> valuesValue() const { return boost::any_cast<std::vector<Value> >(a); }
  const std::vector<Value> &constValuesValue() const { return *boost::any_cast<std::vector<Value> >(&a); }
  static std::string typeName(Type) { return "value"; }
};
typedef std::vector<Value> Values;
class EitherType {
  Value v;
 public:
  EitherType(const Value &x) : v(x) {}
  operator bool() const { return v.boolValue(); }
  operator unsigned() const { return v.t == Value::INT ? (unsigned)v.intValue() : v.unsignedValue(); }
  operator int() const { return v.t == Value::UNSIGNED ? (int)v.unsignedValue() : v.intValue(); }
  operator float() const { return v.t == Value::FLOAT ? v.floatValue() : (float)v.doubleValue(); }
  operator double() const { return v.doubleValue(); }
  operator std::string() const { return v.stringValue(); }
  operator Vector() const { return v.vectorValue(); }
  operator Matrix() const { return v.matrixXdValue(); }
  operator Eigen::Matrix4d() const { return v.matrix4dValue(); }
  operator Values() const { return v.valuesValue(); }
};
inline EitherType Value::value() const { return EitherType(*this); }
template <class T> struct ValueHelper;
template <Value::Type V> struct dgstub_Id { static const Value::Type TypeID = V; };
template <Value::Type V> const Value::Type dgstub_Id<V>::TypeID;
#define DGSTUB_VH(T, V) template <> struct ValueHelper<T> : dgstub_Id<Value::V> {};
DGSTUB_VH(bool, BOOL) DGSTUB_VH(unsigned, UNSIGNED) DGSTUB_VH(unsigned long, UINT64) DGSTUB_VH(int, INT) DGSTUB_VH(float, FLOAT) DGSTUB_VH(double, DOUBLE)
DGSTUB_VH(std::string, STRING) DGSTUB_VH(Vector, VECTOR) DGSTUB_VH(Matrix, MATRIX) DGSTUB_VH(Eigen::Matrix4d, MATRIX4D) DGSTUB_VH(Values, VALUES)

class Command {
 public:
  Command(Entity &e, const std::vector<Value::Type> &t, const std::string &d) : owner_(e), types_(t), doc_(d) {}
  virtual ~Command() {}
  const std::vector<Value::Type> &valueTypes() const { return types_; }
  void setParameterValues(const std::vector<Value> &v) {
    if (v.size() < types_.size()) throw ExceptionAbstract(ExceptionAbstract::TOOLS, "Invalid number of parameters");
    for (size_t k = 0; k < types_.size(); ++k) if (v[k].type() != types_[k]) {
      bool num = (v[k].type() == Value::INT || v[k].type() == Value::UNSIGNED || v[k].type() == Value::FLOAT || v[k].type() == Value::DOUBLE) &&
                 (types_[k] == Value::INT || types_[k] == Value::UNSIGNED || types_[k] == Value::FLOAT || types_[k] == Value::DOUBLE);
      if (!num) throw ExceptionAbstract(ExceptionAbstract::TOOLS, "Invalid parameter type");
    }
    values_ = v;
  }
  const std::vector<Value> &getParameterValues() const { return values_; }
  Value execute() { return doExecute(); }
  Entity &owner() { return owner_; }
  std::string getDocstring() const { return doc_; }
 protected:
  virtual Value doExecute() = 0;
 private:
  Entity &owner_;
  std::vector<Value::Type> types_;
  std::vector<Value> values_;
  std::string doc_;
};
template <class T> using dgstub_plain = typename std::remove_const<typename std::remove_reference<T>::type>::type;

template <class E, typename T>
class Setter : public Command {
  typedef void (E::*F)(const T &);
  F f;
 public:
  Setter(E &e, F g, const std::string &d) : Command(e, {ValueHelper<T>::TypeID}, d), f(g) {}
 protected:
  virtual Value doExecute() { T v = getParameterValues()[0].value(); (static_cast<E &>(owner()).*f)(v); return Value(); }
};
template <class E, typename T>
class Getter : public Command {
  typedef T (E::*F)() const;
  F f;
 public:
  Getter(E &e, F g, const std::string &d) : Command(e, {}, d), f(g) {}
 protected:
  virtual Value doExecute() { return Value(dgstub_plain<T>((static_cast<E &>(owner()).*f)())); }
};
template <typename T> class DirectSetter : public Command {
  T *p;
 public:
  DirectSetter(Entity &e, T *x, const std::string &d) : Command(e, {ValueHelper<T>::TypeID}, d), p(x) {}
 protected:
  virtual Value doExecute() { T v = getParameterValues()[0].value(); *p = v; return Value(); }
};
template <typename T> class DirectGetter : public Command {
  T *p;
 public:
  DirectGetter(Entity &e, T *x, const std::string &d) : Command(e, {}, d), p(x) {}
 protected:
  virtual Value doExecute() { return Value(*p); }
};
template <typename T> DirectSetter<T> *makeDirectSetter(Entity &e, T *p, const std::string &d) { return new DirectSetter<T>(e, p, d); }
template <typename T> DirectGetter<T> *makeDirectGetter(Entity &e, T *p, const std::string &d) { return new DirectGetter<T>(e, p, d); }
inline std::string docDirectSetter(const std::string &n, const std::string &t) { return "Set " + n + " (" + t + ")"; }
inline std::string docDirectGetter(const std::string &n, const std::string &t) { return "Get " + n + " (" + t + ")"; }

// any callable, n arguments
class dgstub_Fn : public Command {
 public:
  typedef std::function<Value(const std::vector<Value> &)> F;
  F f;
  dgstub_Fn(Entity &e, const std::vector<Value::Type> &t, F g, const std::string &d) : Command(e, t, d), f(g) {}
 protected:
  virtual Value doExecute() { return f(getParameterValues()); }
};
template <class A> A dgstub_arg(const std::vector<Value> &v, size_t k) { A a = v[k].value(); return a; }
template <class... A, class Fun, size_t... I>
dgstub_Fn *dgstub_void(Entity &e, Fun fn, const std::string &d, std::index_sequence<I...>) {
  return new dgstub_Fn(e, std::vector<Value::Type>{ValueHelper<dgstub_plain<A> >::TypeID...},
                       [fn](const std::vector<Value> &v) { (void)v; fn(dgstub_arg<dgstub_plain<A> >(v, I)...); return Value(); }, d);
}
template <class R, class... A, class Fun, size_t... I>
dgstub_Fn *dgstub_ret(Entity &e, Fun fn, const std::string &d, std::index_sequence<I...>) {
  return new dgstub_Fn(e, std::vector<Value::Type>{ValueHelper<dgstub_plain<A> >::TypeID...},
                       [fn](const std::vector<Value> &v) { (void)v; return Value(dgstub_plain<R>(fn(dgstub_arg<dgstub_plain<A> >(v, I)...))); }, d);
}
template <class E, class... A> dgstub_Fn *dgstub_member(E &e, void (E::*m)(A...), const std::string &d) {
  E *p = &e; return dgstub_void<A...>(e, [p, m](const dgstub_plain<A> &...a) { (p->*m)(a...); }, d, std::index_sequence_for<A...>());
}
#define DGSTUB_VOID(N, ...)                                                                             \
  template <class E BOOST_PP_ENUM_TRAILING_PARAMS(N, class A)> dgstub_Fn *makeCommandVoid##N(E &e, void (E::*m)(BOOST_PP_ENUM_PARAMS(N, A)), const std::string &d) { return dgstub_member(e, m, d); } \
  template <class E, class... A> dgstub_Fn *makeCommandVoid##N(E &e, boost::function<void(const A &...)> f, const std::string &d) { \
    return dgstub_void<A...>(e, [f](const dgstub_plain<A> &...a) { f(a...); }, d, std::index_sequence_for<A...>()); } \
  template <class... S> std::string docCommandVoid##N(const std::string &d, const S &...) { return d; }
DGSTUB_VOID(0) DGSTUB_VOID(1) DGSTUB_VOID(2) DGSTUB_VOID(3) DGSTUB_VOID(4) DGSTUB_VOID(5) DGSTUB_VOID(6) DGSTUB_VOID(7) DGSTUB_VOID(8)
#define DGSTUB_RET(N)                                                                                    \
  template <class E, class R, class... A> dgstub_Fn *makeCommandReturnType##N(E &e, R (E::*m)(A...), const std::string &d) { \
    E *p = &e; return dgstub_ret<R, A...>(e, [p, m](const dgstub_plain<A> &...a) { return (p->*m)(a...); }, d, std::index_sequence_for<A...>()); } \
  template <class E, class R, class... A> dgstub_Fn *makeCommandReturnType##N(E &e, R (E::*m)(A...) const, const std::string &d) { \
    E *p = &e; return dgstub_ret<R, A...>(e, [p, m](const dgstub_plain<A> &...a) { return (p->*m)(a...); }, d, std::index_sequence_for<A...>()); }
DGSTUB_RET(0) DGSTUB_RET(1) DGSTUB_RET(2)
template <class E> dgstub_Fn *makeCommandVerbose(E &e, void (E::*m)(std::ostream &), const std::string &d) {
  E *p = &e; return new dgstub_Fn(e, {}, [p, m](const std::vector<Value> &) { std::ostringstream o; (p->*m)(o); return Value(o.str()); }, d);
}
template <class E> dgstub_Fn *makeCommandVerbose(E &e, void (E::*m)(std::ostream &) const, const std::string &d) {
  E *p = &e; return new dgstub_Fn(e, {}, [p, m](const std::vector<Value> &) { std::ostringstream o; (p->*m)(o); return Value(o.str()); }, d);
}
template <class R> std::string docCommandReturnType0(const std::string &d) { return d; }
template <class R> std::string docCommandReturnType1(const std::string &d, const std::string & = "") { return d; }
template <class R> std::string docCommandReturnType2(const std::string &d, const std::string & = "", const std::string & = "") { return d; }
inline std::string docCommandVerbose(const std::string &d) { return d; }
}  // namespace command
inline void PoolStorage::destroy() { auto &m = getInstance()->entityMap; while (!m.empty()) { Entity *e = m.begin()->second; m.erase(m.begin()); delete e; } }
inline Entity::~Entity() { entityDeregistration(); for (auto &c : commandMap) delete c.second; }
inline void Entity::addCommand(const std::string &n, command::Command *c) {
  if (commandMap.count(n)) throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT, "Command " + n + " already registered in Entity.");
  commandMap[n] = c;
}
}  // namespace dynamicgraph

// ---------------------------------------------------------------- helper macros
#define DECLARE_SIGNAL(name, IN_OR_OUT, type) ::dynamicgraph::SignalPtr<type, int> m_##name##S##IN_OR_OUT
#define CONSTRUCT_SIGNAL(name, IN_OR_OUT, type) m_##name##S##IN_OR_OUT(NULL, getClassName() + "(" + getName() + ")::" + #IN_OR_OUT + "put(" + #type + ")::" + #name)
#define BIND_SIGNAL_TO_FUNCTION(name, IN_OR_OUT, type) m_##name##S##IN_OR_OUT.setFunction(boost::bind(&EntityClassName::compute_##name, this, _1, _2));
#define DECLARE_SIGNAL_IN(name, type) ::dynamicgraph::SignalPtr<type, int> m_##name##SIN
#define CONSTRUCT_SIGNAL_IN(name, type) m_##name##SIN(NULL, getClassName() + "(" + getName() + ")::input(" + #type + ")::" + #name)
#define DECLARE_SIGNAL_OUT_FUNCTION(name, type) type &get_##name##SOUT_unused(type &, int)
#define SIGNAL_OUT_FUNCTION(name) name##SOUT_function
#define DECLARE_SIGNAL_OUT(name, type)                          \
 public:                                                        \
  ::dynamicgraph::SignalTimeDependent<type, int> m_##name##SOUT; \
 protected:                                                     \
  type &SIGNAL_OUT_FUNCTION(name)(type &, int)
#define CONSTRUCT_SIGNAL_OUT(name, type, dep) m_##name##SOUT(boost::bind(&EntityClassName::SIGNAL_OUT_FUNCTION(name), this, _1, _2), dep, getClassName() + "(" + getName() + ")::output(" + #type + ")::" + #name)
#define DEFINE_SIGNAL_OUT_FUNCTION(name, type) type &EntityClassName::SIGNAL_OUT_FUNCTION(name)(type & s, int iter)
#define SIGNAL_INNER_FUNCTION(name) name##SINNER_function
#define DECLARE_SIGNAL_INNER(name, type)                          \
 public:                                                          \
  ::dynamicgraph::SignalTimeDependent<type, int> m_##name##SINNER; \
 protected:                                                       \
  type &SIGNAL_INNER_FUNCTION(name)(type &, int)
#define CONSTRUCT_SIGNAL_INNER(name, type, dep) m_##name##SINNER(boost::bind(&EntityClassName::SIGNAL_INNER_FUNCTION(name), this, _1, _2), dep, getClassName() + "(" + getName() + ")::inner(" + #type + ")::" + #name)
#define DEFINE_SIGNAL_INNER_FUNCTION(name, type) type &EntityClassName::SIGNAL_INNER_FUNCTION(name)(type & s, int iter)

#endif
