// Eigen's own precondition checks report to the simulator (the repository is
// built with NDEBUG, as shipped).
#ifdef __cplusplus
extern "C" void sim_eigen_assert(const char* what, const char* file, int line) __attribute__((noreturn));
#define eigen_assert(x) do { if (!(x)) sim_eigen_assert(#x, __FILE__, __LINE__); } while (0)
#endif
