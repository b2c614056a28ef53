#ifndef VERIF_SOT_CORE_CONFIG
#define VERIF_SOT_CORE_CONFIG
#define SOT_CORE_VERSION "0.0.0"
#define SOT_CORE_DLLAPI
#define SOT_CORE_LOCAL
#endif
