#include "dgstub.hh"
