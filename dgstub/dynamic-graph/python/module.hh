#include "../dgstub.hh"
