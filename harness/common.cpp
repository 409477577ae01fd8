#include "common.h"
// library-wide (static) settings are put back to their documented defaults before every path
extern "C" void harness_reset(){ Signal::BigM=10000.; Signal::semantics=Semantics::SPACE; Signal::interpol=Interpol::LINEAR; }
