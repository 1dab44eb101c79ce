// Primitives of the probe language.  None of these is ever linked or run: the analysis reads them off the IR.
#ifndef VERIF_PROBE_H
#define VERIF_PROBE_H
#include "probe_std.h"
#include "theoretica.h"
namespace th = theoretica;
using namespace theoretica;
#endif
