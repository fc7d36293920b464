#include "rvc_native.h"
#include <iterator>
#include "dset_common.h"
void search() { loop(false); }
