#include "upb/upb_shim.h"
