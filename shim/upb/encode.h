#include "upb/upb_core.h"
