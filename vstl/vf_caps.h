#pragma once
#include <stdint.h>
#ifdef VF_CAPS_FILE
#include VF_CAPS_FILE
#endif
