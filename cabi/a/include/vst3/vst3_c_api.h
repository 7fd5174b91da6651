#include "../../../include/vst3/vst3_c_api.h"
