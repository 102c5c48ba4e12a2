#undef NDEBUG
#define BLUEPRINT_DEBUG_ENABLED
#define DEBUG_ON true
#define MODE_FUNCTION mode_debug
#include "c33_assert_body.hpp"
