#undef NDEBUG
#define NDEBUG
#define BLUEPRINT_DEBUG_ENABLED
#define DEBUG_ON true
#define MODE_FUNCTION mode_debug_ndebug
#include "c33_assert_body.hpp"
