#undef NDEBUG
#define DEBUG_ON false
#define MODE_FUNCTION mode_plain
#include "c33_assert_body.hpp"
