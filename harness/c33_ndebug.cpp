#undef NDEBUG
#define NDEBUG
#define DEBUG_ON false
#define MODE_FUNCTION mode_ndebug
#include "c33_assert_body.hpp"
