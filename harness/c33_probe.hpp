#pragma once
#include <string>
struct probe {
    bool debug_on = false, threw = false, continued = false;
    int evaluated = 0, line = 0;
    std::string what, file, expr;
};
probe mode_plain(bool, int);
probe mode_ndebug(bool, int);
probe mode_debug(bool, int);
probe mode_debug_ndebug(bool, int);
