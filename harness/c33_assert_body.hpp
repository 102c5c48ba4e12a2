// Included with different build modes; MODE names the mode, DEBUG_ON tells whether debug assertions are enabled.
#include <sstream>
#include <stdexcept>
#include <string>
#include <nil/blueprint/assert.hpp>
#include "c33_probe.hpp"

static int evaluated;
static bool condition(bool v) {
    evaluated++;
    return v;
}

probe MODE_FUNCTION(bool value, int which) {
    probe p;
    evaluated = 0;
    p.debug_on = DEBUG_ON;
    try {
        if (which == 0) {
            p.line = __LINE__; BLUEPRINT_RELEASE_ASSERT(condition(value) && "some message");
            p.expr = "condition(value) && \"some message\"";
        } else if (which == 1) {
            p.line = __LINE__; BLUEPRINT_ASSERT(condition(value));
        } else if (which == 2) {
            // as an expression statement under if/else without braces
            if (value || !value)
                BLUEPRINT_RELEASE_ASSERT(condition(value));
            else
                p.continued = true;
        } else {
            // precedence of the operand
            BLUEPRINT_RELEASE_ASSERT(condition(value) || condition(value));
        }
        p.continued = true;
    } catch (const std::runtime_error &e) {
        p.threw = true;
        p.what = e.what();
    }
    p.evaluated = evaluated;
    p.file = __FILE__;
    return p;
}
