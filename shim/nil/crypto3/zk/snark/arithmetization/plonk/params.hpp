#pragma once

#include <vp/all.hpp>
