#pragma once

#include "plonk.hpp"
#include "curves.hpp"
#include "hashes.hpp"
#include "marshalling.hpp"
