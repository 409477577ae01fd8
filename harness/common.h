#pragma once
#include "sym.h"
#include <sstream>
#include <stdexcept>
#include <algorithm>
#include "stl_driver.h"
#include "signal.h"
using namespace STLRom;
