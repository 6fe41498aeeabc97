// vectors plus the generic utilities
#pragma once
#include "hv.h"
#include <vif/utility/generic.hpp>
