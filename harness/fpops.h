#pragma once
#include "fptypes.h"
#include "ops.h"
