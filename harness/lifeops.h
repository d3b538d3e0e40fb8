#pragma once
#include "ops.h"
#include "life.h"
