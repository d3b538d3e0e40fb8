#pragma once
#include "prog.h"
#include "ops.h"
