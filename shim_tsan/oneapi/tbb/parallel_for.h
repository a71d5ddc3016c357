#pragma once
#include "../../tbb/parallel_for.h"
