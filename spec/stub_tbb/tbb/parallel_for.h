#pragma once
#include <tbb/blocked_range.h>
