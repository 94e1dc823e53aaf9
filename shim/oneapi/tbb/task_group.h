#pragma once
#include "tbb/task_group.h"
