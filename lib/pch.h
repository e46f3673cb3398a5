#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <memory>
#include <functional>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <fstream>
#include <cmath>
#include <cstring>
#include <mutex>
#include <thread>
#include <atomic>
#include <condition_variable>
#include "core/tensor.h"
#include "core/tensor_builder.h"
#include "runtime/operator.h"
#include "runtime/stack.h"
#include "runtime/workbench.h"
#include "backend/name.h"
#include "global/operator_factory.h"
#include "utils/assert.h"
