#include "absl/log/check.h"
