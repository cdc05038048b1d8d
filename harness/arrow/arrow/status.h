#include "arrow/api.h"
