#include "antlr4-runtime/minirt.h"
