#pragma once
#include "verif_shim_log.h"
