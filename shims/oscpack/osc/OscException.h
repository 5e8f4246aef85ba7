#pragma once
#include "OscTypes.h"
