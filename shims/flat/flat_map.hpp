#pragma once
#include <flat/flat_base.hpp>
