#pragma once
#include <brigand/brigand.hpp>
