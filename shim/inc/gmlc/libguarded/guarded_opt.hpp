#pragma once
#include "guarded.hpp"
