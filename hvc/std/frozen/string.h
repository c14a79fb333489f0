#pragma once
#include "../hvcstd.hpp"
namespace frozen {
using string = std::string_view;
}
