/* Stand-in for LLNL/units. ASSUMED DEPENDENCY (opaque). */
#pragma once
#include <limits>
#include <string>
namespace units {
class precise_unit { public: double m{1.0}; };
precise_unit unit_from_string(const std::string& s);
bool is_valid(const precise_unit& u);
double convert(const precise_unit& a, const precise_unit& b);
double quick_convert(const precise_unit& a, const precise_unit& b);
}
