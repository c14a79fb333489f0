// Stand-in for fmt (std=model units): formatted text is an arbitrary string.
#pragma once
#include "../hvcstd.hpp"
namespace fmt {
template<class... A>
inline std::string format(const A&...)
{
    std::string s;
    s.tok = hvc_any("formatted", 64);
    return s;
}
}  // namespace fmt
