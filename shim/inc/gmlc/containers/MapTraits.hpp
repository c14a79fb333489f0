#pragma once
template<class T> struct is_easily_hashable { static constexpr bool value = false; };
