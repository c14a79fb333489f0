#pragma once
#include <cstddef>
#include <string>
#include <string_view>
namespace gmlc { namespace utilities {
std::string base64_encode(const void* data, std::size_t sz);
std::string base64_decode_to_string(std::string_view s);
}}
