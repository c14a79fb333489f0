// Stand-in for nlohmann::json (std=model units): JSON output is not part of any property, every operation is a no-op.
#pragma once
#include "../hvcstd.hpp"
#include "json_fwd.hpp"
namespace nlohmann {
class json {
  public:
    class type_error: public std::exception {};
    class parse_error: public std::exception {};
    class exception: public std::exception {};
    json() = default;
    template<class T>
    json(const T&)
    {
    }
    json(const json&) = default;
    template<class T>
    json& operator=(const T&)
    {
        return *this;
    }
    json& operator=(const json&) = default;
    template<class K>
    json& operator[](const K&)
    {
        return *this;
    }
    template<class K>
    const json& operator[](const K&) const
    {
        return *this;
    }
    template<class K>
    json& at(const K&)
    {
        return *this;
    }
    template<class K>
    bool contains(const K&) const
    {
        return hvc::any<bool>("json contains");
    }
    template<class T>
    void push_back(const T&)
    {
    }
    template<class T>
    T get() const
    {
        return T();
    }
    static json array() { return {}; }
    static json object() { return {}; }
    static json parse(const std::string&) { return {}; }
    bool empty() const { return hvc::any<bool>("json empty"); }
    bool is_string() const { return hvc::any<bool>("json string"); }
    bool is_number() const { return hvc::any<bool>("json number"); }
    bool is_object() const { return hvc::any<bool>("json object"); }
    const json& front() const { return *this; }
    const json& back() const { return *this; }
    const json* begin() const { return this; }
    const json* end() const { return this; }
    bool is_array() const { return hvc::any<bool>("json array"); }
    std::size_t size() const { return hvc_any("json size", 64); }
    json* begin() { return this; }
    json* end() { return this; }
    enum class error_handler_t { strict, replace, ignore, hex };
    std::string dump(int = 0, char = ' ', bool = false, error_handler_t = error_handler_t::strict) const { return std::string("{}"); }
};
}  // namespace nlohmann
