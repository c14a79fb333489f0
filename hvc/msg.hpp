// Fixture: an arbitrary timing message.
#pragma once
#include "deps.hpp"

#include "helics/core/ActionMessage.cpp"
#ifndef HVC_MODEL_STD
// not used by any property: JSON text
namespace helics::fileops {
nlohmann::json loadJsonStr(std::string_view /*s*/)
{
    return {};
}
std::string generateJsonString(const nlohmann::json& /*b*/, bool /*h*/)
{
    return {};
}
}  // namespace helics::fileops
namespace gmlc::utilities {
std::string base64_encode(const void* /*d*/, std::size_t /*n*/)
{
    return {};
}
std::string base64_decode_to_string(std::string_view /*s*/)
{
    return {};
}
}  // namespace gmlc::utilities
#endif

namespace hvc {
using helics::ActionMessage;

/// any action code (native: mostly one that the timing code looks at)
inline helics::action_message_def::action_t someAction(const char* name)
{
    using namespace helics;
    auto v = hvc::any<std::int32_t>(name);
    if (!hvc_symbolic() && hvc_replaying() == 0) {
        static const std::int32_t A[] = {static_cast<std::int32_t>(CMD_EXEC_REQUEST), static_cast<std::int32_t>(CMD_EXEC_GRANT),
                                         static_cast<std::int32_t>(CMD_TIME_REQUEST), static_cast<std::int32_t>(CMD_TIME_GRANT),
                                         static_cast<std::int32_t>(CMD_DISCONNECT), static_cast<std::int32_t>(CMD_PRIORITY_DISCONNECT),
                                         static_cast<std::int32_t>(CMD_BROADCAST_DISCONNECT), static_cast<std::int32_t>(CMD_DISCONNECT_CORE),
                                         static_cast<std::int32_t>(CMD_DISCONNECT_BROKER), static_cast<std::int32_t>(CMD_DISCONNECT_FED),
                                         static_cast<std::int32_t>(CMD_TIMING_INFO), static_cast<std::int32_t>(CMD_LOCAL_ERROR),
                                         static_cast<std::int32_t>(CMD_GLOBAL_ERROR), static_cast<std::int32_t>(CMD_SEND_MESSAGE),
                                         static_cast<std::int32_t>(CMD_PUB), static_cast<std::int32_t>(CMD_REQUEST_CURRENT_TIME)};
        auto u = static_cast<std::uint32_t>(v) % 20;
        if (u < 16) {
            v = A[u];
        }
    }
    return static_cast<action_message_def::action_t>(v);
}
inline std::int32_t someCount(const char* name)
{
    auto v = hvc::any<std::int32_t>(name);
    HVC_NATIVE(if (hvc_replaying() == 0) { v = static_cast<std::uint32_t>(v) % 4; })
    return v;
}
/// every header field arbitrary, no payload and no strings
inline void arbitrary(ActionMessage& m)
{
    m.setAction(someAction("action"));
    m.messageID = someCount("messageID");
    m.source_id = GlobalFederateId(someId("source_id"));
    m.source_handle = helics::InterfaceHandle(someCount("source_handle"));
    m.dest_id = GlobalFederateId(someId("dest_id"));
    m.dest_handle = helics::InterfaceHandle(someCount("dest_handle"));
    m.counter = static_cast<std::uint16_t>(someCount("counter"));
    m.flags = hvc::any<std::uint16_t>("flags");
    m.actionTime = someTime("actionTime");
    m.Te = someTime("Te");
    m.Tdemin = someTime("Tdemin");
    m.Tso = someTime("Tso");
}
}  // namespace hvc
