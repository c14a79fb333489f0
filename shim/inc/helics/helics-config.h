#pragma once
/* stand-in for the cmake-generated file: the configuration /opt/vp/harness uses */
#define HELICS_ENABLE_ZMQ_CORE
#define HELICS_ENABLE_TCP_CORE
#define HELICS_ENABLE_IPC_CORE
#define HELICS_ENABLE_UDP_CORE
#define HELICS_ENABLE_TEST_CORE
#define HELICS_ENABLE_INPROC_CORE
#define HELICS_ENABLE_LOGGING
#define HELICS_ENABLE_TRACE_LOGGING
#define HELICS_ENABLE_DEBUG_LOGGING
#define HELICS_VERSION_MAJOR 3
#define HELICS_VERSION_MINOR 6
#define HELICS_VERSION_PATCH 1
#define HELICS_VERSION 3.6.1
#define HELICS_VERSION_BUILD ""
#define HELICS_VERSION_STRING "3.6.1"
#define HELICS_DATE "2025"
#define HELICS_COMPILER_VERSION "shim"
#define HELICS_BUILD_FLAGS_RELEASE ""
#define HELICS_BUILD_FLAGS_DEBUG ""
#define HELICS_BUILD_PROCESSOR ""
