#pragma once
#define HELICS_CXX_EXPORT
#define HELICS_CXX_NO_EXPORT
#define HELICS_CXX_DEPRECATED
