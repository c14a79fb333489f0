#pragma once
#define HELICS_EXPORT
#define HELICS_NO_EXPORT
#define HELICS_DEPRECATED
