// Stand-in for the header that CMake generates (static build of the sources).
#pragma once
#define VECMEM_CORE_EXPORT
#define VECMEM_CORE_NO_EXPORT
#define VECMEM_CORE_DEPRECATED [[deprecated]]
