// Stands in for the platform's header of that name: all memory is "big" memory here.
#pragma once
struct BigHeapAllocation {};
