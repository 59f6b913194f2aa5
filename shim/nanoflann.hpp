// The installed nanoflann renamed SearchParams; the repository was written against the old name.
#pragma once
#include_next <nanoflann.hpp>
namespace nanoflann { using SearchParams = SearchParameters; }
