// Stand-in for boost::interprocess in symbolic runs: mappings are copies of the file.
#pragma once
#include <boost/interprocess/file_mapping.hpp>
