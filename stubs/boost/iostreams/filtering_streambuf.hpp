#pragma once
#include <boost/iostreams/sx_filter.hpp>
