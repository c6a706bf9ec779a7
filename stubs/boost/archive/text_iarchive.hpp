#pragma once
#include <boost/archive/sx_archive.hpp>
