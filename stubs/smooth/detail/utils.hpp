#pragma once
#include <smooth/mini.hpp>
