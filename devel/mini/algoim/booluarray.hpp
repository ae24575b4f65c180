#pragma once
#include <algoim/uvector.hpp>
