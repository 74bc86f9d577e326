// Stand-in for the header of the crc library that func/packet.hpp includes; it uses nothing from it.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <iterator>
