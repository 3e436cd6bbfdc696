// Stand-in for the header of xitren/crc that packet.hpp includes (a sibling project, absent here). packet.hpp uses
// nothing from it.
#pragma once

#include <iterator>

namespace xitren::crc {
template <class T>
concept crc_iterator = std::input_iterator<T>;
}
