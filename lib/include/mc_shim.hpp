// Force-included: lets the parts of neolib that the stock build leaves out compile with the installed Boost.
#pragma once
#include <cstddef>
namespace boost { namespace lockfree { namespace detail { constexpr std::size_t cacheline_bytes = 64; } } }
