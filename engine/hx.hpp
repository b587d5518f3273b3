// Selects the symbolic or the concrete side and includes the library under test.
#pragma once
#ifdef SYMX
	#include "sym.hpp"
#else
	#include "replay.hpp"
#endif
#include <algorithm>
#include <cassert>
#include <array>
#include <cstdint>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <list>
#include <map>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <unordered_map>
#include <variant>
#include <vector>
#ifdef SYMX
	#define HOMOG2D_INUMTYPE symx::Num
	#include "homog2d_sym.hpp"
#else
	#ifdef REPLAY_INUM
		#define HOMOG2D_INUMTYPE REPLAY_INUM
	#endif
	#include "homog2d.hpp"
#endif
