// the ellipse harnesses against the library built with cached ellipse parameters (see C43.json)
#include "geom.hpp"
#include "hlib.hpp"
namespace a {
#include "C23.cpp"
}
namespace b {
#include "C24.cpp"
}
namespace c {
#include "C25.cpp"
}
