#include <boost/flyweight.hpp>
