#include <cctype>
