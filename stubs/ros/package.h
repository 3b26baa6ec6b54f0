#include <string>
namespace ros { namespace package { inline std::string getPath(const std::string&) { return "/nonexistent"; } } }
