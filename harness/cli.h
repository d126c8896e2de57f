#pragma once
#include <string>
#include <vector>
namespace cli {
struct Res { int rc = 0; int sig = 0; std::string out, err; };
Res inproc(const std::vector<std::string>& args, const std::string& in); // calls the tool's main
Res forked(const std::vector<std::string>& args, const std::string& in); // the same in a process of its own
}
