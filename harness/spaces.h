// The spaces shared by the solver checks: pairs of initial/final automata per dimension.
#pragma once
#include "fam.h"
namespace spaces {
using PL = std::vector<std::pair<std::string, std::string>>;
inline const PL P22 = { {"0a", "1"}, {"0a", "1b"}, {"0a", "1%"}, {"0ab", "1"}, {"0ab+", "1ba"}, {"0a,1b", "0b+"}, {"0ab", "1bb"}, {"0a+", "1ab,0"} };
inline const PL P22x = { {"0%", "1ab"}, {"0aa", "0"}, {"0,1a", "1"}, {"0bb,1ab", "1bab"}, {"0", "0"}, {"0a", "0a"}, {"0aaa", "1"}, {"0aab+", "1b+,0b"} };
inline const PL P21 = { {"0a", "1"}, {"0a", "1a"}, {"0a", "1aa"}, {"0aa", "1"}, {"0aaa", "1aa"}, {"0a+", "1aaa"}, {"0a,1a", "0"}, {"0aa", "1a+"}, {"0a", "1%"} };
inline const PL P12 = { {"0a", "0"}, {"0a", "0b"}, {"0ab", "0ba"}, {"0ab+", "0bbb"}, {"0a", "0abb"}, {"0b", "0%"} };
inline const PL P31 = { {"0a", "2"}, {"0a", "2a"}, {"0aa", "2aa"}, {"0a+", "2aaa"}, {"0a,1a", "2"} };
inline const PL P23 = { {"0a", "1"}, {"0abc", "1c"}, {"0a", "1cb"}, {"0ab+", "1c%"} };
inline std::string desc(const ref::Sys& s, const fam::Pair& p) { return str(s) + "\n" + p.name + "\ninitial " + str(p.i) + "\nfinal " + str(p.f); }
}
