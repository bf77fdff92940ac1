// Small helpers for harnesses: token input, JSON line output ('@' prefix).
#pragma once
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <set>

struct Tok
{
  std::istringstream s;
  Tok(const std::string &l) : s(l) {}
  long i() { long v; if (!(s >> v)) { std::cerr << "bad token" << std::endl; std::abort(); } return v; }
  double d() { double v; s >> v; return v; }
  std::string w() { std::string v; s >> v; return v; }
};

inline std::vector<std::string> read_lines(const char *file)
{
  std::ifstream f(file);
  std::vector<std::string> r;
  for (std::string l; std::getline(f, l);)
    if (!l.empty()) r.push_back(l);
  return r;
}

template <typename It>
std::string jlist(It b, It e)
{
  std::ostringstream o;
  o << "[";
  for (bool first = true; b != e; ++b, first = false)
    o << (first ? "" : ",") << *b;
  o << "]";
  return o.str();
}
template <typename C>
std::string jl(const C &c) { return jlist(c.begin(), c.end()); }
inline std::string jb(bool b) { return b ? "true" : "false"; }
