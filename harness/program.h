// runs a program of the repository (built beside the check) with files of the scratch directory
#pragma once
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include "pbt.h"
// exit code (128 + signal number when killed by one); everything printed goes to out
inline int program(const std::string& name, const std::vector<std::string>& args, std::string& out) {
  char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); std::string d(b, n > 0 ? n : 0), o = pbt::scratch() + "/program.out"; d = d.substr(0, d.rfind('/'));
  std::string c = "ASAN_OPTIONS=detect_leaks=0:exitcode=77 UBSAN_OPTIONS=exitcode=77 timeout 60 '" + d + "/programs/" + name + "'"; for (auto& a : args) c += " '" + a + "'";
  int r = system((c + " > '" + o + "' 2>&1").c_str()); std::ifstream i(o.c_str(), std::ios::binary); std::ostringstream s; s << i.rdbuf(); out = s.str();
  return WIFEXITED(r) ? WEXITSTATUS(r) : 128 + WTERMSIG(r);
}
