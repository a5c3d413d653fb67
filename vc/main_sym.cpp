#include "contract.hpp"
#include <cstring>
#include <iostream>
namespace vp
{
std::vector<Contract> & registry()
{
  static std::vector<Contract> r;
  return r;
}
} // namespace vp
int main(int argc, char ** argv)
{
  std::string run, out = "/dev/stdout";
  for(int i = 1; i < argc; ++i)
  {
    if(!strcmp(argv[i], "--list"))
    {
      for(auto & c : vp::registry()) std::cout << c.name << "\t" << c.function << "\n";
      return 0;
    }
    if(i + 1 < argc)
    {
      if(!strcmp(argv[i], "--run")) run = argv[++i];
      else if(!strcmp(argv[i], "--out")) out = argv[++i];
      else if(!strcmp(argv[i], "--seed")) vp::options().seed = atol(argv[++i]);
      else if(!strcmp(argv[i], "--seconds")) vp::options().seconds = atof(argv[++i]);
      else if(!strcmp(argv[i], "--oblig-ms")) vp::options().obligMs = atol(argv[++i]);
      else if(!strcmp(argv[i], "--samples")) vp::options().samples = atol(argv[++i]);
      else if(!strcmp(argv[i], "--paths")) vp::options().maxPaths = atol(argv[++i]);
    }
  }
  for(auto & c : vp::registry())
    if(c.name == run) return vp::runContract(c, out);
  std::cerr << "no contract " << run << "\n";
  return 2;
}
