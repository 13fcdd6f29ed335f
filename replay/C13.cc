#include "nls.hpp"
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) run_monitored(P13);
  return 0;
}
