#include "nls.hpp"
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) run_monitored(P16);
  return 0;
}
