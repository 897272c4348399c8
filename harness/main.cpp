#include "core.hpp"
int main(int c, char **v) { return mc_main(c, v); }
