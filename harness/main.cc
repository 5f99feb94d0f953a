#include "pbt.h"
int main(int argc, char ** argv) { return pbt::pbt_main(argc, argv); }
