int main(int, char **) __asm__("to_dat_main"); // still "main" for the compiler: it returns 0 at its end
#include "bliss_hits_to_dat.cpp"
