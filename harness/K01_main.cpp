int main(int, char **) __asm__("find_hits_main"); // still "main" for the compiler: it returns 0 at its end
#include "bliss_find_hits.cpp"
