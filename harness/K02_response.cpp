int main(int, char **) __asm__("response_main");
#include "bliss_generate_channelizer_response.cpp"
