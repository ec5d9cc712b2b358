// Stand-in for openssl/rand.h: the simulator supplies RAND_bytes.
#ifndef VERIF_OPENSSL_RAND_H_
#define VERIF_OPENSSL_RAND_H_
extern "C" int RAND_bytes(unsigned char* buf, int num);
#endif
