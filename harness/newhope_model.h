// New Hope (usenix/"torref" flavour, n = 1024, q = 12289) from the paper's
// definitions: arithmetic modulo q, transforms by evaluation, SHA-3/SHAKE and
// ChaCha20 from OpenSSL.
#ifndef NEWHOPE_MODEL_H
#define NEWHOPE_MODEL_H
#include "pbt.h"
enum { NH_SENDA = 1792 + 32, NH_SENDB = 1792 + 256 };
Bytes nh_keygen(const Bytes &random64);                       // -> Alice's message
Bytes nh_sharedb(const Bytes &random32, const Bytes &a, Bytes &shared);   // -> Bob's message
Bytes nh_shareda(const Bytes &random64, const Bytes &b);
#endif
