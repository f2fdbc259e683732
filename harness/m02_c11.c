#define M02_NAME m02_client_c11
#include "m02_client.inc"
