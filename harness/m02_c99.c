#define M02_NAME m02_client_c99
#include "m02_client.inc"
