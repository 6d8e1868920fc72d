#include <sio/sio.h>
