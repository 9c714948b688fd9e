// Newer kernel headers than this system's: gives hidraw devices a revoke ioctl.
#include <linux/hidraw.h>
#ifndef HIDIOCREVOKE
#define HIDIOCREVOKE _IOW('H', 0x0D, int)
#endif
