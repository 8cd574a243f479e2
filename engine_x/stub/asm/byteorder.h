#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
#define __BIG_ENDIAN 4321
#define __BIG_ENDIAN_BITFIELD
#else
#define __LITTLE_ENDIAN 1234
#define __LITTLE_ENDIAN_BITFIELD
#endif
