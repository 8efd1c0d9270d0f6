/* generated by tools/gen_tables.py from the published definitions */
#include <stdint.h>
static const uint8_t T_AES[256] = {
	0x63, 0x7c, 0x77, 0x7b, 0xf2, 0x6b, 0x6f, 0xc5,
	0x30, 0x1, 0x67, 0x2b, 0xfe, 0xd7, 0xab, 0x76,
	0xca, 0x82, 0xc9, 0x7d, 0xfa, 0x59, 0x47, 0xf0,
	0xad, 0xd4, 0xa2, 0xaf, 0x9c, 0xa4, 0x72, 0xc0,
	0xb7, 0xfd, 0x93, 0x26, 0x36, 0x3f, 0xf7, 0xcc,
	0x34, 0xa5, 0xe5, 0xf1, 0x71, 0xd8, 0x31, 0x15,
	0x4, 0xc7, 0x23, 0xc3, 0x18, 0x96, 0x5, 0x9a,
	0x7, 0x12, 0x80, 0xe2, 0xeb, 0x27, 0xb2, 0x75,
	0x9, 0x83, 0x2c, 0x1a, 0x1b, 0x6e, 0x5a, 0xa0,
	0x52, 0x3b, 0xd6, 0xb3, 0x29, 0xe3, 0x2f, 0x84,
	0x53, 0xd1, 0x0, 0xed, 0x20, 0xfc, 0xb1, 0x5b,
	0x6a, 0xcb, 0xbe, 0x39, 0x4a, 0x4c, 0x58, 0xcf,
	0xd0, 0xef, 0xaa, 0xfb, 0x43, 0x4d, 0x33, 0x85,
	0x45, 0xf9, 0x2, 0x7f, 0x50, 0x3c, 0x9f, 0xa8,
	0x51, 0xa3, 0x40, 0x8f, 0x92, 0x9d, 0x38, 0xf5,
	0xbc, 0xb6, 0xda, 0x21, 0x10, 0xff, 0xf3, 0xd2,
	0xcd, 0xc, 0x13, 0xec, 0x5f, 0x97, 0x44, 0x17,
	0xc4, 0xa7, 0x7e, 0x3d, 0x64, 0x5d, 0x19, 0x73,
	0x60, 0x81, 0x4f, 0xdc, 0x22, 0x2a, 0x90, 0x88,
	0x46, 0xee, 0xb8, 0x14, 0xde, 0x5e, 0xb, 0xdb,
	0xe0, 0x32, 0x3a, 0xa, 0x49, 0x6, 0x24, 0x5c,
	0xc2, 0xd3, 0xac, 0x62, 0x91, 0x95, 0xe4, 0x79,
	0xe7, 0xc8, 0x37, 0x6d, 0x8d, 0xd5, 0x4e, 0xa9,
	0x6c, 0x56, 0xf4, 0xea, 0x65, 0x7a, 0xae, 0x8,
	0xba, 0x78, 0x25, 0x2e, 0x1c, 0xa6, 0xb4, 0xc6,
	0xe8, 0xdd, 0x74, 0x1f, 0x4b, 0xbd, 0x8b, 0x8a,
	0x70, 0x3e, 0xb5, 0x66, 0x48, 0x3, 0xf6, 0xe,
	0x61, 0x35, 0x57, 0xb9, 0x86, 0xc1, 0x1d, 0x9e,
	0xe1, 0xf8, 0x98, 0x11, 0x69, 0xd9, 0x8e, 0x94,
	0x9b, 0x1e, 0x87, 0xe9, 0xce, 0x55, 0x28, 0xdf,
	0x8c, 0xa1, 0x89, 0xd, 0xbf, 0xe6, 0x42, 0x68,
	0x41, 0x99, 0x2d, 0xf, 0xb0, 0x54, 0xbb, 0x16,
};
static const uint8_t T_AESI[256] = {
	0x52, 0x9, 0x6a, 0xd5, 0x30, 0x36, 0xa5, 0x38,
	0xbf, 0x40, 0xa3, 0x9e, 0x81, 0xf3, 0xd7, 0xfb,
	0x7c, 0xe3, 0x39, 0x82, 0x9b, 0x2f, 0xff, 0x87,
	0x34, 0x8e, 0x43, 0x44, 0xc4, 0xde, 0xe9, 0xcb,
	0x54, 0x7b, 0x94, 0x32, 0xa6, 0xc2, 0x23, 0x3d,
	0xee, 0x4c, 0x95, 0xb, 0x42, 0xfa, 0xc3, 0x4e,
	0x8, 0x2e, 0xa1, 0x66, 0x28, 0xd9, 0x24, 0xb2,
	0x76, 0x5b, 0xa2, 0x49, 0x6d, 0x8b, 0xd1, 0x25,
	0x72, 0xf8, 0xf6, 0x64, 0x86, 0x68, 0x98, 0x16,
	0xd4, 0xa4, 0x5c, 0xcc, 0x5d, 0x65, 0xb6, 0x92,
	0x6c, 0x70, 0x48, 0x50, 0xfd, 0xed, 0xb9, 0xda,
	0x5e, 0x15, 0x46, 0x57, 0xa7, 0x8d, 0x9d, 0x84,
	0x90, 0xd8, 0xab, 0x0, 0x8c, 0xbc, 0xd3, 0xa,
	0xf7, 0xe4, 0x58, 0x5, 0xb8, 0xb3, 0x45, 0x6,
	0xd0, 0x2c, 0x1e, 0x8f, 0xca, 0x3f, 0xf, 0x2,
	0xc1, 0xaf, 0xbd, 0x3, 0x1, 0x13, 0x8a, 0x6b,
	0x3a, 0x91, 0x11, 0x41, 0x4f, 0x67, 0xdc, 0xea,
	0x97, 0xf2, 0xcf, 0xce, 0xf0, 0xb4, 0xe6, 0x73,
	0x96, 0xac, 0x74, 0x22, 0xe7, 0xad, 0x35, 0x85,
	0xe2, 0xf9, 0x37, 0xe8, 0x1c, 0x75, 0xdf, 0x6e,
	0x47, 0xf1, 0x1a, 0x71, 0x1d, 0x29, 0xc5, 0x89,
	0x6f, 0xb7, 0x62, 0xe, 0xaa, 0x18, 0xbe, 0x1b,
	0xfc, 0x56, 0x3e, 0x4b, 0xc6, 0xd2, 0x79, 0x20,
	0x9a, 0xdb, 0xc0, 0xfe, 0x78, 0xcd, 0x5a, 0xf4,
	0x1f, 0xdd, 0xa8, 0x33, 0x88, 0x7, 0xc7, 0x31,
	0xb1, 0x12, 0x10, 0x59, 0x27, 0x80, 0xec, 0x5f,
	0x60, 0x51, 0x7f, 0xa9, 0x19, 0xb5, 0x4a, 0xd,
	0x2d, 0xe5, 0x7a, 0x9f, 0x93, 0xc9, 0x9c, 0xef,
	0xa0, 0xe0, 0x3b, 0x4d, 0xae, 0x2a, 0xf5, 0xb0,
	0xc8, 0xeb, 0xbb, 0x3c, 0x83, 0x53, 0x99, 0x61,
	0x17, 0x2b, 0x4, 0x7e, 0xba, 0x77, 0xd6, 0x26,
	0xe1, 0x69, 0x14, 0x63, 0x55, 0x21, 0xc, 0x7d,
};
static const uint8_t T_SEED1[256] = {
	0xa9, 0x85, 0xd6, 0xd3, 0x54, 0x1d, 0xac, 0x25,
	0x5d, 0x43, 0x18, 0x1e, 0x51, 0xfc, 0xca, 0x63,
	0x28, 0x44, 0x20, 0x9d, 0xe0, 0xe2, 0xc8, 0x17,
	0xa5, 0x8f, 0x3, 0x7b, 0xbb, 0x13, 0xd2, 0xee,
	0x70, 0x8c, 0x3f, 0xa8, 0x32, 0xdd, 0xf6, 0x74,
	0xec, 0x95, 0xb, 0x57, 0x5c, 0x5b, 0xbd, 0x1,
	0x24, 0x1c, 0x73, 0x98, 0x10, 0xcc, 0xf2, 0xd9,
	0x2c, 0xe7, 0x72, 0x83, 0x9b, 0xd1, 0x86, 0xc9,
	0x60, 0x50, 0xa3, 0xeb, 0xd, 0xb6, 0x9e, 0x4f,
	0xb7, 0x5a, 0xc6, 0x78, 0xa6, 0x12, 0xaf, 0xd5,
	0x61, 0xc3, 0xb4, 0x41, 0x52, 0x7d, 0x8d, 0x8,
	0x1f, 0x99, 0x0, 0x19, 0x4, 0x53, 0xf7, 0xe1,
	0xfd, 0x76, 0x2f, 0x27, 0xb0, 0x8b, 0xe, 0xab,
	0xa2, 0x6e, 0x93, 0x4d, 0x69, 0x7c, 0x9, 0xa,
	0xbf, 0xef, 0xf3, 0xc5, 0x87, 0x14, 0xfe, 0x64,
	0xde, 0x2e, 0x4b, 0x1a, 0x6, 0x21, 0x6b, 0x66,
	0x2, 0xf5, 0x92, 0x8a, 0xc, 0xb3, 0x7e, 0xd0,
	0x7a, 0x47, 0x96, 0xe5, 0x26, 0x80, 0xad, 0xdf,
	0xa1, 0x30, 0x37, 0xae, 0x36, 0x15, 0x22, 0x38,
	0xf4, 0xa7, 0x45, 0x4c, 0x81, 0xe9, 0x84, 0x97,
	0x35, 0xcb, 0xce, 0x3c, 0x71, 0x11, 0xc7, 0x89,
	0x75, 0xfb, 0xda, 0xf8, 0x94, 0x59, 0x82, 0xc4,
	0xff, 0x49, 0x39, 0x67, 0xc0, 0xcf, 0xd7, 0xb8,
	0xf, 0x8e, 0x42, 0x23, 0x91, 0x6c, 0xdb, 0xa4,
	0x34, 0xf1, 0x48, 0xc2, 0x6f, 0x3d, 0x2d, 0x40,
	0xbe, 0x3e, 0xbc, 0xc1, 0xaa, 0xba, 0x4e, 0x55,
	0x3b, 0xdc, 0x68, 0x7f, 0x9c, 0xd8, 0x4a, 0x56,
	0x77, 0xa0, 0xed, 0x46, 0xb5, 0x2b, 0x65, 0xfa,
	0xe3, 0xb9, 0xb1, 0x9f, 0x5e, 0xf9, 0xe6, 0xb2,
	0x31, 0xea, 0x6d, 0x5f, 0xe4, 0xf0, 0xcd, 0x88,
	0x16, 0x3a, 0x58, 0xd4, 0x62, 0x29, 0x7, 0x33,
	0xe8, 0x1b, 0x5, 0x79, 0x90, 0x6a, 0x2a, 0x9a,
};
static const uint8_t T_SEED2[256] = {
	0x38, 0xe8, 0x2d, 0xa6, 0xcf, 0xde, 0xb3, 0xb8,
	0xaf, 0x60, 0x55, 0xc7, 0x44, 0x6f, 0x6b, 0x5b,
	0xc3, 0x62, 0x33, 0xb5, 0x29, 0xa0, 0xe2, 0xa7,
	0xd3, 0x91, 0x11, 0x6, 0x1c, 0xbc, 0x36, 0x4b,
	0xef, 0x88, 0x6c, 0xa8, 0x17, 0xc4, 0x16, 0xf4,
	0xc2, 0x45, 0xe1, 0xd6, 0x3f, 0x3d, 0x8e, 0x98,
	0x28, 0x4e, 0xf6, 0x3e, 0xa5, 0xf9, 0xd, 0xdf,
	0xd8, 0x2b, 0x66, 0x7a, 0x27, 0x2f, 0xf1, 0x72,
	0x42, 0xd4, 0x41, 0xc0, 0x73, 0x67, 0xac, 0x8b,
	0xf7, 0xad, 0x80, 0x1f, 0xca, 0x2c, 0xaa, 0x34,
	0xd2, 0xb, 0xee, 0xe9, 0x5d, 0x94, 0x18, 0xf8,
	0x57, 0xae, 0x8, 0xc5, 0x13, 0xcd, 0x86, 0xb9,
	0xff, 0x7d, 0xc1, 0x31, 0xf5, 0x8a, 0x6a, 0xb1,
	0xd1, 0x20, 0xd7, 0x2, 0x22, 0x4, 0x68, 0x71,
	0x7, 0xdb, 0x9d, 0x99, 0x61, 0xbe, 0xe6, 0x59,
	0xdd, 0x51, 0x90, 0xdc, 0x9a, 0xa3, 0xab, 0xd0,
	0x81, 0xf, 0x47, 0x1a, 0xe3, 0xec, 0x8d, 0xbf,
	0x96, 0x7b, 0x5c, 0xa2, 0xa1, 0x63, 0x23, 0x4d,
	0xc8, 0x9e, 0x9c, 0x3a, 0xc, 0x2e, 0xba, 0x6e,
	0x9f, 0x5a, 0xf2, 0x92, 0xf3, 0x49, 0x78, 0xcc,
	0x15, 0xfb, 0x70, 0x75, 0x7f, 0x35, 0x10, 0x3,
	0x64, 0x6d, 0xc6, 0x74, 0xd5, 0xb4, 0xea, 0x9,
	0x76, 0x19, 0xfe, 0x40, 0x12, 0xe0, 0xbd, 0x5,
	0xfa, 0x1, 0xf0, 0x2a, 0x5e, 0xa9, 0x56, 0x43,
	0x85, 0x14, 0x89, 0x9b, 0xb0, 0xe5, 0x48, 0x79,
	0x97, 0xfc, 0x1e, 0x82, 0x21, 0x8c, 0x1b, 0x5f,
	0x77, 0x54, 0xb2, 0x1d, 0x25, 0x4f, 0x0, 0x46,
	0xed, 0x58, 0x52, 0xeb, 0x7e, 0xda, 0xc9, 0xfd,
	0x30, 0x95, 0x65, 0x3c, 0xb6, 0xe4, 0xbb, 0x7c,
	0xe, 0x50, 0x39, 0x26, 0x32, 0x84, 0x69, 0x93,
	0x37, 0xe7, 0x24, 0xa4, 0xcb, 0x53, 0xa, 0x87,
	0xd9, 0x4c, 0x83, 0x8f, 0xce, 0x3b, 0x4a, 0xb7,
};
static const uint32_t T_SEEDKC[16] = {
	0x9e3779b9, 0x3c6ef373, 0x78dde6e6, 0xf1bbcdcc, 0xe3779b99, 0xc6ef3733, 0x8dde6e67, 0x1bbcdccf,
	0x3779b99e, 0x6ef3733c, 0xdde6e678, 0xbbcdccf1, 0x779b99e3, 0xef3733c6, 0xde6e678d, 0xbcdccf1b,
};
static const uint8_t T_ARIA2[256] = {
	0xe2, 0x4e, 0x54, 0xfc, 0x94, 0xc2, 0x4a, 0xcc,
	0x62, 0xd, 0x6a, 0x46, 0x3c, 0x4d, 0x8b, 0xd1,
	0x5e, 0xfa, 0x64, 0xcb, 0xb4, 0x97, 0xbe, 0x2b,
	0xbc, 0x77, 0x2e, 0x3, 0xd3, 0x19, 0x59, 0xc1,
	0x1d, 0x6, 0x41, 0x6b, 0x55, 0xf0, 0x99, 0x69,
	0xea, 0x9c, 0x18, 0xae, 0x63, 0xdf, 0xe7, 0xbb,
	0x0, 0x73, 0x66, 0xfb, 0x96, 0x4c, 0x85, 0xe4,
	0x3a, 0x9, 0x45, 0xaa, 0xf, 0xee, 0x10, 0xeb,
	0x2d, 0x7f, 0xf4, 0x29, 0xac, 0xcf, 0xad, 0x91,
	0x8d, 0x78, 0xc8, 0x95, 0xf9, 0x2f, 0xce, 0xcd,
	0x8, 0x7a, 0x88, 0x38, 0x5c, 0x83, 0x2a, 0x28,
	0x47, 0xdb, 0xb8, 0xc7, 0x93, 0xa4, 0x12, 0x53,
	0xff, 0x87, 0xe, 0x31, 0x36, 0x21, 0x58, 0x48,
	0x1, 0x8e, 0x37, 0x74, 0x32, 0xca, 0xe9, 0xb1,
	0xb7, 0xab, 0xc, 0xd7, 0xc4, 0x56, 0x42, 0x26,
	0x7, 0x98, 0x60, 0xd9, 0xb6, 0xb9, 0x11, 0x40,
	0xec, 0x20, 0x8c, 0xbd, 0xa0, 0xc9, 0x84, 0x4,
	0x49, 0x23, 0xf1, 0x4f, 0x50, 0x1f, 0x13, 0xdc,
	0xd8, 0xc0, 0x9e, 0x57, 0xe3, 0xc3, 0x7b, 0x65,
	0x3b, 0x2, 0x8f, 0x3e, 0xe8, 0x25, 0x92, 0xe5,
	0x15, 0xdd, 0xfd, 0x17, 0xa9, 0xbf, 0xd4, 0x9a,
	0x7e, 0xc5, 0x39, 0x67, 0xfe, 0x76, 0x9d, 0x43,
	0xa7, 0xe1, 0xd0, 0xf5, 0x68, 0xf2, 0x1b, 0x34,
	0x70, 0x5, 0xa3, 0x8a, 0xd5, 0x79, 0x86, 0xa8,
	0x30, 0xc6, 0x51, 0x4b, 0x1e, 0xa6, 0x27, 0xf6,
	0x35, 0xd2, 0x6e, 0x24, 0x16, 0x82, 0x5f, 0xda,
	0xe6, 0x75, 0xa2, 0xef, 0x2c, 0xb2, 0x1c, 0x9f,
	0x5d, 0x6f, 0x80, 0xa, 0x72, 0x44, 0x9b, 0x6c,
	0x90, 0xb, 0x5b, 0x33, 0x7d, 0x5a, 0x52, 0xf3,
	0x61, 0xa1, 0xf7, 0xb0, 0xd6, 0x3f, 0x7c, 0x6d,
	0xed, 0x14, 0xe0, 0xa5, 0x3d, 0x22, 0xb3, 0xf8,
	0x89, 0xde, 0x71, 0x1a, 0xaf, 0xba, 0xb5, 0x81,
};
static const uint8_t T_ARIA2I[256] = {
	0x30, 0x68, 0x99, 0x1b, 0x87, 0xb9, 0x21, 0x78,
	0x50, 0x39, 0xdb, 0xe1, 0x72, 0x9, 0x62, 0x3c,
	0x3e, 0x7e, 0x5e, 0x8e, 0xf1, 0xa0, 0xcc, 0xa3,
	0x2a, 0x1d, 0xfb, 0xb6, 0xd6, 0x20, 0xc4, 0x8d,
	0x81, 0x65, 0xf5, 0x89, 0xcb, 0x9d, 0x77, 0xc6,
	0x57, 0x43, 0x56, 0x17, 0xd4, 0x40, 0x1a, 0x4d,
	0xc0, 0x63, 0x6c, 0xe3, 0xb7, 0xc8, 0x64, 0x6a,
	0x53, 0xaa, 0x38, 0x98, 0xc, 0xf4, 0x9b, 0xed,
	0x7f, 0x22, 0x76, 0xaf, 0xdd, 0x3a, 0xb, 0x58,
	0x67, 0x88, 0x6, 0xc3, 0x35, 0xd, 0x1, 0x8b,
	0x8c, 0xc2, 0xe6, 0x5f, 0x2, 0x24, 0x75, 0x93,
	0x66, 0x1e, 0xe5, 0xe2, 0x54, 0xd8, 0x10, 0xce,
	0x7a, 0xe8, 0x8, 0x2c, 0x12, 0x97, 0x32, 0xab,
	0xb4, 0x27, 0xa, 0x23, 0xdf, 0xef, 0xca, 0xd9,
	0xb8, 0xfa, 0xdc, 0x31, 0x6b, 0xd1, 0xad, 0x19,
	0x49, 0xbd, 0x51, 0x96, 0xee, 0xe4, 0xa8, 0x41,
	0xda, 0xff, 0xcd, 0x55, 0x86, 0x36, 0xbe, 0x61,
	0x52, 0xf8, 0xbb, 0xe, 0x82, 0x48, 0x69, 0x9a,
	0xe0, 0x47, 0x9e, 0x5c, 0x4, 0x4b, 0x34, 0x15,
	0x79, 0x26, 0xa7, 0xde, 0x29, 0xae, 0x92, 0xd7,
	0x84, 0xe9, 0xd2, 0xba, 0x5d, 0xf3, 0xc5, 0xb0,
	0xbf, 0xa4, 0x3b, 0x71, 0x44, 0x46, 0x2b, 0xfc,
	0xeb, 0x6f, 0xd5, 0xf6, 0x14, 0xfe, 0x7c, 0x70,
	0x5a, 0x7d, 0xfd, 0x2f, 0x18, 0x83, 0x16, 0xa5,
	0x91, 0x1f, 0x5, 0x95, 0x74, 0xa9, 0xc1, 0x5b,
	0x4a, 0x85, 0x6d, 0x13, 0x7, 0x4f, 0x4e, 0x45,
	0xb2, 0xf, 0xc9, 0x1c, 0xa6, 0xbc, 0xec, 0x73,
	0x90, 0x7b, 0xcf, 0x59, 0x8f, 0xa1, 0xf9, 0x2d,
	0xf2, 0xb1, 0x0, 0x94, 0x37, 0x9f, 0xd0, 0x2e,
	0x9c, 0x6e, 0x28, 0x3f, 0x80, 0xf0, 0x3d, 0xd3,
	0x25, 0x8a, 0xb5, 0xe7, 0x42, 0xb3, 0xc7, 0xea,
	0xf7, 0x4c, 0x11, 0x33, 0x3, 0xa2, 0xac, 0x60,
};
static const uint8_t T_ARIAC[48] = {
	0x51, 0x7c, 0xc1, 0xb7, 0x27, 0x22, 0xa, 0x94,
	0xfe, 0x13, 0xab, 0xe8, 0xfa, 0x9a, 0x6e, 0xe0,
	0x6d, 0xb1, 0x4a, 0xcc, 0x9e, 0x21, 0xc8, 0x20,
	0xff, 0x28, 0xb1, 0xd5, 0xef, 0x5d, 0xe2, 0xb0,
	0xdb, 0x92, 0x37, 0x1d, 0x21, 0x26, 0xe9, 0x70,
	0x3, 0x24, 0x97, 0x75, 0x4, 0xe8, 0xc9, 0xe,
};
static const uint32_t T_BFP[18] = {
	0x243f6a88, 0x85a308d3, 0x13198a2e, 0x3707344, 0xa4093822, 0x299f31d0, 0x82efa98, 0xec4e6c89,
	0x452821e6, 0x38d01377, 0xbe5466cf, 0x34e90c6c, 0xc0ac29b7, 0xc97c50dd, 0x3f84d5b5, 0xb5470917,
	0x9216d5d9, 0x8979fb1b,
};
static const uint32_t T_BFS[1024] = {
	0xd1310ba6, 0x98dfb5ac, 0x2ffd72db, 0xd01adfb7, 0xb8e1afed, 0x6a267e96, 0xba7c9045, 0xf12c7f99,
	0x24a19947, 0xb3916cf7, 0x801f2e2, 0x858efc16, 0x636920d8, 0x71574e69, 0xa458fea3, 0xf4933d7e,
	0xd95748f, 0x728eb658, 0x718bcd58, 0x82154aee, 0x7b54a41d, 0xc25a59b5, 0x9c30d539, 0x2af26013,
	0xc5d1b023, 0x286085f0, 0xca417918, 0xb8db38ef, 0x8e79dcb0, 0x603a180e, 0x6c9e0e8b, 0xb01e8a3e,
	0xd71577c1, 0xbd314b27, 0x78af2fda, 0x55605c60, 0xe65525f3, 0xaa55ab94, 0x57489862, 0x63e81440,
	0x55ca396a, 0x2aab10b6, 0xb4cc5c34, 0x1141e8ce, 0xa15486af, 0x7c72e993, 0xb3ee1411, 0x636fbc2a,
	0x2ba9c55d, 0x741831f6, 0xce5c3e16, 0x9b87931e, 0xafd6ba33, 0x6c24cf5c, 0x7a325381, 0x28958677,
	0x3b8f4898, 0x6b4bb9af, 0xc4bfe81b, 0x66282193, 0x61d809cc, 0xfb21a991, 0x487cac60, 0x5dec8032,
	0xef845d5d, 0xe98575b1, 0xdc262302, 0xeb651b88, 0x23893e81, 0xd396acc5, 0xf6d6ff3, 0x83f44239,
	0x2e0b4482, 0xa4842004, 0x69c8f04a, 0x9e1f9b5e, 0x21c66842, 0xf6e96c9a, 0x670c9c61, 0xabd388f0,
	0x6a51a0d2, 0xd8542f68, 0x960fa728, 0xab5133a3, 0x6eef0b6c, 0x137a3be4, 0xba3bf050, 0x7efb2a98,
	0xa1f1651d, 0x39af0176, 0x66ca593e, 0x82430e88, 0x8cee8619, 0x456f9fb4, 0x7d84a5c3, 0x3b8b5ebe,
	0xe06f75d8, 0x85c12073, 0x401a449f, 0x56c16aa6, 0x4ed3aa62, 0x363f7706, 0x1bfedf72, 0x429b023d,
	0x37d0d724, 0xd00a1248, 0xdb0fead3, 0x49f1c09b, 0x75372c9, 0x80991b7b, 0x25d479d8, 0xf6e8def7,
	0xe3fe501a, 0xb6794c3b, 0x976ce0bd, 0x4c006ba, 0xc1a94fb6, 0x409f60c4, 0x5e5c9ec2, 0x196a2463,
	0x68fb6faf, 0x3e6c53b5, 0x1339b2eb, 0x3b52ec6f, 0x6dfc511f, 0x9b30952c, 0xcc814544, 0xaf5ebd09,
	0xbee3d004, 0xde334afd, 0x660f2807, 0x192e4bb3, 0xc0cba857, 0x45c8740f, 0xd20b5f39, 0xb9d3fbdb,
	0x5579c0bd, 0x1a60320a, 0xd6a100c6, 0x402c7279, 0x679f25fe, 0xfb1fa3cc, 0x8ea5e9f8, 0xdb3222f8,
	0x3c7516df, 0xfd616b15, 0x2f501ec8, 0xad0552ab, 0x323db5fa, 0xfd238760, 0x53317b48, 0x3e00df82,
	0x9e5c57bb, 0xca6f8ca0, 0x1a87562e, 0xdf1769db, 0xd542a8f6, 0x287effc3, 0xac6732c6, 0x8c4f5573,
	0x695b27b0, 0xbbca58c8, 0xe1ffa35d, 0xb8f011a0, 0x10fa3d98, 0xfd2183b8, 0x4afcb56c, 0x2dd1d35b,
	0x9a53e479, 0xb6f84565, 0xd28e49bc, 0x4bfb9790, 0xe1ddf2da, 0xa4cb7e33, 0x62fb1341, 0xcee4c6e8,
	0xef20cada, 0x36774c01, 0xd07e9efe, 0x2bf11fb4, 0x95dbda4d, 0xae909198, 0xeaad8e71, 0x6b93d5a0,
	0xd08ed1d0, 0xafc725e0, 0x8e3c5b2f, 0x8e7594b7, 0x8ff6e2fb, 0xf2122b64, 0x8888b812, 0x900df01c,
	0x4fad5ea0, 0x688fc31c, 0xd1cff191, 0xb3a8c1ad, 0x2f2f2218, 0xbe0e1777, 0xea752dfe, 0x8b021fa1,
	0xe5a0cc0f, 0xb56f74e8, 0x18acf3d6, 0xce89e299, 0xb4a84fe0, 0xfd13e0b7, 0x7cc43b81, 0xd2ada8d9,
	0x165fa266, 0x80957705, 0x93cc7314, 0x211a1477, 0xe6ad2065, 0x77b5fa86, 0xc75442f5, 0xfb9d35cf,
	0xebcdaf0c, 0x7b3e89a0, 0xd6411bd3, 0xae1e7e49, 0x250e2d, 0x2071b35e, 0x226800bb, 0x57b8e0af,
	0x2464369b, 0xf009b91e, 0x5563911d, 0x59dfa6aa, 0x78c14389, 0xd95a537f, 0x207d5ba2, 0x2e5b9c5,
	0x83260376, 0x6295cfa9, 0x11c81968, 0x4e734a41, 0xb3472dca, 0x7b14a94a, 0x1b510052, 0x9a532915,
	0xd60f573f, 0xbc9bc6e4, 0x2b60a476, 0x81e67400, 0x8ba6fb5, 0x571be91f, 0xf296ec6b, 0x2a0dd915,
	0xb6636521, 0xe7b9f9b6, 0xff34052e, 0xc5855664, 0x53b02d5d, 0xa99f8fa1, 0x8ba4799, 0x6e85076a,
	0x4b7a70e9, 0xb5b32944, 0xdb75092e, 0xc4192623, 0xad6ea6b0, 0x49a7df7d, 0x9cee60b8, 0x8fedb266,
	0xecaa8c71, 0x699a17ff, 0x5664526c, 0xc2b19ee1, 0x193602a5, 0x75094c29, 0xa0591340, 0xe4183a3e,
	0x3f54989a, 0x5b429d65, 0x6b8fe4d6, 0x99f73fd6, 0xa1d29c07, 0xefe830f5, 0x4d2d38e6, 0xf0255dc1,
	0x4cdd2086, 0x8470eb26, 0x6382e9c6, 0x21ecc5e, 0x9686b3f, 0x3ebaefc9, 0x3c971814, 0x6b6a70a1,
	0x687f3584, 0x52a0e286, 0xb79c5305, 0xaa500737, 0x3e07841c, 0x7fdeae5c, 0x8e7d44ec, 0x5716f2b8,
	0xb03ada37, 0xf0500c0d, 0xf01c1f04, 0x200b3ff, 0xae0cf51a, 0x3cb574b2, 0x25837a58, 0xdc0921bd,
	0xd19113f9, 0x7ca92ff6, 0x94324773, 0x22f54701, 0x3ae5e581, 0x37c2dadc, 0xc8b57634, 0x9af3dda7,
	0xa9446146, 0xfd0030e, 0xecc8c73e, 0xa4751e41, 0xe238cd99, 0x3bea0e2f, 0x3280bba1, 0x183eb331,
	0x4e548b38, 0x4f6db908, 0x6f420d03, 0xf60a04bf, 0x2cb81290, 0x24977c79, 0x5679b072, 0xbcaf89af,
	0xde9a771f, 0xd9930810, 0xb38bae12, 0xdccf3f2e, 0x5512721f, 0x2e6b7124, 0x501adde6, 0x9f84cd87,
	0x7a584718, 0x7408da17, 0xbc9f9abc, 0xe94b7d8c, 0xec7aec3a, 0xdb851dfa, 0x63094366, 0xc464c3d2,
	0xef1c1847, 0x3215d908, 0xdd433b37, 0x24c2ba16, 0x12a14d43, 0x2a65c451, 0x50940002, 0x133ae4dd,
	0x71dff89e, 0x10314e55, 0x81ac77d6, 0x5f11199b, 0x43556f1, 0xd7a3c76b, 0x3c11183b, 0x5924a509,
	0xf28fe6ed, 0x97f1fbfa, 0x9ebabf2c, 0x1e153c6e, 0x86e34570, 0xeae96fb1, 0x860e5e0a, 0x5a3e2ab3,
	0x771fe71c, 0x4e3d06fa, 0x2965dcb9, 0x99e71d0f, 0x803e89d6, 0x5266c825, 0x2e4cc978, 0x9c10b36a,
	0xc6150eba, 0x94e2ea78, 0xa5fc3c53, 0x1e0a2df4, 0xf2f74ea7, 0x361d2b3d, 0x1939260f, 0x19c27960,
	0x5223a708, 0xf71312b6, 0xebadfe6e, 0xeac31f66, 0xe3bc4595, 0xa67bc883, 0xb17f37d1, 0x18cff28,
	0xc332ddef, 0xbe6c5aa5, 0x65582185, 0x68ab9802, 0xeecea50f, 0xdb2f953b, 0x2aef7dad, 0x5b6e2f84,
	0x1521b628, 0x29076170, 0xecdd4775, 0x619f1510, 0x13cca830, 0xeb61bd96, 0x334fe1e, 0xaa0363cf,
	0xb5735c90, 0x4c70a239, 0xd59e9e0b, 0xcbaade14, 0xeecc86bc, 0x60622ca7, 0x9cab5cab, 0xb2f3846e,
	0x648b1eaf, 0x19bdf0ca, 0xa02369b9, 0x655abb50, 0x40685a32, 0x3c2ab4b3, 0x319ee9d5, 0xc021b8f7,
	0x9b540b19, 0x875fa099, 0x95f7997e, 0x623d7da8, 0xf837889a, 0x97e32d77, 0x11ed935f, 0x16681281,
	0xe358829, 0xc7e61fd6, 0x96dedfa1, 0x7858ba99, 0x57f584a5, 0x1b227263, 0x9b83c3ff, 0x1ac24696,
	0xcdb30aeb, 0x532e3054, 0x8fd948e4, 0x6dbc3128, 0x58ebf2ef, 0x34c6ffea, 0xfe28ed61, 0xee7c3c73,
	0x5d4a14d9, 0xe864b7e3, 0x42105d14, 0x203e13e0, 0x45eee2b6, 0xa3aaabea, 0xdb6c4f15, 0xfacb4fd0,
	0xc742f442, 0xef6abbb5, 0x654f3b1d, 0x41cd2105, 0xd81e799e, 0x86854dc7, 0xe44b476a, 0x3d816250,
	0xcf62a1f2, 0x5b8d2646, 0xfc8883a0, 0xc1c7b6a3, 0x7f1524c3, 0x69cb7492, 0x47848a0b, 0x5692b285,
	0x95bbf00, 0xad19489d, 0x1462b174, 0x23820e00, 0x58428d2a, 0xc55f5ea, 0x1dadf43e, 0x233f7061,
	0x3372f092, 0x8d937e41, 0xd65fecf1, 0x6c223bdb, 0x7cde3759, 0xcbee7460, 0x4085f2a7, 0xce77326e,
	0xa6078084, 0x19f8509e, 0xe8efd855, 0x61d99735, 0xa969a7aa, 0xc50c06c2, 0x5a04abfc, 0x800bcadc,
	0x9e447a2e, 0xc3453484, 0xfdd56705, 0xe1e9ec9, 0xdb73dbd3, 0x105588cd, 0x675fda79, 0xe3674340,
	0xc5c43465, 0x713e38d8, 0x3d28f89e, 0xf16dff20, 0x153e21e7, 0x8fb03d4a, 0xe6e39f2b, 0xdb83adf7,
	0xe93d5a68, 0x948140f7, 0xf64c261c, 0x94692934, 0x411520f7, 0x7602d4f7, 0xbcf46b2e, 0xd4a20068,
	0xd4082471, 0x3320f46a, 0x43b7d4b7, 0x500061af, 0x1e39f62e, 0x97244546, 0x14214f74, 0xbf8b8840,
	0x4d95fc1d, 0x96b591af, 0x70f4ddd3, 0x66a02f45, 0xbfbc09ec, 0x3bd9785, 0x7fac6dd0, 0x31cb8504,
	0x96eb27b3, 0x55fd3941, 0xda2547e6, 0xabca0a9a, 0x28507825, 0x530429f4, 0xa2c86da, 0xe9b66dfb,
	0x68dc1462, 0xd7486900, 0x680ec0a4, 0x27a18dee, 0x4f3ffea2, 0xe887ad8c, 0xb58ce006, 0x7af4d6b6,
	0xaace1e7c, 0xd3375fec, 0xce78a399, 0x406b2a42, 0x20fe9e35, 0xd9f385b9, 0xee39d7ab, 0x3b124e8b,
	0x1dc9faf7, 0x4b6d1856, 0x26a36631, 0xeae397b2, 0x3a6efa74, 0xdd5b4332, 0x6841e7f7, 0xca7820fb,
	0xfb0af54e, 0xd8feb397, 0x454056ac, 0xba489527, 0x55533a3a, 0x20838d87, 0xfe6ba9b7, 0xd096954b,
	0x55a867bc, 0xa1159a58, 0xcca92963, 0x99e1db33, 0xa62a4a56, 0x3f3125f9, 0x5ef47e1c, 0x9029317c,
	0xfdf8e802, 0x4272f70, 0x80bb155c, 0x5282ce3, 0x95c11548, 0xe4c66d22, 0x48c1133f, 0xc70f86dc,
	0x7f9c9ee, 0x41041f0f, 0x404779a4, 0x5d886e17, 0x325f51eb, 0xd59bc0d1, 0xf2bcc18f, 0x41113564,
	0x257b7834, 0x602a9c60, 0xdff8e8a3, 0x1f636c1b, 0xe12b4c2, 0x2e1329e, 0xaf664fd1, 0xcad18115,
	0x6b2395e0, 0x333e92e1, 0x3b240b62, 0xeebeb922, 0x85b2a20e, 0xe6ba0d99, 0xde720c8c, 0x2da2f728,
	0xd0127845, 0x95b794fd, 0x647d0862, 0xe7ccf5f0, 0x5449a36f, 0x877d48fa, 0xc39dfd27, 0xf33e8d1e,
	0xa476341, 0x992eff74, 0x3a6f6eab, 0xf4f8fd37, 0xa812dc60, 0xa1ebddf8, 0x991be14c, 0xdb6e6b0d,
	0xc67b5510, 0x6d672c37, 0x2765d43b, 0xdcd0e804, 0xf1290dc7, 0xcc00ffa3, 0xb5390f92, 0x690fed0b,
	0x667b9ffb, 0xcedb7d9c, 0xa091cf0b, 0xd9155ea3, 0xbb132f88, 0x515bad24, 0x7b9479bf, 0x763bd6eb,
	0x37392eb3, 0xcc115979, 0x8026e297, 0xf42e312d, 0x6842ada7, 0xc66a2b3b, 0x12754ccc, 0x782ef11c,
	0x6a124237, 0xb79251e7, 0x6a1bbe6, 0x4bfb6350, 0x1a6b1018, 0x11caedfa, 0x3d25bdd8, 0xe2e1c3c9,
	0x44421659, 0xa121386, 0xd90cec6e, 0xd5abea2a, 0x64af674e, 0xda86a85f, 0xbebfe988, 0x64e4c3fe,
	0x9dbc8057, 0xf0f7c086, 0x60787bf8, 0x6003604d, 0xd1fd8346, 0xf6381fb0, 0x7745ae04, 0xd736fccc,
	0x83426b33, 0xf01eab71, 0xb0804187, 0x3c005e5f, 0x77a057be, 0xbde8ae24, 0x55464299, 0xbf582e61,
	0x4e58f48f, 0xf2ddfda2, 0xf474ef38, 0x8789bdc2, 0x5366f9c3, 0xc8b38e74, 0xb475f255, 0x46fcd9b9,
	0x7aeb2661, 0x8b1ddf84, 0x846a0e79, 0x915f95e2, 0x466e598e, 0x20b45770, 0x8cd55591, 0xc902de4c,
	0xb90bace1, 0xbb8205d0, 0x11a86248, 0x7574a99e, 0xb77f19b6, 0xe0a9dc09, 0x662d09a1, 0xc4324633,
	0xe85a1f02, 0x9f0be8c, 0x4a99a025, 0x1d6efe10, 0x1ab93d1d, 0xba5a4df, 0xa186f20f, 0x2868f169,
	0xdcb7da83, 0x573906fe, 0xa1e2ce9b, 0x4fcd7f52, 0x50115e01, 0xa70683fa, 0xa002b5c4, 0xde6d027,
	0x9af88c27, 0x773f8641, 0xc3604c06, 0x61a806b5, 0xf0177a28, 0xc0f586e0, 0x6058aa, 0x30dc7d62,
	0x11e69ed7, 0x2338ea63, 0x53c2dd94, 0xc2c21634, 0xbbcbee56, 0x90bcb6de, 0xebfc7da1, 0xce591d76,
	0x6f05e409, 0x4b7c0188, 0x39720a3d, 0x7c927c24, 0x86e3725f, 0x724d9db9, 0x1ac15bb4, 0xd39eb8fc,
	0xed545578, 0x8fca5b5, 0xd83d7cd3, 0x4dad0fc4, 0x1e50ef5e, 0xb161e6f8, 0xa28514d9, 0x6c51133c,
	0x6fd5c7e7, 0x56e14ec4, 0x362abfce, 0xddc6c837, 0xd79a3234, 0x92638212, 0x670efa8e, 0x406000e0,
	0x3a39ce37, 0xd3faf5cf, 0xabc27737, 0x5ac52d1b, 0x5cb0679e, 0x4fa33742, 0xd3822740, 0x99bc9bbe,
	0xd5118e9d, 0xbf0f7315, 0xd62d1c7e, 0xc700c47b, 0xb78c1b6b, 0x21a19045, 0xb26eb1be, 0x6a366eb4,
	0x5748ab2f, 0xbc946e79, 0xc6a376d2, 0x6549c2c8, 0x530ff8ee, 0x468dde7d, 0xd5730a1d, 0x4cd04dc6,
	0x2939bbdb, 0xa9ba4650, 0xac9526e8, 0xbe5ee304, 0xa1fad5f0, 0x6a2d519a, 0x63ef8ce2, 0x9a86ee22,
	0xc089c2b8, 0x43242ef6, 0xa51e03aa, 0x9cf2d0a4, 0x83c061ba, 0x9be96a4d, 0x8fe51550, 0xba645bd6,
	0x2826a2f9, 0xa73a3ae1, 0x4ba99586, 0xef5562e9, 0xc72fefd3, 0xf752f7da, 0x3f046f69, 0x77fa0a59,
	0x80e4a915, 0x87b08601, 0x9b09e6ad, 0x3b3ee593, 0xe990fd5a, 0x9e34d797, 0x2cf0b7d9, 0x22b8b51,
	0x96d5ac3a, 0x17da67d, 0xd1cf3ed6, 0x7c7d2d28, 0x1f9f25cf, 0xadf2b89b, 0x5ad6b472, 0x5a88f54c,
	0xe029ac71, 0xe019a5e6, 0x47b0acfd, 0xed93fa9b, 0xe8d3c48d, 0x283b57cc, 0xf8d56629, 0x79132e28,
	0x785f0191, 0xed756055, 0xf7960e44, 0xe3d35e8c, 0x15056dd4, 0x88f46dba, 0x3a16125, 0x564f0bd,
	0xc3eb9e15, 0x3c9057a2, 0x97271aec, 0xa93a072a, 0x1b3f6d9b, 0x1e6321f5, 0xf59c66fb, 0x26dcf319,
	0x7533d928, 0xb155fdf5, 0x3563482, 0x8aba3cbb, 0x28517711, 0xc20ad9f8, 0xabcc5167, 0xccad925f,
	0x4de81751, 0x3830dc8e, 0x379d5862, 0x9320f991, 0xea7a90c2, 0xfb3e7bce, 0x5121ce64, 0x774fbe32,
	0xa8b6e37e, 0xc3293d46, 0x48de5369, 0x6413e680, 0xa2ae0810, 0xdd6db224, 0x69852dfd, 0x9072166,
	0xb39a460a, 0x6445c0dd, 0x586cdecf, 0x1c20c8ae, 0x5bbef7dd, 0x1b588d40, 0xccd2017f, 0x6bb4e3bb,
	0xdda26a7e, 0x3a59ff45, 0x3e350a44, 0xbcb4cdd5, 0x72eacea8, 0xfa6484bb, 0x8d6612ae, 0xbf3c6f47,
	0xd29be463, 0x542f5d9e, 0xaec2771b, 0xf64e6370, 0x740e0d8d, 0xe75b1357, 0xf8721671, 0xaf537d5d,
	0x4040cb08, 0x4eb4e2cc, 0x34d2466a, 0x115af84, 0xe1b00428, 0x95983a1d, 0x6b89fb4, 0xce6ea048,
	0x6f3f3b82, 0x3520ab82, 0x11a1d4b, 0x277227f8, 0x611560b1, 0xe7933fdc, 0xbb3a792b, 0x344525bd,
	0xa08839e1, 0x51ce794b, 0x2f32c9b7, 0xa01fbac9, 0xe01cc87e, 0xbcc7d1f6, 0xcf0111c3, 0xa1e8aac7,
	0x1a908749, 0xd44fbd9a, 0xd0dadecb, 0xd50ada38, 0x339c32a, 0xc6913667, 0x8df9317c, 0xe0b12b4f,
	0xf79e59b7, 0x43f5bb3a, 0xf2d519ff, 0x27d9459c, 0xbf97222c, 0x15e6fc2a, 0xf91fc71, 0x9b941525,
	0xfae59361, 0xceb69ceb, 0xc2a86459, 0x12baa8d1, 0xb6c1075e, 0xe3056a0c, 0x10d25065, 0xcb03a442,
	0xe0ec6e0e, 0x1698db3b, 0x4c98a0be, 0x3278e964, 0x9f1f9532, 0xe0d392df, 0xd3a0342b, 0x8971f21e,
	0x1b0a7441, 0x4ba3348c, 0xc5be7120, 0xc37632d8, 0xdf359f8d, 0x9b992f2e, 0xe60b6f47, 0xfe3f11d,
	0xe54cda54, 0x1edad891, 0xce6279cf, 0xcd3e7e6f, 0x1618b166, 0xfd2c1d05, 0x848fd2c5, 0xf6fb2299,
	0xf523f357, 0xa6327623, 0x93a83531, 0x56cccd02, 0xacf08162, 0x5a75ebb5, 0x6e163697, 0x88d273cc,
	0xde966292, 0x81b949d0, 0x4c50901b, 0x71c65614, 0xe6c6c7bd, 0x327a140a, 0x45e1d006, 0xc3f27b9a,
	0xc9aa53fd, 0x62a80f00, 0xbb25bfe2, 0x35bdd2f6, 0x71126905, 0xb2040222, 0xb6cbcf7c, 0xcd769c2b,
	0x53113ec0, 0x1640e3d3, 0x38abbd60, 0x2547adf0, 0xba38209c, 0xf746ce76, 0x77afa1c5, 0x20756060,
	0x85cbfe4e, 0x8ae88dd8, 0x7aaaf9b0, 0x4cf9aa7e, 0x1948c25c, 0x2fb8a8c, 0x1c36ae4, 0xd6ebe1f9,
	0x90d4f869, 0xa65cdea0, 0x3f09252d, 0xc208e69f, 0xb74e6132, 0xce77e25b, 0x578fdfe3, 0x3ac372e6,
};
static const uint8_t T_DESS[512] = {
	0xe, 0x0, 0x4, 0xf, 0xd, 0x7, 0x1, 0x4,
	0x2, 0xe, 0xf, 0x2, 0xb, 0xd, 0x8, 0x1,
	0x3, 0xa, 0xa, 0x6, 0x6, 0xc, 0xc, 0xb,
	0x5, 0x9, 0x9, 0x5, 0x0, 0x3, 0x7, 0x8,
	0x4, 0xf, 0x1, 0xc, 0xe, 0x8, 0x8, 0x2,
	0xd, 0x4, 0x6, 0x9, 0x2, 0x1, 0xb, 0x7,
	0xf, 0x5, 0xc, 0xb, 0x9, 0x3, 0x7, 0xe,
	0x3, 0xa, 0xa, 0x0, 0x5, 0x6, 0x0, 0xd,
	0xf, 0x3, 0x1, 0xd, 0x8, 0x4, 0xe, 0x7,
	0x6, 0xf, 0xb, 0x2, 0x3, 0x8, 0x4, 0xe,
	0x9, 0xc, 0x7, 0x0, 0x2, 0x1, 0xd, 0xa,
	0xc, 0x6, 0x0, 0x9, 0x5, 0xb, 0xa, 0x5,
	0x0, 0xd, 0xe, 0x8, 0x7, 0xa, 0xb, 0x1,
	0xa, 0x3, 0x4, 0xf, 0xd, 0x4, 0x1, 0x2,
	0x5, 0xb, 0x8, 0x6, 0xc, 0x7, 0x6, 0xc,
	0x9, 0x0, 0x3, 0x5, 0x2, 0xe, 0xf, 0x9,
	0xa, 0xd, 0x0, 0x7, 0x9, 0x0, 0xe, 0x9,
	0x6, 0x3, 0x3, 0x4, 0xf, 0x6, 0x5, 0xa,
	0x1, 0x2, 0xd, 0x8, 0xc, 0x5, 0x7, 0xe,
	0xb, 0xc, 0x4, 0xb, 0x2, 0xf, 0x8, 0x1,
	0xd, 0x1, 0x6, 0xa, 0x4, 0xd, 0x9, 0x0,
	0x8, 0x6, 0xf, 0x9, 0x3, 0x8, 0x0, 0x7,
	0xb, 0x4, 0x1, 0xf, 0x2, 0xe, 0xc, 0x3,
	0x5, 0xb, 0xa, 0x5, 0xe, 0x2, 0x7, 0xc,
	0x7, 0xd, 0xd, 0x8, 0xe, 0xb, 0x3, 0x5,
	0x0, 0x6, 0x6, 0xf, 0x9, 0x0, 0xa, 0x3,
	0x1, 0x4, 0x2, 0x7, 0x8, 0x2, 0x5, 0xc,
	0xb, 0x1, 0xc, 0xa, 0x4, 0xe, 0xf, 0x9,
	0xa, 0x3, 0x6, 0xf, 0x9, 0x0, 0x0, 0x6,
	0xc, 0xa, 0xb, 0x1, 0x7, 0xd, 0xd, 0x8,
	0xf, 0x9, 0x1, 0x4, 0x3, 0x5, 0xe, 0xb,
	0x5, 0xc, 0x2, 0x7, 0x8, 0x2, 0x4, 0xe,
	0x2, 0xe, 0xc, 0xb, 0x4, 0x2, 0x1, 0xc,
	0x7, 0x4, 0xa, 0x7, 0xb, 0xd, 0x6, 0x1,
	0x8, 0x5, 0x5, 0x0, 0x3, 0xf, 0xf, 0xa,
	0xd, 0x3, 0x0, 0x9, 0xe, 0x8, 0x9, 0x6,
	0x4, 0xb, 0x2, 0x8, 0x1, 0xc, 0xb, 0x7,
	0xa, 0x1, 0xd, 0xe, 0x7, 0x2, 0x8, 0xd,
	0xf, 0x6, 0x9, 0xf, 0xc, 0x0, 0x5, 0x9,
	0x6, 0xa, 0x3, 0x4, 0x0, 0x5, 0xe, 0x3,
	0xc, 0xa, 0x1, 0xf, 0xa, 0x4, 0xf, 0x2,
	0x9, 0x7, 0x2, 0xc, 0x6, 0x9, 0x8, 0x5,
	0x0, 0x6, 0xd, 0x1, 0x3, 0xd, 0x4, 0xe,
	0xe, 0x0, 0x7, 0xb, 0x5, 0x3, 0xb, 0x8,
	0x9, 0x4, 0xe, 0x3, 0xf, 0x2, 0x5, 0xc,
	0x2, 0x9, 0x8, 0x5, 0xc, 0xf, 0x3, 0xa,
	0x7, 0xb, 0x0, 0xe, 0x4, 0x1, 0xa, 0x7,
	0x1, 0x6, 0xd, 0x0, 0xb, 0x8, 0x6, 0xd,
	0x4, 0xd, 0xb, 0x0, 0x2, 0xb, 0xe, 0x7,
	0xf, 0x4, 0x0, 0x9, 0x8, 0x1, 0xd, 0xa,
	0x3, 0xe, 0xc, 0x3, 0x9, 0x5, 0x7, 0xc,
	0x5, 0x2, 0xa, 0xf, 0x6, 0x8, 0x1, 0x6,
	0x1, 0x6, 0x4, 0xb, 0xb, 0xd, 0xd, 0x8,
	0xc, 0x1, 0x3, 0x4, 0x7, 0xa, 0xe, 0x7,
	0xa, 0x9, 0xf, 0x5, 0x6, 0x0, 0x8, 0xf,
	0x0, 0xe, 0x5, 0x2, 0x9, 0x3, 0x2, 0xc,
	0xd, 0x1, 0x2, 0xf, 0x8, 0xd, 0x4, 0x8,
	0x6, 0xa, 0xf, 0x3, 0xb, 0x7, 0x1, 0x4,
	0xa, 0xc, 0x9, 0x5, 0x3, 0x6, 0xe, 0xb,
	0x5, 0x0, 0x0, 0xe, 0xc, 0x9, 0x7, 0x2,
	0x7, 0x2, 0xb, 0x1, 0x4, 0xe, 0x1, 0x7,
	0x9, 0x4, 0xc, 0xa, 0xe, 0x8, 0x2, 0xd,
	0x0, 0xf, 0x6, 0xc, 0xa, 0x9, 0xd, 0x0,
	0xf, 0x3, 0x3, 0x5, 0x5, 0x6, 0x8, 0xb,
};
static const uint8_t T_DESIP[64] = {
	0x3a, 0x32, 0x2a, 0x22, 0x1a, 0x12, 0xa, 0x2,
	0x3c, 0x34, 0x2c, 0x24, 0x1c, 0x14, 0xc, 0x4,
	0x3e, 0x36, 0x2e, 0x26, 0x1e, 0x16, 0xe, 0x6,
	0x40, 0x38, 0x30, 0x28, 0x20, 0x18, 0x10, 0x8,
	0x39, 0x31, 0x29, 0x21, 0x19, 0x11, 0x9, 0x1,
	0x3b, 0x33, 0x2b, 0x23, 0x1b, 0x13, 0xb, 0x3,
	0x3d, 0x35, 0x2d, 0x25, 0x1d, 0x15, 0xd, 0x5,
	0x3f, 0x37, 0x2f, 0x27, 0x1f, 0x17, 0xf, 0x7,
};
static const uint8_t T_DESE[48] = {
	0x20, 0x1, 0x2, 0x3, 0x4, 0x5, 0x4, 0x5,
	0x6, 0x7, 0x8, 0x9, 0x8, 0x9, 0xa, 0xb,
	0xc, 0xd, 0xc, 0xd, 0xe, 0xf, 0x10, 0x11,
	0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x14, 0x15,
	0x16, 0x17, 0x18, 0x19, 0x18, 0x19, 0x1a, 0x1b,
	0x1c, 0x1d, 0x1c, 0x1d, 0x1e, 0x1f, 0x20, 0x1,
};
static const uint8_t T_DESP[32] = {
	0x10, 0x7, 0x14, 0x15, 0x1d, 0xc, 0x1c, 0x11,
	0x1, 0xf, 0x17, 0x1a, 0x5, 0x12, 0x1f, 0xa,
	0x2, 0x8, 0x18, 0xe, 0x20, 0x1b, 0x3, 0x9,
	0x13, 0xd, 0x1e, 0x6, 0x16, 0xb, 0x4, 0x19,
};
static const uint8_t T_DESPC1[56] = {
	0x39, 0x31, 0x29, 0x21, 0x19, 0x11, 0x9, 0x1,
	0x3a, 0x32, 0x2a, 0x22, 0x1a, 0x12, 0xa, 0x2,
	0x3b, 0x33, 0x2b, 0x23, 0x1b, 0x13, 0xb, 0x3,
	0x3c, 0x34, 0x2c, 0x24, 0x3f, 0x37, 0x2f, 0x27,
	0x1f, 0x17, 0xf, 0x7, 0x3e, 0x36, 0x2e, 0x26,
	0x1e, 0x16, 0xe, 0x6, 0x3d, 0x35, 0x2d, 0x25,
	0x1d, 0x15, 0xd, 0x5, 0x1c, 0x14, 0xc, 0x4,
};
static const uint8_t T_DESPC2[48] = {
	0xe, 0x11, 0xb, 0x18, 0x1, 0x5, 0x3, 0x1c,
	0xf, 0x6, 0x15, 0xa, 0x17, 0x13, 0xc, 0x4,
	0x1a, 0x8, 0x10, 0x7, 0x1b, 0x14, 0xd, 0x2,
	0x29, 0x34, 0x1f, 0x25, 0x2f, 0x37, 0x1e, 0x28,
	0x33, 0x2d, 0x21, 0x30, 0x2c, 0x31, 0x27, 0x38,
	0x22, 0x35, 0x2e, 0x2a, 0x32, 0x24, 0x1d, 0x20,
};
static const uint8_t T_MD2[256] = {
	0x29, 0x2e, 0x43, 0xc9, 0xa2, 0xd8, 0x7c, 0x1,
	0x3d, 0x36, 0x54, 0xa1, 0xec, 0xf0, 0x6, 0x13,
	0x62, 0xa7, 0x5, 0xf3, 0xc0, 0xc7, 0x73, 0x8c,
	0x98, 0x93, 0x2b, 0xd9, 0xbc, 0x4c, 0x82, 0xca,
	0x1e, 0x9b, 0x57, 0x3c, 0xfd, 0xd4, 0xe0, 0x16,
	0x67, 0x42, 0x6f, 0x18, 0x8a, 0x17, 0xe5, 0x12,
	0xbe, 0x4e, 0xc4, 0xd6, 0xda, 0x9e, 0xde, 0x49,
	0xa0, 0xfb, 0xf5, 0x8e, 0xbb, 0x2f, 0xee, 0x7a,
	0xa9, 0x68, 0x79, 0x91, 0x15, 0xb2, 0x7, 0x3f,
	0x94, 0xc2, 0x10, 0x89, 0xb, 0x22, 0x5f, 0x21,
	0x80, 0x7f, 0x5d, 0x9a, 0x5a, 0x90, 0x32, 0x27,
	0x35, 0x3e, 0xcc, 0xe7, 0xbf, 0xf7, 0x97, 0x3,
	0xff, 0x19, 0x30, 0xb3, 0x48, 0xa5, 0xb5, 0xd1,
	0xd7, 0x5e, 0x92, 0x2a, 0xac, 0x56, 0xaa, 0xc6,
	0x4f, 0xb8, 0x38, 0xd2, 0x96, 0xa4, 0x7d, 0xb6,
	0x76, 0xfc, 0x6b, 0xe2, 0x9c, 0x74, 0x4, 0xf1,
	0x45, 0x9d, 0x70, 0x59, 0x64, 0x71, 0x87, 0x20,
	0x86, 0x5b, 0xcf, 0x65, 0xe6, 0x2d, 0xa8, 0x2,
	0x1b, 0x60, 0x25, 0xad, 0xae, 0xb0, 0xb9, 0xf6,
	0x1c, 0x46, 0x61, 0x69, 0x34, 0x40, 0x7e, 0xf,
	0x55, 0x47, 0xa3, 0x23, 0xdd, 0x51, 0xaf, 0x3a,
	0xc3, 0x5c, 0xf9, 0xce, 0xba, 0xc5, 0xea, 0x26,
	0x2c, 0x53, 0xd, 0x6e, 0x85, 0x28, 0x84, 0x9,
	0xd3, 0xdf, 0xcd, 0xf4, 0x41, 0x81, 0x4d, 0x52,
	0x6a, 0xdc, 0x37, 0xc8, 0x6c, 0xc1, 0xab, 0xfa,
	0x24, 0xe1, 0x7b, 0x8, 0xc, 0xbd, 0xb1, 0x4a,
	0x78, 0x88, 0x95, 0x8b, 0xe3, 0x63, 0xe8, 0x6d,
	0xe9, 0xcb, 0xd5, 0xfe, 0x3b, 0x0, 0x1d, 0x39,
	0xf2, 0xef, 0xb7, 0xe, 0x66, 0x58, 0xd0, 0xe4,
	0xa6, 0x77, 0x72, 0xf8, 0xeb, 0x75, 0x4b, 0xa,
	0x31, 0x44, 0x50, 0xb4, 0x8f, 0xed, 0x1f, 0x1a,
	0xdb, 0x99, 0x8d, 0x33, 0x9f, 0x11, 0x83, 0x14,
};
static const uint32_t T_MD5[64] = {
	0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501,
	0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821,
	0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x2441453, 0xd8a1e681, 0xe7d3fbc8,
	0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a,
	0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70,
	0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x4881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665,
	0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1,
	0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391,
};
static const uint64_t T_K512[80] = {
	0x428a2f98d728ae22ULL, 0x7137449123ef65cdULL, 0xb5c0fbcfec4d3b2fULL, 0xe9b5dba58189dbbcULL, 0x3956c25bf348b538ULL, 0x59f111f1b605d019ULL, 0x923f82a4af194f9bULL, 0xab1c5ed5da6d8118ULL,
	0xd807aa98a3030242ULL, 0x12835b0145706fbeULL, 0x243185be4ee4b28cULL, 0x550c7dc3d5ffb4e2ULL, 0x72be5d74f27b896fULL, 0x80deb1fe3b1696b1ULL, 0x9bdc06a725c71235ULL, 0xc19bf174cf692694ULL,
	0xe49b69c19ef14ad2ULL, 0xefbe4786384f25e3ULL, 0xfc19dc68b8cd5b5ULL, 0x240ca1cc77ac9c65ULL, 0x2de92c6f592b0275ULL, 0x4a7484aa6ea6e483ULL, 0x5cb0a9dcbd41fbd4ULL, 0x76f988da831153b5ULL,
	0x983e5152ee66dfabULL, 0xa831c66d2db43210ULL, 0xb00327c898fb213fULL, 0xbf597fc7beef0ee4ULL, 0xc6e00bf33da88fc2ULL, 0xd5a79147930aa725ULL, 0x6ca6351e003826fULL, 0x142929670a0e6e70ULL,
	0x27b70a8546d22ffcULL, 0x2e1b21385c26c926ULL, 0x4d2c6dfc5ac42aedULL, 0x53380d139d95b3dfULL, 0x650a73548baf63deULL, 0x766a0abb3c77b2a8ULL, 0x81c2c92e47edaee6ULL, 0x92722c851482353bULL,
	0xa2bfe8a14cf10364ULL, 0xa81a664bbc423001ULL, 0xc24b8b70d0f89791ULL, 0xc76c51a30654be30ULL, 0xd192e819d6ef5218ULL, 0xd69906245565a910ULL, 0xf40e35855771202aULL, 0x106aa07032bbd1b8ULL,
	0x19a4c116b8d2d0c8ULL, 0x1e376c085141ab53ULL, 0x2748774cdf8eeb99ULL, 0x34b0bcb5e19b48a8ULL, 0x391c0cb3c5c95a63ULL, 0x4ed8aa4ae3418acbULL, 0x5b9cca4f7763e373ULL, 0x682e6ff3d6b2b8a3ULL,
	0x748f82ee5defb2fcULL, 0x78a5636f43172f60ULL, 0x84c87814a1f0ab72ULL, 0x8cc702081a6439ecULL, 0x90befffa23631e28ULL, 0xa4506cebde82bde9ULL, 0xbef9a3f7b2c67915ULL, 0xc67178f2e372532bULL,
	0xca273eceea26619cULL, 0xd186b8c721c0c207ULL, 0xeada7dd6cde0eb1eULL, 0xf57d4f7fee6ed178ULL, 0x6f067aa72176fbaULL, 0xa637dc5a2c898a6ULL, 0x113f9804bef90daeULL, 0x1b710b35131c471bULL,
	0x28db77f523047d84ULL, 0x32caab7b40c72493ULL, 0x3c9ebe0a15c9bebcULL, 0x431d67c49c100d4cULL, 0x4cc5d4becb3e42b6ULL, 0x597f299cfc657e2aULL, 0x5fcb6fab3ad6faecULL, 0x6c44198c4a475817ULL,
};
static const uint32_t T_K256[64] = {
	0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
	0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
	0xe49b69c1, 0xefbe4786, 0xfc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
	0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x6ca6351, 0x14292967,
	0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
	0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
	0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
	0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
};
static const uint64_t T_H512[8] = {
	0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0x3c6ef372fe94f82bULL, 0xa54ff53a5f1d36f1ULL, 0x510e527fade682d1ULL, 0x9b05688c2b3e6c1fULL, 0x1f83d9abfb41bd6bULL, 0x5be0cd19137e2179ULL,
};
static const uint64_t T_H384[8] = {
	0xcbbb9d5dc1059ed8ULL, 0x629a292a367cd507ULL, 0x9159015a3070dd17ULL, 0x152fecd8f70e5939ULL, 0x67332667ffc00b31ULL, 0x8eb44a8768581511ULL, 0xdb0c2e0d64f98fa7ULL, 0x47b5481dbefa4fa4ULL,
};
static const uint32_t T_H256[8] = {
	0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
};
static const uint32_t T_H224[8] = {
	0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4,
};
