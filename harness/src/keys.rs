//! Written by tools/mkkeys.py.
pub struct Key {
    pub der: &'static [u8],
    pub n: &'static [u8],
}
pub const K512: Key = Key {
    der: &[0x30, 0x82, 0x01, 0x54, 0x02, 0x01, 0x00, 0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01, 0x05, 0x00, 0x04, 0x82, 0x01, 0x3e, 0x30, 0x82, 0x01, 0x3a, 0x02, 0x01, 0x00, 0x02, 0x41, 0x00, 0xb8, 0x60, 0x21, 0x5d, 0xe2, 0x6d, 0x42, 0x78, 0x37, 0x6d, 0x89, 0x34, 0xd5, 0x37, 0x11, 0x70, 0x45, 0x4a, 0x35, 0x33, 0x58, 0x61, 0x06, 0xdf, 0x2b, 0x02, 0x95, 0x9f, 0x76, 0xfd, 0x9b, 0xa6, 0xc8, 0x7b, 0xbc, 0x87, 0xeb, 0x6b, 0x26, 0x0e, 0xcc, 0x05, 0x3e, 0x56, 0x1b, 0x13, 0xb8, 0xe4, 0x6c, 0x8c, 0xf5, 0x72, 0x4a, 0x88, 0x04, 0x85, 0xa0, 0x12, 0x5e, 0xd4, 0xcb, 0x15, 0x9f, 0xf7, 0x02, 0x03, 0x01, 0x00, 0x01, 0x02, 0x40, 0x3b, 0x4c, 0x7f, 0xae, 0xc8, 0x62, 0x47, 0x9c, 0x8e, 0x87, 0x26, 0x37, 0xdd, 0xd3, 0x66, 0x42, 0x6b, 0xa6, 0xa0, 0x51, 0xb1, 0x3d, 0x13, 0x8e, 0xb7, 0x30, 0x8f, 0x9a, 0xc8, 0x14, 0x6c, 0xf8, 0xbd, 0x12, 0x33, 0x9e, 0x7f, 0x21, 0xee, 0x11, 0xb8, 0x25, 0xc2, 0x5f, 0x3e, 0xde, 0x20, 0xe6, 0x13, 0xdf, 0x66, 0x2f, 0x6b, 0xc5, 0x24, 0x18, 0x11, 0xaf, 0x05, 0x65, 0x22, 0xd4, 0x75, 0x41, 0x02, 0x21, 0x00, 0xeb, 0x7a, 0x79, 0x95, 0x95, 0x88, 0x53, 0x2d, 0x42, 0x42, 0xaa, 0xdb, 0xc8, 0xf4, 0x29, 0xa4, 0x79, 0xc8, 0xc2, 0x92, 0x6b, 0x94, 0xb5, 0xb5, 0x74, 0x98, 0x82, 0x32, 0x1e, 0x35, 0x04, 0xc7, 0x02, 0x21, 0x00, 0xc8, 0x71, 0x8c, 0x96, 0x6f, 0x3d, 0x88, 0xf7, 0xf4, 0xb1, 0xb6, 0x46, 0x33, 0xbe, 0x40, 0xf5, 0x51, 0x5c, 0x61, 0x23, 0x6c, 0x88, 0xc5, 0x37, 0x3c, 0xf3, 0xbd, 0x58, 0xda, 0x60, 0xfb, 0x51, 0x02, 0x21, 0x00, 0xcb, 0x3e, 0xbc, 0xee, 0xa5, 0x50, 0x33, 0x2a, 0x9f, 0x44, 0x57, 0xa0, 0xb8, 0x44, 0x36, 0x25, 0x26, 0x90, 0x67, 0x90, 0x65, 0x96, 0xc7, 0x77, 0xc5, 0x19, 0x55, 0x56, 0xd8, 0xc7, 0xbe, 0x45, 0x02, 0x20, 0x64, 0xa4, 0x6e, 0xdc, 0x91, 0xda, 0x29, 0xcd, 0xa6, 0x35, 0x1c, 0xba, 0x3e, 0xfc, 0xc6, 0x0c, 0xe6, 0xdf, 0x25, 0x7e, 0xed, 0xdd, 0xf6, 0x77, 0xf7, 0xc8, 0xc2, 0x47, 0xbc, 0xce, 0x79, 0x21, 0x02, 0x20, 0x1b, 0xd6, 0xfb, 0x2e, 0xf0, 0xe4, 0x2e, 0x62, 0xf3, 0x4f, 0x94, 0x4c, 0x81, 0xa6, 0x03, 0xd9, 0x0c, 0xdb, 0xec, 0x2d, 0x4f, 0x5e, 0x3a, 0x58, 0xd5, 0x15, 0x85, 0x07, 0xa7, 0xe5, 0x82, 0xf7],
    n: &[0xb8, 0x60, 0x21, 0x5d, 0xe2, 0x6d, 0x42, 0x78, 0x37, 0x6d, 0x89, 0x34, 0xd5, 0x37, 0x11, 0x70, 0x45, 0x4a, 0x35, 0x33, 0x58, 0x61, 0x06, 0xdf, 0x2b, 0x02, 0x95, 0x9f, 0x76, 0xfd, 0x9b, 0xa6, 0xc8, 0x7b, 0xbc, 0x87, 0xeb, 0x6b, 0x26, 0x0e, 0xcc, 0x05, 0x3e, 0x56, 0x1b, 0x13, 0xb8, 0xe4, 0x6c, 0x8c, 0xf5, 0x72, 0x4a, 0x88, 0x04, 0x85, 0xa0, 0x12, 0x5e, 0xd4, 0xcb, 0x15, 0x9f, 0xf7],
};
pub const K520: Key = Key {
    der: &[0x30, 0x82, 0x01, 0x58, 0x02, 0x01, 0x00, 0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01, 0x05, 0x00, 0x04, 0x82, 0x01, 0x42, 0x30, 0x82, 0x01, 0x3e, 0x02, 0x01, 0x00, 0x02, 0x42, 0x00, 0xd3, 0x15, 0x72, 0x3c, 0xef, 0x0c, 0x5e, 0xec, 0x8e, 0x41, 0x0e, 0x8e, 0x40, 0xd4, 0x72, 0xb3, 0x40, 0x65, 0xee, 0xb4, 0xa6, 0x70, 0xaf, 0xba, 0x1e, 0xa3, 0xe7, 0xde, 0x9d, 0xae, 0x27, 0xda, 0x7e, 0x46, 0x52, 0x0e, 0xd1, 0x18, 0x94, 0x23, 0x5a, 0xad, 0xfa, 0xbf, 0xe9, 0x57, 0xe8, 0xc7, 0xf8, 0xbf, 0x44, 0x59, 0x95, 0x19, 0x56, 0x75, 0x26, 0x2c, 0xe7, 0x3b, 0x37, 0x08, 0xe7, 0x68, 0xeb, 0x02, 0x03, 0x01, 0x00, 0x01, 0x02, 0x41, 0x12, 0xc3, 0xbb, 0x4e, 0x13, 0x6a, 0x24, 0x1e, 0x1f, 0x5f, 0x45, 0x2d, 0xfc, 0x31, 0x66, 0xa8, 0xec, 0xb6, 0xa3, 0x0b, 0xc8, 0x28, 0x08, 0x57, 0x21, 0x56, 0x2c, 0xcc, 0xab, 0x73, 0xc9, 0xf3, 0x2d, 0xe2, 0xa6, 0x70, 0xfa, 0xed, 0x26, 0xaf, 0xd2, 0xe4, 0x87, 0x10, 0xd8, 0xa0, 0x66, 0x34, 0xac, 0xe1, 0xff, 0xb2, 0x06, 0xa8, 0x4b, 0xd0, 0x07, 0x4c, 0xa4, 0x87, 0xd8, 0xc8, 0x05, 0x91, 0x61, 0x02, 0x21, 0x0f, 0xe1, 0xab, 0x3e, 0x01, 0xa5, 0x24, 0x0b, 0x60, 0x20, 0xd0, 0xb2, 0x9c, 0x0c, 0xf1, 0x97, 0xf4, 0x56, 0x25, 0x87, 0x1b, 0x82, 0xb9, 0xbf, 0xbc, 0x91, 0xba, 0x72, 0x57, 0xda, 0xbe, 0x23, 0x63, 0x02, 0x21, 0x0d, 0x4a, 0x89, 0x4d, 0xb7, 0xe4, 0x8f, 0x12, 0xb9, 0x6a, 0x5d, 0x67, 0x0a, 0xf9, 0xa3, 0x63, 0x8e, 0x5b, 0x08, 0xac, 0xc2, 0x13, 0xa5, 0xbf, 0x07, 0xda, 0x1b, 0x19, 0x50, 0x60, 0xc4, 0x0e, 0xd9, 0x02, 0x21, 0x05, 0xb8, 0x1e, 0x03, 0xf1, 0x71, 0xb8, 0x1e, 0x44, 0x9a, 0xec, 0xad, 0x35, 0x97, 0x4f, 0xb5, 0x8a, 0x2f, 0x2f, 0xca, 0x8c, 0xf4, 0xb1, 0xd1, 0xc3, 0xa5, 0xb3, 0x40, 0x14, 0x35, 0x58, 0xfd, 0xc3, 0x02, 0x21, 0x07, 0xbc, 0xdf, 0x16, 0xb9, 0xfa, 0x7c, 0x39, 0x00, 0x6d, 0x26, 0x17, 0x79, 0x52, 0x40, 0x87, 0x13, 0x37, 0x78, 0x63, 0x6b, 0x51, 0x98, 0xeb, 0x10, 0x1d, 0x30, 0x2d, 0x9a, 0x97, 0xdb, 0x4c, 0x71, 0x02, 0x21, 0x0d, 0x20, 0x98, 0x42, 0x67, 0x46, 0x01, 0x55, 0x24, 0x11, 0xf4, 0x53, 0x85, 0xb8, 0x40, 0x5a, 0xce, 0xde, 0x22, 0x5f, 0x03, 0x77, 0x83, 0x9a, 0xb2, 0x0d, 0xae, 0x0f, 0x61, 0x46, 0x22, 0x7d, 0x18],
    n: &[0xd3, 0x15, 0x72, 0x3c, 0xef, 0x0c, 0x5e, 0xec, 0x8e, 0x41, 0x0e, 0x8e, 0x40, 0xd4, 0x72, 0xb3, 0x40, 0x65, 0xee, 0xb4, 0xa6, 0x70, 0xaf, 0xba, 0x1e, 0xa3, 0xe7, 0xde, 0x9d, 0xae, 0x27, 0xda, 0x7e, 0x46, 0x52, 0x0e, 0xd1, 0x18, 0x94, 0x23, 0x5a, 0xad, 0xfa, 0xbf, 0xe9, 0x57, 0xe8, 0xc7, 0xf8, 0xbf, 0x44, 0x59, 0x95, 0x19, 0x56, 0x75, 0x26, 0x2c, 0xe7, 0x3b, 0x37, 0x08, 0xe7, 0x68, 0xeb],
};
pub const K528: Key = Key {
    der: &[0x30, 0x82, 0x01, 0x5c, 0x02, 0x01, 0x00, 0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01, 0x05, 0x00, 0x04, 0x82, 0x01, 0x46, 0x30, 0x82, 0x01, 0x42, 0x02, 0x01, 0x00, 0x02, 0x43, 0x00, 0xa2, 0xb7, 0x42, 0xb6, 0xf2, 0xe5, 0xce, 0xa0, 0x30, 0x2c, 0xb6, 0x29, 0x59, 0x45, 0xa0, 0x73, 0xdb, 0x51, 0xd1, 0x80, 0x32, 0x0d, 0x8e, 0xc3, 0x5b, 0x6b, 0xa1, 0x4b, 0xd2, 0xc1, 0xf9, 0x9a, 0xe9, 0x77, 0x4c, 0x80, 0x58, 0x63, 0xec, 0xcd, 0x5c, 0xe0, 0x55, 0xc4, 0x7a, 0x34, 0x75, 0x10, 0x6f, 0xfe, 0xe1, 0x1a, 0x52, 0x4d, 0x54, 0xcb, 0xb3, 0x78, 0x98, 0xba, 0x4c, 0xb4, 0xff, 0x81, 0xac, 0xef, 0x02, 0x03, 0x01, 0x00, 0x01, 0x02, 0x42, 0x38, 0x70, 0x70, 0x87, 0x9c, 0xc0, 0xf1, 0x66, 0xc6, 0xce, 0xfb, 0x70, 0x64, 0x32, 0xae, 0x71, 0x01, 0x45, 0xe3, 0xf1, 0x1f, 0x6b, 0x6c, 0x75, 0x7e, 0xa4, 0x5a, 0x92, 0x3e, 0x4c, 0x62, 0x13, 0xc5, 0x11, 0x86, 0xdd, 0x3f, 0x1d, 0xe1, 0x9b, 0xa0, 0xc9, 0x7c, 0xf0, 0x30, 0x56, 0xcf, 0xe6, 0x1f, 0xfb, 0x01, 0x1c, 0x53, 0x67, 0x7d, 0x74, 0x6a, 0x5f, 0x0d, 0xff, 0x9f, 0x08, 0xf2, 0xc4, 0x4b, 0xe1, 0x02, 0x22, 0x00, 0xd6, 0x4f, 0x3d, 0x9a, 0x4d, 0xe6, 0xcf, 0x02, 0xbb, 0x83, 0xd8, 0xe9, 0x2d, 0xf2, 0xad, 0xcc, 0x0e, 0xe6, 0x83, 0xac, 0xdf, 0x20, 0x60, 0xd7, 0xc4, 0x40, 0x0c, 0xb7, 0x0f, 0x96, 0x4e, 0x04, 0x75, 0x02, 0x22, 0x00, 0xc2, 0x5e, 0x9e, 0xcb, 0xa7, 0xa6, 0xa8, 0x6b, 0xd5, 0xa7, 0x55, 0x0d, 0x23, 0xe0, 0x85, 0xb0, 0x21, 0xe0, 0xd4, 0x4f, 0x2b, 0x13, 0x5a, 0xb0, 0x3d, 0x8d, 0xe4, 0x9e, 0xb1, 0xb0, 0x39, 0xef, 0x53, 0x02, 0x21, 0x79, 0x07, 0xff, 0x6e, 0x69, 0x98, 0x74, 0x48, 0xc2, 0xc5, 0xcf, 0x76, 0xc1, 0x30, 0x50, 0xde, 0xf1, 0x7b, 0x55, 0xda, 0x07, 0x99, 0x2d, 0x98, 0x2d, 0x89, 0x4e, 0xa5, 0x03, 0xf4, 0x8a, 0xd3, 0x11, 0x02, 0x21, 0x44, 0xeb, 0x54, 0x17, 0x16, 0x5d, 0x2b, 0xbf, 0x00, 0xc5, 0x12, 0x8d, 0x54, 0x39, 0x5a, 0x6d, 0xf7, 0xb5, 0x46, 0xd2, 0xc3, 0x8d, 0x5b, 0x4c, 0xbe, 0xa6, 0xbf, 0x77, 0xdd, 0xbd, 0x84, 0xed, 0x6d, 0x02, 0x21, 0x08, 0x4d, 0x68, 0x8e, 0x5d, 0xc5, 0x4e, 0xf8, 0x52, 0xff, 0x4e, 0x83, 0xe6, 0xaf, 0x0b, 0x80, 0xc2, 0xcc, 0xfe, 0x84, 0xed, 0x46, 0x7f, 0x48, 0x0b, 0x41, 0x6a, 0x02, 0x09, 0x07, 0xfa, 0x68, 0x49],
    n: &[0xa2, 0xb7, 0x42, 0xb6, 0xf2, 0xe5, 0xce, 0xa0, 0x30, 0x2c, 0xb6, 0x29, 0x59, 0x45, 0xa0, 0x73, 0xdb, 0x51, 0xd1, 0x80, 0x32, 0x0d, 0x8e, 0xc3, 0x5b, 0x6b, 0xa1, 0x4b, 0xd2, 0xc1, 0xf9, 0x9a, 0xe9, 0x77, 0x4c, 0x80, 0x58, 0x63, 0xec, 0xcd, 0x5c, 0xe0, 0x55, 0xc4, 0x7a, 0x34, 0x75, 0x10, 0x6f, 0xfe, 0xe1, 0x1a, 0x52, 0x4d, 0x54, 0xcb, 0xb3, 0x78, 0x98, 0xba, 0x4c, 0xb4, 0xff, 0x81, 0xac, 0xef],
};
