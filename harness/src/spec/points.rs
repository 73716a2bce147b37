//! Points of P-256: (scalar, x, y), made by tools/gen_points.py with the affine formulas of SEC 1.
pub struct Pt { pub k: [u8; 32], pub x: [u8; 32], pub y: [u8; 32] }
/// MULT[i] = (i + 1) G
pub static MULT: [Pt; 12] = [Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", x: *b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96", y: *b"\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", x: *b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78", y: *b"\x07\x77\x55\x10\xdb\x8e\xd0\x40\x29\x3d\x9a\xc6\x9f\x74\x30\xdb\xba\x7d\xad\xe6\x3c\xe9\x82\x29\x9e\x04\xb7\x9d\x22\x78\x73\xd1" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", x: *b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c", y: *b"\x87\x34\x64\x0c\x49\x98\xff\x7e\x37\x4b\x06\xce\x1a\x64\xa2\xec\xd8\x2a\xb0\x36\x38\x4f\xb8\x3d\x9a\x79\xb1\x27\xa2\x7d\x50\x32" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x04", x: *b"\xe2\x53\x4a\x35\x32\xd0\x8f\xbb\xa0\x2d\xde\x65\x9e\xe6\x2b\xd0\x03\x1f\xe2\xdb\x78\x55\x96\xef\x50\x93\x02\x44\x6b\x03\x08\x52", y: *b"\xe0\xf1\x57\x5a\x4c\x63\x3c\xc7\x19\xdf\xee\x5f\xda\x86\x2d\x76\x4e\xfc\x96\xc3\xf3\x0e\xe0\x05\x5c\x42\xc2\x3f\x18\x4e\xd8\xc6" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x05", x: *b"\x51\x59\x0b\x7a\x51\x51\x40\xd2\xd7\x84\xc8\x56\x08\x66\x8f\xdf\xef\x8c\x82\xfd\x1f\x5b\xe5\x24\x21\x55\x4a\x0d\xc3\xd0\x33\xed", y: *b"\xe0\xc1\x7d\xa8\x90\x4a\x72\x7d\x8a\xe1\xbf\x36\xbf\x8a\x79\x26\x0d\x01\x2f\x00\xd4\xd8\x08\x88\xd1\xd0\xbb\x44\xfd\xa1\x6d\xa4" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x06", x: *b"\xb0\x1a\x17\x2a\x76\xa4\x60\x2c\x92\xd3\x24\x2c\xb8\x97\xdd\xe3\x02\x4c\x74\x0d\xeb\xb2\x15\xb4\xc6\xb0\xaa\xe9\x3c\x22\x91\xa9", y: *b"\xe8\x5c\x10\x74\x32\x37\xda\xd5\x6f\xec\x0e\x2d\xfb\xa7\x03\x79\x1c\x00\xf7\x70\x1c\x7e\x16\xbd\xfd\x7c\x48\x53\x8f\xc7\x7f\xe2" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x07", x: *b"\x8e\x53\x3b\x6f\xa0\xbf\x7b\x46\x25\xbb\x30\x66\x7c\x01\xfb\x60\x7e\xf9\xf8\xb8\xa8\x0f\xef\x5b\x30\x06\x28\x70\x31\x87\xb2\xa3", y: *b"\x73\xeb\x1d\xbd\xe0\x33\x18\x36\x6d\x06\x9f\x83\xa6\xf5\x90\x00\x53\xc7\x36\x33\xcb\x04\x1b\x21\xc5\x5e\x1a\x86\xc1\xf4\x00\xb4" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x08", x: *b"\x62\xd9\x77\x9d\xbe\xe9\xb0\x53\x40\x42\x74\x2d\x3a\xb5\x4c\xad\xc1\xd2\x38\x98\x0f\xce\x97\xdb\xb4\xdd\x9d\xc1\xdb\x6f\xb3\x93", y: *b"\xad\x5a\xcc\xbd\x91\xe9\xd8\x24\x4f\xf1\x5d\x77\x11\x67\xce\xe0\xa2\xed\x51\xf6\xbb\xe7\x6a\x78\xda\x54\x0a\x6a\x0f\x09\x95\x7e" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x09", x: *b"\xea\x68\xd7\xb6\xfe\xdf\x0b\x71\x87\x89\x38\xd5\x1d\x71\xf8\x72\x9e\x0a\xcb\x8c\x2c\x6d\xf8\xb3\xd7\x9e\x8a\x4b\x90\x94\x9e\xe0", y: *b"\x2a\x27\x44\xc9\x72\xc9\xfc\xe7\x87\x01\x4a\x96\x4a\x8e\xa0\xc8\x4d\x71\x4f\xea\xa4\xde\x82\x3f\xe8\x5a\x22\x4a\x4d\xd0\x48\xfa" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0a", x: *b"\xce\xf6\x6d\x6b\x2a\x3a\x99\x3e\x59\x12\x14\xd1\xea\x22\x3f\xb5\x45\xca\x6c\x47\x1c\x48\x30\x6e\x4c\x36\x06\x94\x04\xc5\x72\x3f", y: *b"\x87\x86\x62\xa2\x29\xaa\xae\x90\x6e\x12\x3c\xdd\x9d\x3b\x4c\x10\x59\x0d\xed\x29\xfe\x75\x1e\xee\xca\x34\xbb\xaa\x44\xaf\x07\x73" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0b", x: *b"\x3e\xd1\x13\xb7\x88\x3b\x4c\x59\x06\x38\x37\x9d\xb0\xc2\x1c\xda\x16\x74\x2e\xd0\x25\x50\x48\xbf\x43\x33\x91\xd3\x74\xbc\x21\xd1", y: *b"\x90\x99\x20\x9a\xcc\xc4\xc8\xa2\x24\xc8\x43\xaf\xa4\xf4\xc6\x8a\x09\x0d\x04\xda\x5e\x98\x89\xda\xe2\xf8\xee\xfc\xe8\x2a\x37\x40" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0c", x: *b"\x74\x1d\xd5\xbd\xa8\x17\xd9\x5e\x46\x26\x53\x73\x20\xe5\xd5\x51\x79\x98\x30\x28\xb2\xf8\x2c\x99\xd5\x00\xc5\xee\x86\x24\xe3\xc4", y: *b"\x07\x70\xb4\x6a\x9c\x38\x5f\xdc\x56\x73\x83\x55\x48\x87\xb1\x54\x8e\xeb\x91\x2c\x35\xba\x5c\xa7\x19\x95\xff\x22\xcd\x44\x81\xd3" }];
pub static FULL_CLI: Pt = Pt { k: *b"\xd2\x3f\x08\x24\x12\x8b\x2f\x33\x0c\x5c\x7f\xd0\xa6\xa3\xa4\x50\x65\x13\x27\x0e\x26\x9e\x0d\x37\xf2\xa7\x4d\xe4\x52\xe6\xb4\x38", x: *b"\x77\x8d\x6f\xc9\xdd\x79\xde\x50\xfd\x1d\x7d\xd6\x7a\xc0\x2e\xca\x0b\x02\x21\x4b\xac\x18\xa5\x05\xd9\x1b\x15\xe4\x9d\x8c\xb2\x4c", y: *b"\x07\xe0\x4a\x4e\xff\x8d\xb5\x28\x71\xd0\x59\x34\x48\x81\x82\x8b\xc2\x30\x96\xc1\x9f\xcf\xc2\x09\x5d\xb7\xfa\x22\x6f\x4d\x90\x70" };
pub static FULL_SER: Pt = Pt { k: *b"\x36\xf6\x75\xcc\x81\xe7\x4e\xf5\xe8\xe2\x5d\x94\x0e\xd9\x04\x75\x95\x31\x98\x5d\x5d\x9d\xc9\xf8\x18\x18\xe8\x11\x89\x2f\x90\x2b", x: *b"\x20\xe8\x91\xdc\x52\x46\xd8\xe9\xc1\x5c\x01\x70\x33\x7d\xdb\xb9\x1b\xaf\xe2\xd4\xd0\x88\xe5\x9b\xd9\x60\xf5\x42\x34\xff\x60\x96", y: *b"\xd2\x81\x51\x2f\xa3\x1e\x49\xf9\x0b\x00\x00\xcf\x95\x4f\x90\x97\x3a\x60\xa6\x8f\x40\x9a\x09\x4e\x23\xbc\x02\xdb\x2d\x9b\xba\x7c" };
pub static FULL_DH: Pt = Pt { k: *b"\x23\x4c\x62\x1a\x5c\x03\x44\x62\x52\xe4\x25\x0d\x8c\x67\xc8\x59\xaa\x66\x07\x9d\xa7\xa6\x5f\x6a\xd9\xfe\x39\x7a\x74\x17\x54\xdc", x: *b"\x93\x87\x02\xfc\x36\x07\x4d\xc0\x48\xad\xd3\x6e\x6c\xdd\x63\xa4\x70\xb4\x92\x6a\x7d\xf3\x97\x75\x1d\x34\x09\xf6\x53\x5a\xbc\x14", y: *b"\x00\xf8\xf7\xc8\xac\x85\xa8\xf4\x6b\x60\x0f\x7d\xd0\x5b\xbc\x73\x35\xe9\x1f\xae\xc8\x34\xd4\x56\xea\x46\xa2\xe8\x4a\x92\xe5\x0e" };
/// client, server and shared points with zero bytes at the ends of their coordinates
pub static EDGE: [[Pt; 3]; 6] = [[Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xb8", x: *b"\xde\x75\x17\xcc\x2b\xc3\x7c\xe4\x06\x03\x10\x87\xe6\x7a\x81\x6a\x4e\xcb\x10\xad\x4e\x38\xaa\x55\x34\x50\xc5\x6f\xaa\x54\x5b\x45", y: *b"\xc4\xe2\x38\xd3\xf0\xa5\xa8\xcc\xdb\x72\xd6\xd9\x80\xcd\x24\xf4\x2d\x73\x38\x4f\x1c\x9a\x81\x50\xf4\xa3\x8d\x15\xd6\xe2\xa2\xef" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", x: *b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c", y: *b"\x87\x34\x64\x0c\x49\x98\xff\x7e\x37\x4b\x06\xce\x1a\x64\xa2\xec\xd8\x2a\xb0\x36\x38\x4f\xb8\x3d\x9a\x79\xb1\x27\xa2\x7d\x50\x32" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02\x28", x: *b"\x00\x75\xba\x8d\x34\x30\x49\x5f\xc6\x89\xe1\x02\x4b\x48\xe4\x8f\x4e\xc4\xd2\xed\xa5\xd5\xb8\xf8\xad\x76\x37\xda\xbf\x06\x5d\xf3", y: *b"\x20\x70\x5d\xf4\x84\xfb\x7c\x2e\x6d\x2d\x01\x3a\x12\x81\xf5\xdb\x2f\x6d\x02\x85\x16\x35\x29\x92\xd7\x30\x4f\x54\xce\x18\xb1\x4e" }], [Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x7b", x: *b"\x00\x55\x43\x89\x4a\xf3\xd0\x0e\xd7\xd7\x40\xab\xdb\xd7\x5c\x96\xb0\x68\x77\xb7\x87\xdb\x5f\x70\xee\xa7\x8b\x90\xa8\xd7\xc0\x0a", y: *b"\xbb\x4c\x85\xa3\xd8\xea\x29\xef\xaa\xfa\x24\x40\x69\x12\xdd\x84\xd5\xb1\x4d\xc3\x2b\xf6\x56\xef\x6c\x6b\xd5\x8a\x5d\x94\x3f\x92" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", x: *b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c", y: *b"\x87\x34\x64\x0c\x49\x98\xff\x7e\x37\x4b\x06\xce\x1a\x64\xa2\xec\xd8\x2a\xb0\x36\x38\x4f\xb8\x3d\x9a\x79\xb1\x27\xa2\x7d\x50\x32" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x04\x71", x: *b"\x71\x45\x0a\xeb\xd4\xb3\xb7\x94\xee\x96\xbe\x1f\x6f\xe4\xda\x6f\xf3\xeb\x24\x54\xce\x56\x71\x27\x6f\x11\xc9\xf8\x3a\x46\x18\xc2", y: *b"\x9b\x51\x26\x29\xfa\xe6\x15\x33\x5d\x02\x4a\x8f\x6d\x62\x9e\x0e\x7a\x9f\xb4\x32\xb9\xb3\x2c\x0e\x0c\xc6\xdc\xbb\x98\xf3\x28\x57" }], [Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x2b", x: *b"\x98\x6a\xe2\x50\x6f\x1f\xf1\x04\xd0\x42\x30\x86\x1d\x8f\x4b\x49\x8f\x4b\xc4\xc6\xd0\x09\xb3\x0f\x75\x44\xdc\x12\x9b\x82\xd2\x8d", y: *b"\x00\x3c\xcc\xc0\xa6\x46\x0e\x0a\xe3\x28\xa4\xd9\x7d\x3c\x7b\x61\xd8\x6f\xc6\x28\x9c\x18\x9f\x25\x25\x11\x0c\x44\x1b\xb0\x7e\x97" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", x: *b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78", y: *b"\x07\x77\x55\x10\xdb\x8e\xd0\x40\x29\x3d\x9a\xc6\x9f\x74\x30\xdb\xba\x7d\xad\xe6\x3c\xe9\x82\x29\x9e\x04\xb7\x9d\x22\x78\x73\xd1" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x56", x: *b"\x2d\x4b\xd5\x30\xc8\x41\x2d\x87\xd0\x04\xab\xc8\x45\xee\x45\x58\x6a\x7b\xe6\xc7\xcf\x60\x2c\xe2\x19\x7b\xf2\x78\x71\xd5\xa0\xb9", y: *b"\x8c\xdc\x2f\x64\x67\xe1\xc3\xfe\xb0\xad\x26\x0e\x1a\x75\x12\xcb\x12\x3e\xae\xa6\x11\x1c\x4f\xe7\x04\x5b\x36\x4c\x2e\xb1\xe4\x69" }], [Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", x: *b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78", y: *b"\x07\x77\x55\x10\xdb\x8e\xd0\x40\x29\x3d\x9a\xc6\x9f\x74\x30\xdb\xba\x7d\xad\xe6\x3c\xe9\x82\x29\x9e\x04\xb7\x9d\x22\x78\x73\xd1" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x7b", x: *b"\x00\x55\x43\x89\x4a\xf3\xd0\x0e\xd7\xd7\x40\xab\xdb\xd7\x5c\x96\xb0\x68\x77\xb7\x87\xdb\x5f\x70\xee\xa7\x8b\x90\xa8\xd7\xc0\x0a", y: *b"\xbb\x4c\x85\xa3\xd8\xea\x29\xef\xaa\xfa\x24\x40\x69\x12\xdd\x84\xd5\xb1\x4d\xc3\x2b\xf6\x56\xef\x6c\x6b\xd5\x8a\x5d\x94\x3f\x92" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02\xf6", x: *b"\x57\xe1\x76\x33\x99\xc7\xb0\xbc\x29\x12\x17\x78\x03\xbd\xef\xc9\x18\xf1\xb8\x93\x4b\x08\xa0\xc9\x10\xf2\x6f\xdb\x86\x10\xcc\xd3", y: *b"\xc2\x10\x25\x07\x1e\x4e\x27\x82\x88\xd7\x89\xaa\xe4\xad\xbd\xe7\x5d\x45\xfc\xf7\xa9\xb8\x6c\x68\xb7\x6b\x32\x12\xb5\x45\xc1\x1e" }], [Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", x: *b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78", y: *b"\x07\x77\x55\x10\xdb\x8e\xd0\x40\x29\x3d\x9a\xc6\x9f\x74\x30\xdb\xba\x7d\xad\xe6\x3c\xe9\x82\x29\x9e\x04\xb7\x9d\x22\x78\x73\xd1" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x2b", x: *b"\x98\x6a\xe2\x50\x6f\x1f\xf1\x04\xd0\x42\x30\x86\x1d\x8f\x4b\x49\x8f\x4b\xc4\xc6\xd0\x09\xb3\x0f\x75\x44\xdc\x12\x9b\x82\xd2\x8d", y: *b"\x00\x3c\xcc\xc0\xa6\x46\x0e\x0a\xe3\x28\xa4\xd9\x7d\x3c\x7b\x61\xd8\x6f\xc6\x28\x9c\x18\x9f\x25\x25\x11\x0c\x44\x1b\xb0\x7e\x97" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x56", x: *b"\x2d\x4b\xd5\x30\xc8\x41\x2d\x87\xd0\x04\xab\xc8\x45\xee\x45\x58\x6a\x7b\xe6\xc7\xcf\x60\x2c\xe2\x19\x7b\xf2\x78\x71\xd5\xa0\xb9", y: *b"\x8c\xdc\x2f\x64\x67\xe1\xc3\xfe\xb0\xad\x26\x0e\x1a\x75\x12\xcb\x12\x3e\xae\xa6\x11\x1c\x4f\xe7\x04\x5b\x36\x4c\x2e\xb1\xe4\x69" }], [Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x5b", x: *b"\x07\xa1\xe7\xe2\xc7\xde\x6b\xa1\x30\xc6\x19\x43\x6d\xd3\xf7\x1e\xf2\x40\x90\x7e\xbc\x70\x71\x01\x89\xc4\xcc\x1d\x38\x77\x38\xca", y: *b"\x9c\xfc\x49\x45\xaa\x3f\xd5\xff\xb2\x82\x82\x04\xcb\x47\x80\x6d\x03\x12\x3f\xe1\x58\xe4\x5d\xd2\x41\xa8\xd7\x71\x4d\x3c\x70\x49" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x03", x: *b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c", y: *b"\x87\x34\x64\x0c\x49\x98\xff\x7e\x37\x4b\x06\xce\x1a\x64\xa2\xec\xd8\x2a\xb0\x36\x38\x4f\xb8\x3d\x9a\x79\xb1\x27\xa2\x7d\x50\x32" }, Pt { k: *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x11", x: *b"\x70\x0a\xc6\x3d\x3d\xb3\xd6\x1f\xc9\xc3\x56\xd7\x9b\xa8\x29\xfd\xc9\xb2\x34\xa6\xb0\x53\x79\xe2\xc7\x6a\x10\x3e\xa6\xfc\x88\x00", y: *b"\x39\x67\x25\xf2\x5d\x95\x77\x34\xdf\x5e\xb0\x6f\x72\x45\x27\xf8\x4d\xd9\x2d\x70\x5f\x5c\x99\x6b\xad\x36\xcf\x8e\xf7\x2e\x6a\x32" }]];
/// public shares as encoded, and for those that are points of the curve the abscissa of twice the point
pub static SHARES: [([u8; 32], [u8; 32], Option<[u8; 32]>); 36] = [(*b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c", *b"\x87\x34\x64\x0c\x49\x98\xff\x7e\x37\x4b\x06\xce\x1a\x64\xa2\xec\xd8\x2a\xb0\x36\x38\x4f\xb8\x3d\x9a\x79\xb1\x27\xa2\x7d\x50\x32", Some(*b"\xb0\x1a\x17\x2a\x76\xa4\x60\x2c\x92\xd3\x24\x2c\xb8\x97\xdd\xe3\x02\x4c\x74\x0d\xeb\xb2\x15\xb4\xc6\xb0\xaa\xe9\x3c\x22\x91\xa9")), (*b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c", *b"\x78\xcb\x9b\xf2\xb6\x67\x00\x82\xc8\xb4\xf9\x31\xe5\x9b\x5d\x13\x27\xd5\x4f\xca\xc7\xb0\x47\xc2\x65\x86\x4e\xd8\x5d\x82\xaf\xcd", Some(*b"\xb0\x1a\x17\x2a\x76\xa4\x60\x2c\x92\xd3\x24\x2c\xb8\x97\xdd\xe3\x02\x4c\x74\x0d\xeb\xb2\x15\xb4\xc6\xb0\xaa\xe9\x3c\x22\x91\xa9")), (*b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", *b"\x66\x48\x5c\x78\x0e\x2f\x83\xd7\x24\x33\xbd\x5d\x84\xa0\x6b\xb6\x54\x1c\x2a\xf3\x1d\xae\x87\x17\x28\xbf\x85\x6a\x17\x4f\x93\xf4", Some(*b"\xc2\x24\x2b\xe3\x59\x87\x9e\xcf\x8a\x92\xb8\xd9\x79\xc6\xdc\x96\xd9\x00\x5a\x00\x23\x6b\xa2\x0e\x7e\xb2\x46\x5f\xe7\x68\x29\xb4")), (*b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x05", *b"\x45\x92\x43\xb9\xaa\x58\x18\x06\xfe\x91\x3b\xce\x99\x81\x7a\xde\x11\xca\x50\x3c\x64\xd9\xa3\xc5\x33\x41\x5c\x08\x32\x48\xfb\xcc", Some(*b"\xda\x16\x68\xc0\x74\xf3\x30\x6b\xfa\x0a\xab\xbf\xb1\xc5\xfd\xae\x69\x0a\x96\x07\xf6\x64\xc8\x07\x5a\x01\x62\x0b\x71\x63\x4a\x9d")), (*b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x06", *b"\xc9\x4d\xb3\xd2\xab\xda\xf5\x3e\xb9\x96\x7a\x1a\xcc\x8d\xff\xb8\x23\x2e\xfd\x48\xf0\x18\x3f\x16\xdd\xf2\xae\xd7\x7d\x7d\xdc\x34", Some(*b"\x0e\x00\xd4\x1b\x45\x14\x66\xd1\xe7\xc7\xc5\x82\xa1\xa6\xda\xea\x9d\xa6\x49\x08\x97\x10\x84\xc5\x78\xcf\xc3\xe6\xd1\x4d\x2e\x63")), (*b"\xd7\x32\x5d\x76\x46\xcd\x60\xd8\x0a\x92\x73\x8c\xeb\x34\x5f\x84\x4c\xff\xaf\x35\x84\x10\x22\xca\xb1\x76\xf6\x92\xde\x8d\xe1\xd7", *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x05", Some(*b"\x17\x50\xd6\x2c\x8f\xb8\x65\x7f\xee\xc0\x02\x94\x10\xbf\x58\xb3\xac\x8c\x3f\xd8\x76\x2b\xd2\xa4\x48\x92\x6b\xc0\x31\x14\x81\x22")), (*b"\x66\x55\x86\x18\x94\xc5\xd2\xf4\x9b\xf3\xdb\xc1\xb3\xb1\x75\x00\x95\x30\xf4\x30\x0e\x73\xf9\xd1\xa1\x6c\x4e\xff\xb4\x49\x56\xf6", *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0b", Some(*b"\x88\xa3\x97\x6b\x4c\x06\xa7\x5f\xce\xd1\xd9\x2e\xc0\x45\xaa\xbc\x27\x1a\xc7\x4f\x88\x9b\xdd\xff\xea\x71\x1a\x81\x2c\x89\x45\xf5")), (*b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78", *b"\xf8\x88\xaa\xee\x24\x71\x2f\xc0\xd6\xc2\x65\x39\x60\x8b\xcf\x24\x45\x82\x52\x1a\xc3\x16\x7d\xd6\x61\xfb\x48\x62\xdd\x87\x8c\x2e", Some(*b"\xe2\x53\x4a\x35\x32\xd0\x8f\xbb\xa0\x2d\xde\x65\x9e\xe6\x2b\xd0\x03\x1f\xe2\xdb\x78\x55\x96\xef\x50\x93\x02\x44\x6b\x03\x08\x52")), (*b"\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96", *b"\xb0\x1c\xbd\x1c\x01\xe5\x80\x65\x71\x18\x14\xb5\x83\xf0\x61\xe9\xd4\x31\xcc\xa9\x94\xce\xa1\x31\x34\x49\xbf\x97\xc8\x40\xae\x0a", Some(*b"\x7c\xf2\x7b\x18\x8d\x03\x4f\x7e\x8a\x52\x38\x03\x04\xb5\x1a\xc3\xc0\x89\x69\xe2\x77\xf2\x1b\x35\xa6\x0b\x48\xfc\x47\x66\x99\x78")), (*b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", *b"\x66\x48\x5c\x78\x0e\x2f\x83\xd7\x24\x33\xbd\x5d\x84\xa0\x6b\xb6\x54\x1c\x2a\xf3\x1d\xae\x87\x17\x28\xbf\x85\x6a\x17\x4f\x93\xf4", None), (*b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x04", *b"\x45\x92\x43\xb9\xaa\x58\x18\x06\xfe\x91\x3b\xce\x99\x81\x7a\xde\x11\xca\x50\x3c\x64\xd9\xa3\xc5\x33\x41\x5c\x08\x32\x48\xfb\xcc", None), (*b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x05", *b"\xc9\x4d\xb3\xd2\xab\xda\xf5\x3e\xb9\x96\x7a\x1a\xcc\x8d\xff\xb8\x23\x2e\xfd\x48\xf0\x18\x3f\x16\xdd\xf2\xae\xd7\x7d\x7d\xdc\x34", None), (*b"\xd7\x32\x5d\x76\x46\xcd\x60\xd8\x0a\x92\x73\x8c\xeb\x34\x5f\x84\x4c\xff\xaf\x35\x84\x10\x22\xca\xb1\x76\xf6\x92\xde\x8d\xe1\xd7", *b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x04", None), (*b"\x66\x55\x86\x18\x94\xc5\xd2\xf4\x9b\xf3\xdb\xc1\xb3\xb1\x75\x00\x95\x30\xf4\x30\x0e\x73\xf9\xd1\xa1\x6c\x4e\xff\xb4\x49\x56\xf6", *b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0a", None), (*b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", None), (*b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", *b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", None), (*b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", *b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", None), (*b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", None), (*b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", *b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", None), (*b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", None), (*b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", None), (*b"\x87\x34\x64\x0c\x49\x98\xff\x7e\x37\x4b\x06\xce\x1a\x64\xa2\xec\xd8\x2a\xb0\x36\x38\x4f\xb8\x3d\x9a\x79\xb1\x27\xa2\x7d\x50\x32", *b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c", None), (*b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c", *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", None), (*b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", *b"\x87\x34\x64\x0c\x49\x98\xff\x7e\x37\x4b\x06\xce\x1a\x64\xa2\xec\xd8\x2a\xb0\x36\x38\x4f\xb8\x3d\x9a\x79\xb1\x27\xa2\x7d\x50\x32", None), (*b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6d", *b"\x87\x34\x64\x0c\x49\x98\xff\x7e\x37\x4b\x06\xce\x1a\x64\xa2\xec\xd8\x2a\xb0\x36\x38\x4f\xb8\x3d\x9a\x79\xb1\x27\xa2\x7d\x50\x32", None), (*b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c", *b"\x87\x34\x64\x0c\x49\x98\xff\x7e\x37\x4b\x06\xce\x1a\x64\xa2\xec\xd8\x2a\xb0\x36\x38\x4f\xb8\x3d\x9a\x79\xb1\x27\xa2\x7d\x50\x33", None), (*b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c", *b"\x07\x34\x64\x0c\x49\x98\xff\x7e\x37\x4b\x06\xce\x1a\x64\xa2\xec\xd8\x2a\xb0\x36\x38\x4f\xb8\x3d\x9a\x79\xb1\x27\xa2\x7d\x50\x32", None), (*b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x84\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c", *b"\x87\x34\x64\x0c\x49\x98\xff\x7e\x37\x4b\x06\xce\x1a\x64\xa2\xec\xd8\x2a\xb0\x36\x38\x4f\xb8\x3d\x9a\x79\xb1\x27\xa2\x7d\x50\x32", None), (*b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe", *b"\x87\x34\x64\x0c\x49\x98\xff\x7e\x37\x4b\x06\xce\x1a\x64\xa2\xec\xd8\x2a\xb0\x36\x38\x4f\xb8\x3d\x9a\x79\xb1\x27\xa2\x7d\x50\x32", None), (*b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c", *b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c", None), (*b"\xa1\x34\x1b\x2d\x59\xcc\xf5\xbc\x37\x08\x10\x6a\xe2\xb4\x0e\x9a\x19\x39\x48\xdf\x10\x52\x56\x7a\x04\xbe\x99\xe4\x39\x18\x02\x93", *b"\x87\x34\x64\x0c\x49\x98\xff\x7e\x37\x4b\x06\xce\x1a\x64\xa2\xec\xd8\x2a\xb0\x36\x38\x4f\xb8\x3d\x9a\x79\xb1\x27\xa2\x7d\x50\x32", None), (*b"\xa1\x34\x1b\x2d\x59\xcc\xf5\xbc\x37\x08\x10\x6a\xe2\xb4\x0e\x9a\x19\x39\x48\xdf\x10\x52\x56\x7a\x04\xbe\x99\xe4\x39\x18\x02\x93", *b"\x78\xcb\x9b\xf2\xb6\x67\x00\x82\xc8\xb4\xf9\x31\xe5\x9b\x5d\x13\x27\xd5\x4f\xca\xc7\xb0\x47\xc2\x65\x86\x4e\xd8\x5d\x82\xaf\xcd", None), (*b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", *b"\x66\x48\x5c\x78\x0e\x2f\x83\xd7\x24\x33\xbd\x5d\x84\xa0\x6b\xb6\x54\x1c\x2a\xf3\x1d\xae\x87\x17\x28\xbf\x85\x6a\x17\x4f\x93\xf4", None), (*b"\xff\xff\xff\xff\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", *b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", None), (*b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", *b"\x87\x34\x64\x0c\x49\x98\xff\x7e\x37\x4b\x06\xce\x1a\x64\xa2\xec\xd8\x2a\xb0\x36\x38\x4f\xb8\x3d\x9a\x79\xb1\x27\xa2\x7d\x50\x32", None), (*b"\x5e\xcb\xe4\xd1\xa6\x33\x0a\x44\xc8\xf7\xef\x95\x1d\x4b\xf1\x65\xe6\xc6\xb7\x21\xef\xad\xa9\x85\xfb\x41\x66\x1b\xc6\xe7\xfd\x6c", *b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", None)];
