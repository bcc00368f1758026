//@rem generated constants: roots of primes, see tools
//@set NAME SHA-256
//@set TYPE Sha256
//@set FILE hash/sha256.rs
//@set ONESHOT sha256
//@set W u32
//@set BITS 32
//@set MOD 0x1_0000_0000
//@set BL 64
//@set R 64
//@set WB 4
//@set LB 8
//@set OUT 32
//@set HASH sha256_s
//@set TOP 24
//@set WN 80
//@set B00 2
//@set B01 13
//@set B02 22
//@set B10 6
//@set B11 11
//@set B12 25
//@set S00 7
//@set S01 18
//@set S02 3
//@set S10 17
//@set S11 19
//@set S12 10
//@set MAXLEN 0x20_0000_0000_0000
//@set OUTN 32u8
//@set K 0x428a2f98u32, 0x71374491u32, 0xb5c0fbcfu32, 0xe9b5dba5u32, 0x3956c25bu32, 0x59f111f1u32, 0x923f82a4u32, 0xab1c5ed5u32, 0xd807aa98u32, 0x12835b01u32, 0x243185beu32, 0x550c7dc3u32, 0x72be5d74u32, 0x80deb1feu32, 0x9bdc06a7u32, 0xc19bf174u32, 0xe49b69c1u32, 0xefbe4786u32, 0xfc19dc6u32, 0x240ca1ccu32, 0x2de92c6fu32, 0x4a7484aau32, 0x5cb0a9dcu32, 0x76f988dau32, 0x983e5152u32, 0xa831c66du32, 0xb00327c8u32, 0xbf597fc7u32, 0xc6e00bf3u32, 0xd5a79147u32, 0x6ca6351u32, 0x14292967u32, 0x27b70a85u32, 0x2e1b2138u32, 0x4d2c6dfcu32, 0x53380d13u32, 0x650a7354u32, 0x766a0abbu32, 0x81c2c92eu32, 0x92722c85u32, 0xa2bfe8a1u32, 0xa81a664bu32, 0xc24b8b70u32, 0xc76c51a3u32, 0xd192e819u32, 0xd6990624u32, 0xf40e3585u32, 0x106aa070u32, 0x19a4c116u32, 0x1e376c08u32, 0x2748774cu32, 0x34b0bcb5u32, 0x391c0cb3u32, 0x4ed8aa4au32, 0x5b9cca4fu32, 0x682e6ff3u32, 0x748f82eeu32, 0x78a5636fu32, 0x84c87814u32, 0x8cc70208u32, 0x90befffau32, 0xa4506cebu32, 0xbef9a3f7u32, 0xc67178f2u32
//@set H0 0x6a09e667u32, 0xbb67ae85u32, 0x3c6ef372u32, 0xa54ff53au32, 0x510e527fu32, 0x9b05688cu32, 0x1f83d9abu32, 0x5be0cd19u32
//@set SHLCASES assert((x as u32) << 0u32 == x as u32 * 0x1u32) by(bit_vector); assert((x as u32) << 8u32 == x as u32 * 0x100u32) by(bit_vector); assert((x as u32) << 16u32 == x as u32 * 0x10000u32) by(bit_vector); assert((x as u32) << 24u32 == x as u32 * 0x1000000u32) by(bit_vector);
//@set BM1 31u32
//@set WBS 2
//@set WBM 0x03
//@set TOPSH 56
//@include sha2_body.inc
