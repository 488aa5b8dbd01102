//! AES-128 encryption written from FIPS-197, with the S-box computed from its definition.

fn xtime(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}

pub struct Aes {
    sbox: [u8; 256],
}

impl Aes {
    pub fn new() -> Self {
        let mut sbox = [0u8; 256];
        for x in 0..=255u8 {
            let inv = (1..=255u8).find(|y| mul(x, *y) == 1).unwrap_or(0);
            let mut s = 0x63;
            for k in 0..5 {
                s ^= inv.rotate_left(k);
            }
            sbox[x as usize] = s;
        }
        Aes { sbox }
    }
    fn schedule(&self, key: &[u8; 16]) -> [[u8; 16]; 11] {
        let mut w = [[0u8; 4]; 44];
        for i in 0..4 {
            w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
        }
        let mut rcon = 1u8;
        for i in 4..44 {
            let mut t = w[i - 1];
            if i % 4 == 0 {
                t.rotate_left(1);
                for b in t.iter_mut() {
                    *b = self.sbox[*b as usize];
                }
                t[0] ^= rcon;
                rcon = xtime(rcon);
            }
            for j in 0..4 {
                w[i][j] = w[i - 4][j] ^ t[j];
            }
        }
        let mut r = [[0u8; 16]; 11];
        for i in 0..44 {
            r[i / 4][4 * (i % 4)..4 * (i % 4) + 4].copy_from_slice(&w[i]);
        }
        r
    }
    /// Calls `see(round, position, value)` for every S-box input of the data path.
    pub fn encrypt(&self, block: &[u8; 16], key: &[u8; 16], see: &mut dyn FnMut(usize, usize, u8)) -> [u8; 16] {
        let ks = self.schedule(key);
        let mut s = *block;
        for i in 0..16 {
            s[i] ^= ks[0][i];
        }
        for round in 1..=10 {
            let mut t = [0u8; 16];
            for i in 0..16 {
                see(round, i, s[i]);
                // row r of column c comes from column c + r
                t[(i + 16 - 4 * (i % 4)) % 16] = self.sbox[s[i] as usize];
            }
            if round < 10 {
                for c in 0..4 {
                    let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                    for r in 0..4 {
                        t[4 * c + r] = mul(a[r], 2) ^ mul(a[(r + 1) % 4], 3) ^ a[(r + 2) % 4] ^ a[(r + 3) % 4];
                    }
                }
            }
            for i in 0..16 {
                s[i] = t[i] ^ ks[round][i];
            }
        }
        s
    }
    /// The published examples, so that a slip in this file cannot pass for a defect of the circuit.
    pub fn self_test(&self) -> bool {
        let h = |s: &str| -> [u8; 16] {
            let v: Vec<u8> = (0..16).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
            v.try_into().unwrap()
        };
        [
            ("3243f6a8885a308d313198a2e0370734", "2b7e151628aed2a6abf7158809cf4f3c", "3925841d02dc09fbdc118597196a0b32"),
            ("00112233445566778899aabbccddeeff", "000102030405060708090a0b0c0d0e0f", "69c4e0d86a7b0430d8cdb78070b4c55a"),
            ("6bc1bee22e409f96e93d7e117393172a", "2b7e151628aed2a6abf7158809cf4f3c", "3ad77bb40d7a3660a89ecaf32466ef97"),
        ]
        .iter()
        .all(|(b, k, c)| self.encrypt(&h(b), &h(k), &mut |_, _, _| ()) == h(c))
    }
}
