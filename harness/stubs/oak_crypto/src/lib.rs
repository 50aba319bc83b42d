//! Stand-in for Oak's `oak_crypto`: ideal primitives for a single process. They
//! provide no security against anything but the simulated adversary, which only
//! ever replays, corrupts, reorders or fabricates bytes.
pub mod ideal {
    /// An invertible permutation standing for the private-to-public key map.
    pub fn public_of(secret: u64) -> u64 {
        secret.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23) ^ 0x5851_f42d_4c95_7f2d
    }
    pub fn secret_of(public: u64) -> u64 {
        const INV: u64 = {
            let a: u64 = 0x9e37_79b9_7f4a_7c15;
            let mut x: u64 = 1;
            let mut i = 0;
            while i < 6 {
                x = x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x)));
                i += 1;
            }
            x
        };
        (public ^ 0x5851_f42d_4c95_7f2d).rotate_right(23).wrapping_mul(INV)
    }
    pub fn mix(mut z: u64) -> u64 {
        z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn prf(key: u64, data: &[u8]) -> u64 {
        let mut h = mix(key ^ data.len() as u64);
        for chunk in data.chunks(8) {
            let mut b = [0u8; 8];
            b[..chunk.len()].copy_from_slice(chunk);
            h = mix(h ^ u64::from_le_bytes(b));
        }
        mix(h)
    }
    pub fn sign(secret: u64, data: &[u8]) -> Vec<u8> {
        prf(secret, data).to_le_bytes().to_vec()
    }
    pub fn verify(public: u64, data: &[u8], signature: &[u8]) -> bool {
        sign(secret_of(public), data) == signature
    }
    pub fn read_u64(bytes: &[u8]) -> Option<u64> {
        Some(u64::from_le_bytes(bytes.try_into().ok()?))
    }
    #[test]
    fn inverse() {
        for s in 0..100u64 {
            assert_eq!(secret_of(public_of(mix(s))), mix(s));
        }
    }
}

pub mod encryptor {
    pub struct Payload {
        pub message: Vec<u8>,
        pub nonce: Option<Vec<u8>>,
        pub aad: Option<Vec<u8>>,
    }
    pub trait Encryptor: Send {
        fn encrypt(&mut self, plaintext: Payload) -> anyhow::Result<Payload>;
        fn decrypt(&mut self, ciphertext: Payload) -> anyhow::Result<Payload>;
    }
}

pub mod noise_handshake {
    use super::ideal::*;
    pub const SYMMETRIC_KEY_LEN: usize = 32;
    /// Keys of an established session.
    pub struct OrderedCrypter {
        pub write_key: u64,
        pub read_key: u64,
    }
    impl OrderedCrypter {
        pub fn new(read_key: &[u8; SYMMETRIC_KEY_LEN], write_key: &[u8; SYMMETRIC_KEY_LEN]) -> Self {
            Self { write_key: prf(7, write_key), read_key: prf(7, read_key) }
        }
    }
    fn stream(key: u64, nonce: u32, data: &mut [u8]) {
        for (i, chunk) in data.chunks_mut(8).enumerate() {
            let ks = mix(key ^ mix(((nonce as u64) << 32) | i as u64)).to_le_bytes();
            for (b, k) in chunk.iter_mut().zip(ks) {
                *b ^= k;
            }
        }
    }
    pub fn seal(key: u64, nonce: u32, plaintext: &[u8]) -> Vec<u8> {
        let mut out = plaintext.to_vec();
        stream(key, nonce, &mut out);
        let tag = prf(key ^ mix(nonce as u64), plaintext);
        out.extend_from_slice(&tag.to_le_bytes());
        out
    }
    pub fn open(key: u64, nonce: u32, ciphertext: &[u8]) -> anyhow::Result<Vec<u8>> {
        if ciphertext.len() < 8 {
            anyhow::bail!("ciphertext too short");
        }
        let (body, tag) = ciphertext.split_at(ciphertext.len() - 8);
        let mut out = body.to_vec();
        stream(key, nonce, &mut out);
        if prf(key ^ mix(nonce as u64), &out).to_le_bytes() != tag {
            anyhow::bail!("decryption failed");
        }
        Ok(out)
    }
}
