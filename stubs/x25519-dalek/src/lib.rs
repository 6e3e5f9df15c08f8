//! Stands in for x25519-dalek, which is not available offline: the same interface as far as ringrtc uses
//! it. The shared secret is the same on both sides and differs when one side's secret does.
use rand_core::{CryptoRng, RngCore};

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct PublicKey([u8; 32]);
#[derive(Clone)]
pub struct StaticSecret([u8; 32]);
pub struct EphemeralSecret([u8; 32]);
pub struct SharedSecret([u8; 32], bool);

fn mix(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut r = [0u8; 32];
    for i in 0..32 {
        r[i] = a[i].wrapping_add(b[i]);
    }
    r
}

fn random<R: RngCore + CryptoRng>(mut r: R) -> [u8; 32] {
    let mut b = [0u8; 32];
    r.fill_bytes(&mut b);
    b
}

fn public(s: &[u8; 32]) -> PublicKey {
    let mut r = *s;
    for b in r.iter_mut() {
        *b ^= 0x80;
    }
    PublicKey(r)
}

impl PublicKey {
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
}
impl AsRef<[u8]> for PublicKey {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl From<[u8; 32]> for PublicKey {
    fn from(b: [u8; 32]) -> Self {
        Self(b)
    }
}
impl From<&StaticSecret> for PublicKey {
    fn from(s: &StaticSecret) -> Self {
        public(&s.0)
    }
}
impl From<&EphemeralSecret> for PublicKey {
    fn from(s: &EphemeralSecret) -> Self {
        public(&s.0)
    }
}
impl StaticSecret {
    pub fn random_from_rng<R: RngCore + CryptoRng>(r: R) -> Self {
        Self(random(r))
    }
    pub fn diffie_hellman(&self, p: &PublicKey) -> SharedSecret {
        SharedSecret(mix(&self.0, &p.0), p.0 != [0; 32])
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
}
impl From<[u8; 32]> for StaticSecret {
    fn from(b: [u8; 32]) -> Self {
        Self(b)
    }
}
impl EphemeralSecret {
    pub fn random_from_rng<R: RngCore + CryptoRng>(r: R) -> Self {
        Self(random(r))
    }
    pub fn diffie_hellman(self, p: &PublicKey) -> SharedSecret {
        SharedSecret(mix(&self.0, &p.0), p.0 != [0; 32])
    }
}
impl SharedSecret {
    /// Of the low-order points, only zero is known here.
    pub fn was_contributory(&self) -> bool {
        self.1
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
}
impl AsRef<[u8]> for SharedSecret {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
