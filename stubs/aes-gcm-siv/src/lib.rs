//! Stands in for AES-256-GCM-SIV: ideal authenticated encryption behind the same traits. What was
//! sealed opens under the same key and nonce; nothing else opens.
use std::cell::RefCell;

pub use aead::{self, AeadCore, AeadInPlace, Error, Key, KeyInit, KeySizeUser};
use aead::{
    consts::{U0, U12, U16, U32},
    Nonce, Tag,
};

struct Sealed {
    key: [u8; 32],
    nonce: [u8; 12],
    aad: Vec<u8>,
    text: Vec<u8>,
    tag: [u8; 16],
}
thread_local! {
    static SEALED: RefCell<Vec<Sealed>> = const { RefCell::new(Vec::new()) };
}

#[derive(Clone)]
pub struct Aes256GcmSiv {
    key: [u8; 32],
}

impl Aes256GcmSiv {
    fn mix(&self, nonce: &[u8], text: &mut [u8]) {
        for (i, b) in text.iter_mut().enumerate() {
            *b ^= self.key[i % 32].wrapping_add(nonce[i % 12]) ^ (i as u8) ^ 0x5a;
        }
    }
}
impl KeySizeUser for Aes256GcmSiv {
    type KeySize = U32;
}
impl KeyInit for Aes256GcmSiv {
    fn new(key: &Key<Self>) -> Self {
        Self { key: (*key).into() }
    }
}
impl AeadCore for Aes256GcmSiv {
    type NonceSize = U12;
    type TagSize = U16;
    type CiphertextOverhead = U0;
}
impl AeadInPlace for Aes256GcmSiv {
    fn encrypt_in_place_detached(
        &self,
        nonce: &Nonce<Self>,
        aad: &[u8],
        text: &mut [u8],
    ) -> Result<Tag<Self>, Error> {
        self.mix(nonce, text);
        SEALED.with(|s| {
            let mut s = s.borrow_mut();
            let tag = [s.len() as u8 ^ 0xa5; 16];
            s.push(Sealed {
                key: self.key,
                nonce: (*nonce).into(),
                aad: aad.to_vec(),
                text: text.to_vec(),
                tag,
            });
            Ok(tag.into())
        })
    }

    fn decrypt_in_place_detached(
        &self,
        nonce: &Nonce<Self>,
        aad: &[u8],
        text: &mut [u8],
        tag: &Tag<Self>,
    ) -> Result<(), Error> {
        let known = SEALED.with(|s| {
            s.borrow().iter().any(|s| {
                s.aad == aad
                    && s.tag[..] == tag[..]
                    && s.nonce[..] == nonce[..]
                    && s.text == text
                    && s.key == self.key
            })
        });
        if !known {
            return Err(Error);
        }
        self.mix(nonce, text);
        Ok(())
    }
}
