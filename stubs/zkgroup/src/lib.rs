//! Stands in for libsignal's zkgroup, which is not available offline: the same interface as far as
//! ringrtc uses it, with ideal contents. A ciphertext names whom it is for and which call link's key it
//! was made with; endorsements name whom they endorse.
use std::time::{Duration, SystemTime};

use serde::{de::DeserializeOwned, Deserialize, Serialize};

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Timestamp(u64);
impl Timestamp {
    pub const fn from_epoch_seconds(s: u64) -> Self {
        Self(s)
    }
    pub const fn epoch_seconds(&self) -> u64 {
        self.0
    }
}
impl From<Timestamp> for SystemTime {
    fn from(t: Timestamp) -> Self {
        SystemTime::UNIX_EPOCH + Duration::from_secs(t.0)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ZkGroupVerificationFailure;
impl std::fmt::Display for ZkGroupVerificationFailure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("verification failure")
    }
}
impl std::error::Error for ZkGroupVerificationFailure {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ZkGroupDeserializationFailure;
impl std::fmt::Display for ZkGroupDeserializationFailure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("deserialization failure")
    }
}
impl std::error::Error for ZkGroupDeserializationFailure {}

pub fn serialize<T: Serialize>(v: &T) -> Vec<u8> {
    bincode::serialize(v).unwrap()
}

pub fn deserialize<T: DeserializeOwned>(b: &[u8]) -> Result<T, ZkGroupDeserializationFailure> {
    bincode::deserialize(b).map_err(|_| ZkGroupDeserializationFailure)
}

/// Valid responses carry the same number.
#[derive(Copy, Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct EndorsementPublicKey(pub u8);

pub mod call_links {
    use super::{groups::UuidCiphertext, *};

    #[derive(Copy, Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct CallLinkSecretParams {
        /// What the key was derived from, up to collisions: its first byte.
        pub key: u8,
    }

    pub struct ServiceId(pub [u8; 16]);
    impl ServiceId {
        pub fn service_id_binary(&self) -> Vec<u8> {
            self.0.to_vec()
        }
    }

    impl CallLinkSecretParams {
        pub const ROOT_KEY_MAX_BYTES_FOR_SHO: usize = 16;
        pub fn derive_from_root_key(root_key: &[u8]) -> Self {
            Self { key: root_key[0] }
        }
        pub fn encrypt_uid(&self, id: [u8; 16]) -> UuidCiphertext {
            UuidCiphertext { key: self.key, id }
        }
        pub fn decrypt_uid(&self, c: UuidCiphertext) -> Result<ServiceId, ZkGroupVerificationFailure> {
            if c.key == self.key {
                Ok(ServiceId(c.id))
            } else {
                Err(ZkGroupVerificationFailure)
            }
        }
    }
}

pub mod groups {
    use super::*;

    #[derive(Copy, Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct UuidCiphertext {
        pub key: u8,
        pub id: [u8; 16],
    }

    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct GroupSendEndorsement {
        pub of: Vec<u8>,
    }
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct GroupSendToken {
        pub of: Vec<u8>,
        pub key: u8,
    }
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct GroupSendFullToken {
        pub token: GroupSendToken,
        pub expiration: Timestamp,
    }
    impl GroupSendEndorsement {
        pub fn combine(es: impl IntoIterator<Item = GroupSendEndorsement>) -> Self {
            Self { of: es.into_iter().flat_map(|e| e.of).collect() }
        }
        pub fn to_token(&self, p: call_links::CallLinkSecretParams) -> GroupSendToken {
            GroupSendToken { of: self.of.clone(), key: p.key }
        }
    }
    impl GroupSendToken {
        pub fn into_full_token(self, expiration: Timestamp) -> GroupSendFullToken {
            GroupSendFullToken { token: self, expiration }
        }
    }

    pub struct ReceivedEndorsement {
        pub decompressed: GroupSendEndorsement,
    }

    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct GroupSendEndorsementsResponse {
        pub expiration: Timestamp,
        pub issuer: u8,
    }
    impl GroupSendEndorsementsResponse {
        pub fn expiration(&self) -> Timestamp {
            self.expiration
        }
        pub fn receive_with_ciphertexts(
            self,
            members: impl IntoIterator<Item = UuidCiphertext>,
            now: Timestamp,
            key: &EndorsementPublicKey,
        ) -> Result<Vec<ReceivedEndorsement>, ZkGroupVerificationFailure> {
            if self.issuer != key.0 || self.expiration < now {
                return Err(ZkGroupVerificationFailure);
            }
            Ok(members
                .into_iter()
                .map(|c| ReceivedEndorsement { decompressed: GroupSendEndorsement { of: vec![c.id[0]] } })
                .collect())
        }
    }
}
