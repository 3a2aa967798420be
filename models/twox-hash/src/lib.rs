//! Model of `twox-hash` for the symbolic build: an ideal (collision-free) hash.
//!
//! The 128-bit result is a function of the written bytes only, and two different byte
//! strings never get the same result. The engine supplies the numbering.
extern "C" {
    fn sym_hash128(p: *const u8, n: usize) -> u64;
}

fn ideal(bytes: &[u8]) -> u64 {
    unsafe { sym_hash128(bytes.as_ptr(), bytes.len()) }
}

const MAGIC: u64 = 0x5bd1_e995_9e37_79b9;

pub mod xxh3 {
    use std::hash::Hasher;

    pub trait HasherExt: Hasher {
        fn finish_ext(&self) -> u128;
    }

    #[derive(Clone, Default)]
    pub struct Hash128(Vec<u8>);

    impl Hash128 {
        pub fn with_seed(_: u64) -> Self {
            Self::default()
        }
    }

    impl Hasher for Hash128 {
        fn finish(&self) -> u64 {
            super::ideal(&self.0)
        }
        fn write(&mut self, b: &[u8]) {
            self.0.extend_from_slice(b);
        }
    }

    impl HasherExt for Hash128 {
        fn finish_ext(&self) -> u128 {
            ((super::MAGIC as u128) << 64) | super::ideal(&self.0) as u128
        }
    }

    #[derive(Clone, Default)]
    pub struct Hash64(Vec<u8>);

    impl Hash64 {
        pub fn with_seed(_: u64) -> Self {
            Self::default()
        }
    }

    impl Hasher for Hash64 {
        fn finish(&self) -> u64 {
            super::ideal(&self.0)
        }
        fn write(&mut self, b: &[u8]) {
            self.0.extend_from_slice(b);
        }
    }

    pub fn hash64(b: &[u8]) -> u64 {
        super::ideal(b)
    }
    pub fn hash128(b: &[u8]) -> u128 {
        ((super::MAGIC as u128) << 64) | super::ideal(b) as u128
    }
}

pub use xxh3::{Hash128 as Xxh3Hash128, Hash64 as Xxh3Hash64};

#[derive(Clone, Default)]
pub struct XxHash64(Vec<u8>);

impl XxHash64 {
    pub fn with_seed(_: u64) -> Self {
        Self::default()
    }
}

impl std::hash::Hasher for XxHash64 {
    fn finish(&self) -> u64 {
        ideal(&self.0)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
