pub mod alloc;
pub mod ctx;
pub mod dict;
pub mod model;
pub mod p_cert;
pub mod p_codec;
pub mod p_codec2;
pub mod p_noise;
pub use refc as refcrypto;
pub mod refnoise;
pub mod subjects;
pub mod util;
pub mod vclock;
pub mod p_keys;
pub mod p_peer;
pub mod p_forget;
pub mod p_mem;
pub mod p_world;
pub mod p_work;
pub mod p_cage;
#[cfg(miri)]
pub mod ffi;
