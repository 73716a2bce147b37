pub mod sha;
pub mod hm;
pub mod chacha;
pub mod aes;
pub mod points;
pub mod poly;
