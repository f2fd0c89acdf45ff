//! LZ4 frames stand-in (the real library is C): a tag, the length and the plain bytes.
pub mod lz4f {
    #[derive(Debug)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("LZ4 error")
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
    #[derive(Debug, Clone, Copy)]
    pub enum ContentChecksum {
        Disabled,
        Enabled,
    }
    #[derive(Debug, Clone, Copy)]
    pub struct Preferences(ContentChecksum);
    pub struct PreferencesBuilder(Preferences);
    impl PreferencesBuilder {
        pub fn new() -> Self {
            PreferencesBuilder(Preferences(ContentChecksum::Disabled))
        }
        pub fn content_checksum(&mut self, c: ContentChecksum) -> &mut Self {
            self.0 .0 = c;
            self
        }
        pub fn build(&self) -> Preferences {
            self.0
        }
    }
    const MAGIC: [u8; 4] = [0x04, 0x22, 0x4d, 0x18];
    pub fn compress_to_vec(src: &[u8], dst: &mut Vec<u8>, _: &Preferences) -> Result<usize> {
        let n = dst.len();
        dst.extend_from_slice(&MAGIC);
        dst.extend_from_slice(&(src.len() as u32).to_le_bytes());
        dst.extend_from_slice(src);
        Ok(dst.len() - n)
    }
    pub fn decompress_to_vec(src: &[u8], dst: &mut Vec<u8>) -> Result<usize> {
        if src.len() < 8 || src[..4] != MAGIC {
            return Err(Error);
        }
        let n = u32::from_le_bytes([src[4], src[5], src[6], src[7]]) as usize;
        if src.len() != 8 + n {
            return Err(Error);
        }
        dst.extend_from_slice(&src[8..]);
        Ok(n)
    }
}
