// mappings are copies of the file; a mapping in progress can be interrupted by harness_preempt
use std::io::{Read, Result};
#[derive(Debug)]
pub struct Mmap(Vec<u8>);
pub static mut PREEMPT: Option<extern "C-unwind" fn()> = None;
impl Mmap { pub unsafe fn map(f: &std::fs::File) -> Result<Mmap> { MmapOptions::new().map(f) } }
impl std::ops::Deref for Mmap { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for Mmap { fn as_ref(&self) -> &[u8] { &self.0 } }
#[derive(Clone, Debug, Default)]
pub struct MmapOptions { offset: u64, len: Option<usize> }
impl MmapOptions {
    pub fn new() -> Self { Self::default() }
    pub fn offset(&mut self, o: u64) -> &mut Self { self.offset = o; self }
    pub fn len(&mut self, n: usize) -> &mut Self { self.len = Some(n); self }
    pub unsafe fn map(&self, f: &std::fs::File) -> Result<Mmap> {
        let mut data = Vec::new();
        let mut buf = [0u8; 64];
        let mut f = f;
        loop { let n = f.read(&mut buf)?; if n == 0 { break; } data.extend_from_slice(&buf[..n]); }
        if self.offset > 0 { data.drain(..(self.offset as usize).min(data.len())); }
        if let Some(n) = self.len { data.truncate(n); }
        if let Some(f) = PREEMPT { PREEMPT = None; f(); }
        Ok(Mmap(data))
    }
}
