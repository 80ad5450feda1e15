// the members of an archive are those the harness announced
use std::{borrow::Cow, io, path::Path};
#[derive(Clone)] pub struct Member { pub name: Vec<u8>, pub offset: u64, pub size: u64, pub stored: u64, pub kind: u8 }
pub static mut MEMBERS: Vec<Member> = Vec::new();
pub static mut BROKEN: u64 = 0;
pub struct Archive<R>(R);
pub struct Entries(usize);
pub struct Entry(Member);
#[derive(Clone)] pub struct Header(Member);
#[derive(PartialEq, Eq, Clone, Copy, Debug)] pub enum EntryType { Regular, Link, Symlink, Char, Block, Directory, Fifo, Continuous, GNUSparse }
impl EntryType { pub fn is_file(&self) -> bool { *self == EntryType::Regular } pub fn is_dir(&self) -> bool { *self == EntryType::Directory }
    pub fn is_gnu_sparse(&self) -> bool { *self == EntryType::GNUSparse } }
impl<R: io::Read> Archive<R> {
    pub fn new(r: R) -> Self { Archive(r) }
    pub fn entries_with_seek(&mut self) -> io::Result<Entries> { Ok(Entries(0)) }
    pub fn entries(&mut self) -> io::Result<Entries> { Ok(Entries(0)) }
}
impl Iterator for Entries { type Item = io::Result<Entry>;
    fn next(&mut self) -> Option<io::Result<Entry>> { unsafe {
        let i = self.0; self.0 += 1;
        let m: &Vec<Member> = &*std::ptr::addr_of!(MEMBERS);
        if BROKEN == i as u64 + 1 { return Some(Err(io::Error::from(io::ErrorKind::Other))); }
        m.get(i).map(|m| Ok(Entry(m.clone()))) } } }
impl Entry {
    pub fn path(&self) -> io::Result<Cow<Path>> { Ok(Cow::Borrowed(Path::new(unsafe { std::str::from_utf8_unchecked(&self.0.name) }))) }
    pub fn path_bytes(&self) -> Cow<[u8]> { Cow::Borrowed(&self.0.name) }
    pub fn raw_file_position(&self) -> u64 { self.0.offset }
    pub fn raw_header_position(&self) -> u64 { self.0.offset.wrapping_sub(512) }
    pub fn size(&self) -> u64 { self.0.size }
    pub fn header(&self) -> Header { Header(self.0.clone()) }
}
impl Header {
    pub fn entry_size(&self) -> io::Result<u64> { Ok(self.0.stored) }
    pub fn size(&self) -> io::Result<u64> { Ok(self.0.size) }
    pub fn entry_type(&self) -> EntryType { match self.0.kind { 48 => EntryType::Regular, 53 => EntryType::Directory, 83 => EntryType::GNUSparse, _ => EntryType::Fifo } }
}
