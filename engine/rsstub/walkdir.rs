use std::path::*;
#[derive(Debug)] pub struct Error; impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } } impl std::error::Error for Error {} impl From<Error> for std::io::Error { fn from(_: Error) -> Self { std::io::Error::from(std::io::ErrorKind::Other) } }
pub struct WalkDir; pub struct DirEntry; pub struct It;
impl WalkDir { pub fn new<P: AsRef<Path>>(_: P) -> Self { WalkDir } }
impl IntoIterator for WalkDir { type Item = Result<DirEntry, Error>; type IntoIter = It; fn into_iter(self) -> It { It } }
impl Iterator for It { type Item = Result<DirEntry, Error>; fn next(&mut self) -> Option<Self::Item> { None } }
impl DirEntry { pub fn path(&self) -> &Path { Path::new("") } }
