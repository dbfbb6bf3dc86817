//! Independent description of the pak layout (written from the format documentation at the top of
//! header.rs / index.rs and the public Unreal format), used as oracle by p04..p07.
use unreal_pak::pakversion::PakVersion as V;
pub const MAGIC: [u8; 4] = [0xE1, 0x12, 0x6F, 0x5A];
/// (version value, number, subversion 8a)
pub const VERSIONS: [(V, u32); 12] = [
    (V::Initial, 1), (V::NoTimestamps, 2), (V::CompressionEncryption, 3), (V::IndexEncryption, 4), (V::RelativeChunkOffsets, 5), (V::DeleteRecords, 6),
    (V::EncryptionKeyGuid, 7), (V::FnameBasedCompressionMethodInitial, 8), (V::FnameBasedCompressionMethod, 8), (V::FrozenIndex, 9), (V::PathHashIndex, 10), (V::Fnv64BugFix, 11),
];
/// versions the library can write
pub const WRITABLE: usize = 10;
pub fn sha(d: &[u8]) -> [u8; 20] { use sha1::{Digest, Sha1}; let mut s = Sha1::new(); s.update(d); s.finalize().into() }
pub fn u32le(o: &mut Vec<u8>, v: u32) { o.extend_from_slice(&v.to_le_bytes()) }
pub fn u64le(o: &mut Vec<u8>, v: u64) { o.extend_from_slice(&v.to_le_bytes()) }
pub fn fstr(o: &mut Vec<u8>, s: &[u8]) { u32le(o, s.len() as u32 + 1); o.extend_from_slice(s); o.push(0) }
pub struct Rec { pub off: u64, pub size: u64, pub usize_: u64, pub method: u32, pub hash: [u8; 20], pub blocks: Vec<(u64, u64)>, pub block_size: u32 }
pub fn header(o: &mut Vec<u8>, ver: u32, r: &Rec, off: u64) {
    u64le(o, off); u64le(o, r.size); u64le(o, r.usize_); u32le(o, r.method);
    if ver == 1 { u64le(o, 0) }
    o.extend_from_slice(&r.hash);
    if ver >= 3 {
        if r.method != 0 { u32le(o, r.blocks.len() as u32); for b in &r.blocks { u64le(o, b.0); u64le(o, b.1) } }
        o.push(0); u32le(o, r.block_size);
    }
}
pub fn header_len(ver: u32, blocks: Option<usize>) -> u64 { 48 + if ver == 1 { 8 } else { 0 } + if ver >= 3 { 5 + blocks.map_or(0, |n| 4 + 16 * n as u64) } else { 0 } }
/// footer for version slot `vi` of VERSIONS; methods: up to 5 names
pub fn footer(o: &mut Vec<u8>, vi: usize, index_offset: u64, index: &[u8], methods: &[&[u8]]) {
    let ver = VERSIONS[vi].1;
    if ver >= 7 { o.extend_from_slice(&[0; 16]) }
    if ver >= 4 { o.push(0) }
    o.extend_from_slice(&MAGIC); u32le(o, ver); u64le(o, index_offset); u64le(o, index.len() as u64); o.extend_from_slice(&sha(index));
    if ver == 9 { o.push(0) }
    let n = if vi == 7 { 4 } else if ver >= 8 { 5 } else { 0 };
    for i in 0..n { let mut b = [0u8; 32]; if let Some(m) = methods.get(i) { b[..m.len()].copy_from_slice(m) } o.extend_from_slice(&b) }
}
pub fn footer_len(vi: usize) -> usize { let mut o = vec![]; footer(&mut o, vi, 0, &[], &[]); o.len() }
pub fn zlib(d: &[u8]) -> Vec<u8> { use std::io::Write; let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::default()); e.write_all(d).unwrap(); e.finish().unwrap() }
pub fn unzlib(d: &[u8]) -> Result<Vec<u8>, ()> { use std::io::Read; let mut e = flate2::read::ZlibDecoder::new(d); let mut o = vec![]; e.read_to_end(&mut o).map_err(|_| ())?; Ok(o) }
pub struct Rd<'a>(pub &'a [u8], pub usize);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> { if self.0.len() - self.1 < n { return None; } let r = &self.0[self.1..self.1 + n]; self.1 += n; Some(r) }
    pub fn u8(&mut self) -> Option<u8> { Some(self.take(1)?[0]) }
    pub fn u32(&mut self) -> Option<u32> { Some(u32::from_le_bytes(self.take(4)?.try_into().ok()?)) }
    pub fn u64(&mut self) -> Option<u64> { Some(u64::from_le_bytes(self.take(8)?.try_into().ok()?)) }
    pub fn fstr(&mut self) -> Option<Vec<u8>> { let n = self.u32()? as usize; if n == 0 { return None; } let t = self.take(n)?; if t[n - 1] != 0 { return None; } Some(t[..n - 1].to_vec()) }
    pub fn header(&mut self, ver: u32) -> Option<(Rec, u8)> {
        let mut r = Rec { off: self.u64()?, size: self.u64()?, usize_: self.u64()?, method: self.u32()?, hash: [0; 20], blocks: vec![], block_size: 0 };
        if ver == 1 { self.u64()?; }
        r.hash.copy_from_slice(self.take(20)?);
        let mut fl = 0;
        if ver >= 3 {
            if r.method != 0 { let n = self.u32()?; if n > 100 { return None; } for _ in 0..n { let s = self.u64()?; let e = self.u64()?; r.blocks.push((s, e)) } }
            fl = self.u8()?; r.block_size = self.u32()?;
        }
        Some((r, fl))
    }
}
