//! schemas embedded in binaries
use styx_embed::*;
use vx::gen::{self, P};
use vx::{check, fail};

fn v1(schemas: &[&str]) -> Vec<u8> {
    let mut b = MAGIC_V1.to_vec();
    b.extend_from_slice(&(schemas.len() as u16).to_le_bytes());
    for s in schemas {
        b.extend_from_slice(&compress_schema(s)[16..]);
    }
    b
}
/// one schema between other bytes
pub fn round(s: &[P], junk: &[P]) {
    let s = gen::doc(s);
    let mut data = gen::doc(junk).into_bytes();
    let old = vx::choose(2) == 1;
    let blob = if old { v1(&[&s]) } else { build_embedded_blob(&s) };
    data.extend_from_slice(&blob);
    data.extend_from_slice(["", "\0\0", "STYX_SCHEMA_V2\0\0", "STYX_SCHEMAS_V1\0\x01\0"][vx::choose(4) as usize].as_bytes());
    match extract_schemas(&data) {
        Ok(v) => check(v.len() == 1 && v[0] == s, "another schema comes back"),
        Err(_) => fail("an embedded schema is not found"),
    }
    match extract_schemas_from_object(&data) {
        Ok(v) => check(v.len() == 1 && v[0] == s, "another schema comes back from a file that is no object"),
        Err(_) => fail("an embedded schema is not found in a file that is no object"),
    }
    vx::cover(0);
}
const TEXTS: [&str; 4] = ["", "meta {id a}\nschema {@ @object{name @string, name2 @string, name3 @string, name4 @string}}\n", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "é\u{1f600}\0"];
/// long, repetitive schemas with symbolic ends
pub fn long() {
    let mut s = TEXTS[vx::choose(4) as usize].to_string();
    let mut e = Vec::new();
    gen::put(&[P::U0(2)], &mut e);
    s.push_str(&String::from_utf8(e).unwrap());
    let data = build_embedded_blob(&s);
    match extract_schemas(&data) {
        Ok(v) => check(v.len() == 1 && v[0] == s, "another schema comes back"),
        Err(_) => fail("an embedded schema is not found"),
    }
    vx::cover(0);
}
/// several blobs of both versions in one file, in the documented order
pub fn many() {
    let pick = || TEXTS[vx::choose(4) as usize];
    let (a, b) = (pick(), pick());
    let mut data = Vec::new();
    let (mut want2, mut want1) = (vec![], vec![]);
    for t in [a, b] {
        match vx::choose(4) {
            0 => {
                data.extend_from_slice(&build_embedded_blob(t));
                want2.push(t)
            }
            1 => {
                data.extend_from_slice(&v1(&[t]));
                want1.push(t)
            }
            2 => {
                data.extend_from_slice(&v1(&[t, a]));
                want1.push(t);
                want1.push(a)
            }
            _ => {
                data.extend_from_slice(b"STYX_SCHEMA_V2\0");
                data.push(vx::byte());
            }
        }
    }
    want2.extend(want1);
    match extract_schemas(&data) {
        Ok(v) => check(v == want2, "the schemas of a file are not exactly the embedded ones"),
        Err(_) => check(want2.is_empty(), "embedded schemas are not found"),
    }
    vx::cover(0);
}
/// one damaged byte: the schema is gone or unharmed, never another
pub fn corrupt() {
    let t = TEXTS[1 + vx::choose(3) as usize];
    let old = vx::choose(2) == 1;
    let mut data = if old { v1(&[t]) } else { build_embedded_blob(t) };
    let head = if old { 18 } else { 16 } + 40;
    let at = match vx::choose(2) {
        0 => vx::choose(head as u32) as usize,
            // the size prefix and compressed text
        _ => head + vx::choose((data.len() - head) as u32) as usize,
    };
    data[at] = vx::byte();
    match extract_schemas(&data) {
        Ok(v) => check(v.is_empty() || v.len() == 1 && v[0] == t, "a damaged schema comes back as another"),
        Err(_) => {}
    }
    vx::cover(0);
}
pub fn trunc() {
    let t = TEXTS[vx::choose(4) as usize];
    let data = if vx::choose(2) == 1 { v1(&[t, "a"]) } else { build_embedded_blob(t) };
    let n = vx::choose(data.len() as u32) as usize;
    check(extract_schemas(&data[..n]).is_err(), "a truncated schema comes back");
    check(extract_schemas_from_object(&data[..n]).is_err(), "a truncated schema comes back");
    vx::cover(0);
}
/// arbitrary bytes around and after the markers
pub fn any() {
    let mut data: Vec<u8> = Vec::new();
    for _ in 0..vx::choose(2) {
        data.push(vx::byte());
    }
    let old = vx::choose(2) == 1;
    data.extend_from_slice(if old { MAGIC_V1 } else { MAGIC_V2 });
    if old {
        data.extend_from_slice(&[0, 0, 1, 0, 0xff, 0xff][2 * vx::choose(3) as usize..][..2]);
    }
    // sizes
    for _ in 0..2 {
        match vx::choose(3) {
            0 => data.extend_from_slice(&[vx::byte(), 0, 0, 0]),
            1 => data.extend_from_slice(&[0xff; 4]),
            _ => data.extend_from_slice(&[0, 0, 0, 0x80]),
        }
    }
    let n = [0, 31, 32, 36, 38][vx::choose(5) as usize];
    for i in 0..n {
        data.push(if i < 32 { 0 } else if i < 36 { [1, 0, 0, 0][i - 32] } else { vx::byte() });
    }
    let _ = extract_schemas(&data);
    let _ = extract_schemas_from_object(&data);
    vx::cover(0);
}
fn put(d: &mut Vec<u8>, at: usize, b: &[u8]) {
    if d.len() < at + b.len() {
        d.resize(at + b.len(), 0);
    }
    d[at..at + b.len()].copy_from_slice(b);
}
fn far() -> u64 {
    let x = vx::u64();
    vx::assume(x as u32 >= 4096);
    x
}
/// an ELF file with a schema section whose place and size are anything
pub fn elf() {
    let blob = build_embedded_blob("a @string");
    let names = b"\0.shstrtab\0.styx_schemas\0";
    let mut d = vec![0u8; 64];
    put(&mut d, 0, b"\x7fELF\x02\x01\x01");
    put(&mut d, 16, &2u16.to_le_bytes());
    put(&mut d, 18, &62u16.to_le_bytes());
    put(&mut d, 20, &1u32.to_le_bytes());
    put(&mut d, 52, &64u16.to_le_bytes());
    put(&mut d, 58, &64u16.to_le_bytes());
    put(&mut d, 60, &3u16.to_le_bytes());
    put(&mut d, 62, &1u16.to_le_bytes());
    let (no, bo) = (64, 64 + names.len());
    put(&mut d, no, names);
    put(&mut d, bo, &blob);
    let sh = d.len().next_multiple_of(8);
    put(&mut d, 40, &(sh as u64).to_le_bytes());
    put(&mut d, sh + 3 * 64 - 1, &[0]);
    let (off, size) = place(bo, blob.len());
    put(&mut d, sh + 64, &1u32.to_le_bytes());
    put(&mut d, sh + 68, &3u32.to_le_bytes());
    put(&mut d, sh + 64 + 24, &(no as u64).to_le_bytes());
    put(&mut d, sh + 64 + 32, &(names.len() as u64).to_le_bytes());
    put(&mut d, sh + 128, &11u32.to_le_bytes());
    put(&mut d, sh + 132, &1u32.to_le_bytes());
    put(&mut d, sh + 128 + 24, &off.to_le_bytes());
    put(&mut d, sh + 128 + 32, &size.to_le_bytes());
    verdict(&d, (off, size) == (bo as u64, blob.len() as u64))
}
fn place(bo: usize, len: usize) -> (u64, u64) {
    match vx::choose(5) {
        0 => (bo as u64, len as u64),
        1 => (far(), len as u64),
        2 => (bo as u64, far()),
        3 => (far(), far()),
        _ => (bo as u64 - 1 + vx::choose(3) as u64, len as u64 - 1 + vx::choose(3) as u64),
    }
}
fn verdict(d: &[u8], exact: bool) {
    // the section decides, not what else the file holds
    let mut d = d.to_vec();
    d.extend_from_slice(&build_embedded_blob("b @string"));
    match extract_schemas_from_object(&d) {
        Ok(v) => {
            check(!exact || v == ["a @string"], "not exactly the schemas of the section come back");
            check(v.iter().all(|s| s == "a @string" || s == "b @string"), "another schema comes back")
        }
        Err(_) => check(!exact, "the schema section is not read"),
    }
    vx::cover(0);
}
/// a Mach-O file likewise
pub fn macho() {
    let blob = build_embedded_blob("a @string");
    let mut d = vec![0u8; 32 + 152];
    for (i, x) in [0xfeedfacfu32, 0x0100000c, 0, 2, 1, 152, 0, 0, 0x19, 152].iter().enumerate() {
        put(&mut d, 4 * i, &x.to_le_bytes());
    }
    let bo = d.len();
    put(&mut d, bo, &blob);
    let end = d.len() as u64;
    let (off, size) = place(bo, blob.len());
    put(&mut d, 40, b"__DATA");
    put(&mut d, 32 + 48, &end.to_le_bytes());
    put(&mut d, 32 + 64, &1u32.to_le_bytes());
    put(&mut d, 104, b"__styx_schemas");
    put(&mut d, 120, b"__DATA");
    put(&mut d, 104 + 40, &size.to_le_bytes());
    put(&mut d, 104 + 48, &(off as u32).to_le_bytes());
    verdict(&d, (off, size) == (bo as u64, blob.len() as u64))
}
/// a PE file likewise
pub fn pe() {
    let blob = build_embedded_blob("a @string");
    let mut d = vec![0u8; 128 + 24 + 40];
    put(&mut d, 0, b"MZ");
    put(&mut d, 0x3c, &128u32.to_le_bytes());
    put(&mut d, 128, b"PE\0\0");
    put(&mut d, 132, &0x8664u16.to_le_bytes());
    put(&mut d, 134, &1u16.to_le_bytes());
    let bo = d.len();
    put(&mut d, bo, &blob);
    let (off, size) = place(bo, blob.len());
    put(&mut d, 152, b".styx");
    put(&mut d, 152 + 16, &(size as u32).to_le_bytes());
    put(&mut d, 152 + 20, &(off as u32).to_le_bytes());
    verdict(&d, (off, size) == (bo as u64, blob.len() as u64))
}
/// the beginnings of object files followed by anything
pub fn heads(max: u32) {
    let mut d: Vec<u8> = [&b"\x7fELF"[..], b"\xcf\xfa\xed\xfe", b"\xca\xfe\xba\xbe\0\0", b"MZ", b"!<arch>\n", b"\xce\xfa\xed\xfe"][vx::choose(6) as usize].to_vec();
    let n = vx::choose(max + 1);
    for _ in 0..n {
        d.push(vx::byte());
    }
    d.resize([d.len(), 64, 200][vx::choose(3) as usize].max(d.len()), 0);
    check(extract_schemas_from_object(&d).is_err(), "a schema out of nothing");
    vx::cover(0);
}
