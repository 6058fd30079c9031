//! Independent ZIP reader/writer used by the oracles.
use std::io::{Read, Write};

pub fn crc(b: &[u8]) -> u32 {
    let mut c = flate2::Crc::new();
    c.update(b);
    c.sum()
}
fn u16le(b: &[u8], o: usize) -> Option<u32> {
    Some(u16::from_le_bytes(b.get(o..o + 2)?.try_into().ok()?) as u32)
}
fn u32le(b: &[u8], o: usize) -> Option<u32> {
    Some(u32::from_le_bytes(b.get(o..o + 4)?.try_into().ok()?))
}

#[derive(Clone)]
pub struct Entry {
    pub name: String,
    pub data: Vec<u8>,
    pub header_off: usize,
    pub data_off: usize,
    pub comp_len: usize,
    pub cd_off: usize,
    pub method: u32,
}

/// Strict read: every entry decodes, sizes and CRCs match, names are unique.
pub fn read_entries(b: &[u8]) -> Result<Vec<Entry>, String> {
    let n = b.len();
    if n < 22 {
        return Err("shorter than an end record".into());
    }
    let mut e = None;
    let lo = n.saturating_sub(22 + 65535);
    for i in (lo..=n - 22).rev() {
        if &b[i..i + 4] == b"PK\x05\x06" && u16le(b, i + 20) == Some((n - i - 22) as u32) {
            e = Some(i);
            break;
        }
    }
    let e = e.ok_or("no end-of-central-directory record")?;
    let cnt = u16le(b, e + 10).unwrap() as usize;
    let cdsz = u32le(b, e + 12).unwrap() as usize;
    let mut o = u32le(b, e + 16).unwrap() as usize;
    if o + cdsz != e {
        return Err(format!("central directory does not end at the end record ({}+{} != {})", o, cdsz, e));
    }
    let mut out: Vec<Entry> = vec![];
    for k in 0..cnt {
        if b.get(o..o + 4) != Some(b"PK\x01\x02") {
            return Err(format!("central entry {} is malformed", k));
        }
        let bad = || format!("central entry {} is cut off", k);
        let method = u16le(b, o + 10).ok_or_else(bad)?;
        let c = u32le(b, o + 16).ok_or_else(bad)?;
        let cl = u32le(b, o + 20).ok_or_else(bad)? as usize;
        let ul = u32le(b, o + 24).ok_or_else(bad)? as usize;
        let nl = u16le(b, o + 28).ok_or_else(bad)? as usize;
        let xl = u16le(b, o + 30).ok_or_else(bad)? as usize;
        let ml = u16le(b, o + 32).ok_or_else(bad)? as usize;
        let lo = u32le(b, o + 42).ok_or_else(bad)? as usize;
        let name = String::from_utf8_lossy(b.get(o + 46..o + 46 + nl).ok_or_else(bad)?).to_string();
        if b.get(lo..lo + 4) != Some(b"PK\x03\x04") {
            return Err(format!("entry {} has no local header", name));
        }
        let lnl = u16le(b, lo + 26).ok_or_else(bad)? as usize;
        let lxl = u16le(b, lo + 28).ok_or_else(bad)? as usize;
        let d = lo + 30 + lnl + lxl;
        if b.get(lo + 30..lo + 30 + lnl) != Some(name.as_bytes()) {
            return Err(format!("entry {}: local and central names differ", name));
        }
        let raw = b.get(d..d + cl).ok_or_else(|| format!("entry {} is cut off", name))?;
        let data = match method {
            0 => raw.to_vec(),
            8 => {
                let mut v = Vec::with_capacity(ul.min(1 << 24));
                flate2::read::DeflateDecoder::new(raw).read_to_end(&mut v).map_err(|e| format!("entry {}: {}", name, e))?;
                v
            }
            m => return Err(format!("entry {}: method {}", name, m)),
        };
        if data.len() != ul {
            return Err(format!("entry {}: size {} but {} declared", name, data.len(), ul));
        }
        if crc(&data) != c {
            return Err(format!("entry {}: checksum mismatch", name));
        }
        if out.iter().any(|x| x.name == name) {
            return Err(format!("entry {} is stored twice", name));
        }
        out.push(Entry { name, data, header_off: lo, data_off: d, comp_len: cl, cd_off: o, method });
        o += 46 + nl + xl + ml;
    }
    if o != e {
        return Err("central directory size mismatch".into());
    }
    Ok(out)
}

pub type Parts = std::collections::BTreeMap<String, Vec<u8>>;
pub fn read(b: &[u8]) -> Result<Parts, String> {
    Ok(read_entries(b)?.into_iter().filter(|e| !e.name.ends_with('/')).map(|e| (e.name, e.data)).collect())
}

/// Write entries in the given order; `store(i)` selects stored (true) or deflate.
pub fn write(entries: &[(String, Vec<u8>)], store: &mut dyn FnMut(usize) -> bool) -> Vec<u8> {
    let mut out = vec![];
    let mut cd = vec![];
    for (i, (name, data)) in entries.iter().enumerate() {
        let st = store(i) || name.ends_with('/');
        let comp = if st {
            data.clone()
        } else {
            let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::fast());
            e.write_all(data).unwrap();
            e.finish().unwrap()
        };
        let off = out.len() as u32;
        let m: u16 = if st { 0 } else { 8 };
        let c = crc(data);
        let mut h = vec![];
        h.extend_from_slice(&20u16.to_le_bytes());
        h.extend_from_slice(&0x0800u16.to_le_bytes());
        h.extend_from_slice(&m.to_le_bytes());
        h.extend_from_slice(&0u16.to_le_bytes());
        h.extend_from_slice(&0x5821u16.to_le_bytes());
        h.extend_from_slice(&c.to_le_bytes());
        h.extend_from_slice(&(comp.len() as u32).to_le_bytes());
        h.extend_from_slice(&(data.len() as u32).to_le_bytes());
        h.extend_from_slice(&(name.len() as u16).to_le_bytes());
        h.extend_from_slice(&0u16.to_le_bytes());
        out.extend_from_slice(b"PK\x03\x04");
        out.extend_from_slice(&h);
        out.extend_from_slice(name.as_bytes());
        out.extend_from_slice(&comp);
        cd.extend_from_slice(b"PK\x01\x02");
        cd.extend_from_slice(&20u16.to_le_bytes());
        cd.extend_from_slice(&h);
        cd.extend_from_slice(&[0u8; 2 + 2 + 2]);
        cd.extend_from_slice(&0u32.to_le_bytes());
        cd.extend_from_slice(&off.to_le_bytes());
        cd.extend_from_slice(name.as_bytes());
    }
    let o = out.len() as u32;
    out.extend_from_slice(&cd);
    out.extend_from_slice(b"PK\x05\x06\0\0\0\0");
    out.extend_from_slice(&(entries.len() as u16).to_le_bytes());
    out.extend_from_slice(&(entries.len() as u16).to_le_bytes());
    out.extend_from_slice(&(cd.len() as u32).to_le_bytes());
    out.extend_from_slice(&o.to_le_bytes());
    out.extend_from_slice(&[0, 0]);
    out
}
pub fn write_parts(p: &Parts) -> Vec<u8> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    if let Some(d) = p.get("[Content_Types].xml") {
        v.push(("[Content_Types].xml".into(), d.clone()));
    }
    for (k, d) in p {
        if k != "[Content_Types].xml" {
            v.push((k.clone(), d.clone()));
        }
    }
    write(&v, &mut |_| false)
}
