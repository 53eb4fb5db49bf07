//! The client side of the wire protocol, written from the GDB documentation
//! and independent of the library: strict packet parser, encoders.

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Ack,
    Nack,
    /// payload after run-length decoding
    Pkt(Vec<u8>),
}

fn hexv(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        _ => None,
    }
}

/// Strictly parse everything a stub wrote.
pub fn parse(out: &[u8]) -> Result<Vec<Item>, String> {
    let mut v = vec![];
    let mut i = 0;
    while i < out.len() {
        match out[i] {
            b'+' => {
                v.push(Item::Ack);
                i += 1
            }
            b'-' => {
                v.push(Item::Nack);
                i += 1
            }
            b'$' => {
                let Some(n) = out[i + 1..].iter().position(|b| *b == b'#') else {
                    return Err("packet without '#'".into());
                };
                let body = &out[i + 1..i + 1 + n];
                let Some(cs) = out.get(i + n + 2..i + n + 4) else {
                    return Err("packet without checksum".into());
                };
                let (Some(a), Some(b)) = (hexv(cs[0]), hexv(cs[1])) else {
                    return Err("checksum is not two lower-case hex digits".into());
                };
                let sum = body.iter().fold(0u8, |a, x| a.wrapping_add(*x));
                if sum != a * 16 + b {
                    return Err(format!("checksum {:02x}, computed {:02x}", a * 16 + b, sum));
                }
                v.push(Item::Pkt(rle_decode(body)?));
                i += n + 4;
            }
            b => return Err(format!("stray byte {:#04x} between packets", b)),
        }
    }
    Ok(v)
}

pub fn rle_decode(body: &[u8]) -> Result<Vec<u8>, String> {
    let mut v: Vec<u8> = Vec::with_capacity(body.len());
    let mut i = 0;
    while i < body.len() {
        match body[i] {
            b'$' => return Err("raw '$' inside a packet".into()),
            b'*' => {
                let Some(&c) = v.last() else {
                    return Err("run-length marker with nothing to repeat".into());
                };
                let Some(&n) = body.get(i + 1) else {
                    return Err("truncated run-length sequence".into());
                };
                if !(32..=126).contains(&n) {
                    return Err(format!("run-length count character {:#04x}", n));
                }
                if n == b'#' || n == b'$' {
                    return Err(format!("forbidden run-length count character {:?}", n as char));
                }
                for _ in 0..n - 29 {
                    v.push(c)
                }
                i += 2;
            }
            b => {
                v.push(b);
                i += 1
            }
        }
    }
    Ok(v)
}

/// Undo the binary escaping of a reply.
pub fn unesc(p: &[u8]) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    let mut i = 0;
    while i < p.len() {
        if p[i] == b'}' {
            let Some(b) = p.get(i + 1) else { return Err("dangling escape".into()) };
            v.push(b ^ 0x20);
            i += 2
        } else {
            v.push(p[i]);
            i += 1
        }
    }
    Ok(v)
}

/// binary-escape outgoing data
pub fn esc(d: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for &b in d {
        if matches!(b, b'#' | b'$' | b'}' | b'*') {
            v.push(b'}');
            v.push(b ^ 0x20)
        } else {
            v.push(b)
        }
    }
    v
}

pub fn sum(payload: &[u8]) -> u8 {
    payload.iter().fold(0u8, |a, x| a.wrapping_add(*x))
}

pub fn frame(payload: &[u8]) -> Vec<u8> {
    let mut v = vec![b'$'];
    v.extend_from_slice(payload);
    v.extend_from_slice(format!("#{:02x}", sum(payload)).as_bytes());
    v
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}

pub fn unhex(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    s.chunks(2).map(|c| Some(hexv(c[0])? * 16 + hexv(c[1])?)).collect()
}

/// parse a big-endian hex number of any length (at least one digit)
pub fn num(s: &[u8]) -> Option<u128> {
    if s.is_empty() {
        return None;
    }
    let mut v: u128 = 0;
    for c in s {
        v = v.checked_mul(16)?.checked_add(hexv(*c)? as u128)?;
    }
    Some(v)
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.iter().take(160) {
        match c {
            0x20..=0x7e if *c != b'\\' => s.push(*c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    if b.len() > 160 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}
