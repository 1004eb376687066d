//! Reference reading and writing of silent payment address text (BIP350 and BIP352), independent
//! of the libraries the code under test uses.
use bitcoin::{
    secp256k1::PublicKey,
    Network,
};

pub const ALPHABET: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
pub const BECH32M: u32 = 0x2bc8_30a3;
pub const BECH32: u32 = 1;

fn polymod(values: impl Iterator<Item = u8>) -> u32 {
    const GEN: [u32; 5] = [0x3b6a_57b2, 0x2650_8e6d, 0x1ea1_19fa, 0x3d42_33dd, 0x2a14_62b3];
    let mut c: u32 = 1;
    for v in values {
        let top = c >> 25;
        c = (c & 0x1ff_ffff) << 5 ^ u32::from(v);
        for (i, g) in GEN.iter().enumerate() {
            if top >> i & 1 == 1 {
                c ^= g;
            }
        }
    }
    c
}

fn expand(hrp: &[u8]) -> Vec<u8> {
    hrp.iter().map(|b| b >> 5).chain([0]).chain(hrp.iter().map(|b| b & 31)).collect()
}

/// Text with a valid checksum for any symbols.
pub fn write(hrp: &str, symbols: &[u8], constant: u32) -> String {
    let mut all = expand(hrp.as_bytes());
    all.extend_from_slice(symbols);
    all.extend([0; 6]);
    let c = polymod(all.into_iter()) ^ constant;
    let tail = (0..6).map(|i| (c >> (5 * (5 - i)) & 31) as u8);
    let data: String = symbols.iter().copied().chain(tail).map(|s| ALPHABET[s as usize] as char).collect();
    format!("{hrp}1{data}")
}

/// Bytes to 5 bit symbols; `pad` fills the unused bits of the last one.
pub fn symbols(bytes: &[u8], pad: u8) -> Vec<u8> {
    let mut out = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for b in bytes {
        acc = acc << 8 | u32::from(*b);
        n += 8;
        while n >= 5 {
            n -= 5;
            out.push((acc >> n & 31) as u8);
        }
    }
    if n > 0 {
        out.push(((acc << (5 - n) & 31) as u8) | pad & ((1 << (5 - n)) - 1));
    }
    out
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Address {
    pub network: Network,
    pub version: u8,
    pub scan: PublicKey,
    pub spend: PublicKey,
    /// Some unused bits are set or there are unused symbols: two texts for one address.
    pub slack: bool,
}

pub fn read(text: &str) -> Option<Address> {
    let b = text.as_bytes();
    if b.iter().any(|c| !(33..=126).contains(c)) || b.len() > 1023 {
        return None;
    }
    if b.iter().any(u8::is_ascii_lowercase) && b.iter().any(u8::is_ascii_uppercase) {
        return None;
    }
    let low = text.to_ascii_lowercase();
    let sep = low.rfind('1')?;
    let (hrp, data) = (&low[..sep], &low[sep + 1..]);
    if data.len() < 6 {
        return None;
    }
    let syms: Option<Vec<u8>> =
        data.bytes().map(|c| ALPHABET.iter().position(|a| *a == c).map(|p| p as u8)).collect();
    let syms = syms?;
    if polymod(expand(hrp.as_bytes()).into_iter().chain(syms.iter().copied())) != BECH32M {
        return None;
    }
    let network = match hrp {
        "sp" => Network::Bitcoin,
        "tsp" => Network::Testnet,
        "sprt" => Network::Regtest,
        _ => return None,
    };
    let (version, payload) = syms[..syms.len() - 6].split_first()?;
    let mut bytes = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for s in payload {
        acc = (acc << 5 | u32::from(*s)) & 0xfff;
        n += 5;
        if n >= 8 {
            n -= 8;
            bytes.push((acc >> n & 255) as u8);
        }
    }
    let slack = n >= 5 || acc & ((1 << n) - 1) != 0;
    match version {
        0 if bytes.len() != 66 => return None,
        1..=30 if bytes.len() < 66 => return None,
        31.. => return None,
        _ => {}
    }
    Some(Address {
        network,
        version: *version,
        scan: PublicKey::from_slice(&bytes[..33]).ok()?,
        spend: PublicKey::from_slice(&bytes[33..66]).ok()?,
        slack,
    })
}
