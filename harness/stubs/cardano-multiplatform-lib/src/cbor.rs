//! shortest-form CBOR
pub fn head(out: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    match n {
        0..=23 => out.push(m | n as u8),
        24..=0xff => out.extend([m | 24, n as u8]),
        0x100..=0xffff => {
            out.push(m | 25);
            out.extend((n as u16).to_be_bytes());
        }
        0x1_0000..=0xffff_ffff => {
            out.push(m | 26);
            out.extend((n as u32).to_be_bytes());
        }
        _ => {
            out.push(m | 27);
            out.extend(n.to_be_bytes());
        }
    }
}
pub fn uint(out: &mut Vec<u8>, n: u64) {
    head(out, 0, n)
}
pub fn bytes(out: &mut Vec<u8>, b: &[u8]) {
    head(out, 2, b.len() as u64);
    out.extend(b);
}
pub fn text(out: &mut Vec<u8>, s: &str) {
    head(out, 3, s.len() as u64);
    out.extend(s.as_bytes());
}
pub fn array(out: &mut Vec<u8>, n: usize) {
    head(out, 4, n as u64)
}
pub fn map(out: &mut Vec<u8>, n: usize) {
    head(out, 5, n as u64)
}
pub fn tag(out: &mut Vec<u8>, n: u64) {
    head(out, 6, n)
}
