//! Independent executable models of what the repository's stages are specified to do.
//! Nothing here calls the repository; trusted: labrador-ldpc, ed25519-dalek, imageproc.
use labrador_ldpc::LDPCCode;
use ndarray::Array2;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

// ---------------------------------------------------------------- carriers

/// Low-pass band of the `levels`-level orthonormal 2D Haar transform: block sums over 2^levels.
pub fn low_band(img: &Array2<u8>, levels: usize) -> Array2<f64> {
    let s = 1usize << levels;
    let (rows, cols) = img.dim();
    Array2::from_shape_fn((rows / s, cols / s), |(i, j)| {
        let mut t = 0u64;
        for a in 0..s {
            for b in 0..s {
                t += img[[i * s + a, j * s + b]] as u64;
            }
        }
        t as f64 / s as f64
    })
}

/// Signed distance of a coefficient from the nearest multiple of depth, in units of depth.
pub fn residue(c: f64, depth: f64) -> f64 {
    let q = c / depth;
    q - q.round()
}

pub struct Bits {
    pub bytes: Vec<u8>,
    /// bit positions whose value floating-point noise decides
    pub ambiguous: Vec<usize>,
}

/// Bytes carried by the image: one bit per low-band coefficient, rows first, least significant bit first.
pub fn read_bits(img: &Array2<u8>, depth: f64, levels: usize) -> Bits {
    let ll = low_band(img, levels);
    let n = ll.len() / 8;
    let mut bytes = vec![0u8; n];
    let mut ambiguous = vec![];
    for (k, c) in ll.iter().enumerate().take(n * 8) {
        let f = residue(*c, depth);
        if f.abs() * depth < 1e-6 || (0.5 - f.abs()) * depth < 1e-6 {
            ambiguous.push(k);
        }
        if f >= 0. {
            bytes[k / 8] |= 1 << (k % 8);
        }
    }
    Bits { bytes, ambiguous }
}

/// Put coded bytes into the picture the way the format prescribes.
pub fn write_carriers(img: &mut Array2<u8>, coded: &[u8], depth: f64, levels: usize) {
    let ll = low_band(img, levels);
    let s = 1usize << levels;
    let dc = ll.dim().1;
    for (k, c) in ll.iter().enumerate().take(coded.len() * 8) {
        let q = if coded[k / 8] >> (k % 8) & 1 == 1 { 0.25 } else { -0.25 };
        let shift = (depth * ((c / depth).round() + q) - c) / s as f64;
        let (i, j) = (k / dc, k % dc);
        for a in 0..s {
            for b in 0..s {
                let p = &mut img[[i * s + a, j * s + b]];
                *p = (*p as f64 + shift).round().clamp(0., 255.) as u8;
            }
        }
    }
}

// ---------------------------------------------------------------- framing and error correction

pub fn code_for(capacity: usize) -> Option<LDPCCode> {
    match capacity {
        16 => Some(LDPCCode::TC128),
        32 => Some(LDPCCode::TC256),
        64 | 128 => Some(LDPCCode::TC512),
        256 | 512 => Some(LDPCCode::TM2048),
        c if c >= 1024 => Some(LDPCCode::TM8192),
        _ => None,
    }
}

/// Bytes that a message of `len` bytes occupies in a domain of `capacity` bytes (with the big-endian length header).
pub fn coded_len(len: usize, capacity: usize) -> usize {
    match code_for(capacity) {
        None => len + 2,
        Some(code) => {
            let (k, n) = (code.k() / 8, code.n() / 8);
            (len + 2 + k - 1) / k * n
        }
    }
}

/// Does a payload fit an embedding domain of `capacity` bytes? (two more header bytes inside)
pub fn payload_fits(payload: usize, capacity: usize) -> bool {
    payload + 2 <= 0xffff && coded_len(payload + 2, capacity) <= capacity
}

pub fn max_payload(capacity: usize) -> usize {
    let words = match code_for(capacity) {
        None => capacity,
        Some(code) => capacity / (code.n() / 8) * (code.k() / 8),
    };
    words.saturating_sub(4).min(0xffff - 2)
}

pub fn encode(msg: &[u8], capacity: usize) -> Vec<u8> {
    let mut m = vec![(msg.len() >> 8) as u8, msg.len() as u8];
    m.extend_from_slice(msg);
    match code_for(capacity) {
        None => m,
        Some(code) => {
            let (k, n) = (code.k() / 8, code.n() / 8);
            let mut out = vec![];
            for w in m.chunks(k) {
                let mut word = w.to_vec();
                word.resize(k, 0);
                let mut cw = vec![0u8; n];
                code.copy_encode(&word, &mut cw);
                out.extend(cw);
            }
            out
        }
    }
}

pub fn bf_decode(code: LDPCCode, cw: &[u8]) -> Vec<u8> {
    let mut w = vec![0u8; code.decode_bf_working_len()];
    let mut o = vec![0u8; code.output_len()];
    code.decode_bf(cw, &mut o, &mut w, 20);
    o[..code.k() / 8].to_vec()
}

/// Message in a received domain, or None if its length header points beyond it.
pub fn decode(bytes: &[u8], capacity: usize) -> Option<Vec<u8>> {
    decode_span(bytes, capacity, false).map(|x| x.0)
}

/// The message and how many received bytes it depends on; `lenient` cuts an overrunning message to what is there.
pub fn decode_span(bytes: &[u8], capacity: usize, lenient: bool) -> Option<(Vec<u8>, usize)> {
    let mut span = bytes.len();
    let m = match code_for(capacity) {
        None => bytes.to_vec(),
        Some(code) => {
            let (k, n) = (code.k() / 8, code.n() / 8);
            let mut out: Vec<u8> = vec![];
            let mut need = usize::MAX;
            span = 0;
            for w in bytes.chunks_exact(n) {
                if out.len() >= need {
                    break;
                }
                span += n;
                out.extend(bf_decode(code, w));
                if out.len() >= k && need == usize::MAX {
                    need = 2 + ((out[0] as usize) << 8 | out[1] as usize);
                }
            }
            out
        }
    };
    if m.len() < 2 {
        return None;
    }
    let len = (m[0] as usize) << 8 | m[1] as usize;
    if m.len() < 2 + len && !lenient {
        return None;
    }
    if code_for(capacity).is_none() {
        span = span.min(2 + len);
    }
    Some((m[2..m.len().min(2 + len)].to_vec(), span))
}

/// Strip the payload's own little-endian length header.
pub fn unwrap_payload(msg: &[u8]) -> Option<Vec<u8>> {
    if msg.len() < 2 {
        return None;
    }
    let len = msg[0] as usize | (msg[1] as usize) << 8;
    if msg.len() < 2 + len {
        return None;
    }
    Some(msg[2..2 + len].to_vec())
}

pub fn wrap_payload(p: &[u8]) -> Vec<u8> {
    let mut v = vec![p.len() as u8, (p.len() >> 8) as u8];
    v.extend_from_slice(p);
    v
}

// ---------------------------------------------------------------- watermark record

#[derive(Clone, Debug, PartialEq)]
pub struct Record {
    pub perturbation: Vec<bool>,
    pub signature: Vec<u8>,
    pub text: String,
}

pub fn parse_record(b: &[u8]) -> Option<Record> {
    if b.len() < 3 {
        return None;
    }
    let (p, s, t) = (b[0] as usize, b[1] as usize, b[2] as usize);
    let pb = (p + 7) / 8;
    if b.len() < 3 + pb + s + t {
        return None;
    }
    let perturbation = (0..p).map(|i| b[3 + i / 8] >> (i % 8) & 1 == 1).collect();
    let signature = b[3 + pb..3 + pb + s].to_vec();
    let text = String::from_utf8(b[3 + pb + s..3 + pb + s + t].to_vec()).ok()?;
    Some(Record {
        perturbation,
        signature,
        text,
    })
}

pub fn write_record(r: &Record) -> Vec<u8> {
    let mut v = vec![r.perturbation.len() as u8, r.signature.len() as u8, r.text.len() as u8];
    let mut pb = vec![0u8; (r.perturbation.len() + 7) / 8];
    for (i, b) in r.perturbation.iter().enumerate() {
        if *b {
            pb[i / 8] |= 1 << (i % 8);
        }
    }
    v.extend(pb);
    v.extend(&r.signature);
    v.extend(r.text.as_bytes());
    v
}

// ---------------------------------------------------------------- quantization

pub fn cell(f: f64, step: f64) -> i64 {
    (f / step).floor() as i64
}

/// The three bits per feature: cell index minus one modulo four (high bit, low bit), then "in the upper half".
pub fn perturbation(features: &[f64], step: f64) -> Vec<bool> {
    let mut v = vec![];
    for f in features {
        let q = cell(*f, step);
        let m = (q - 1).rem_euclid(4);
        v.push(m & 2 != 0);
        v.push(m & 1 != 0);
        v.push(*f >= step * (q as f64 + 0.5));
    }
    v
}

/// Distance of a feature from the nearest half-cell boundary, in cells.
pub fn boundary_distance(f: f64, step: f64) -> f64 {
    let x = 2. * f / step;
    (x - x.round()).abs() / 2.
}

/// The cell, among those compatible with the three recorded bits, that the received feature is moved to:
/// at most one cell away, None when the record cannot tell (treated as unmoved).
pub fn restore(received: f64, bits: &[bool], step: f64) -> i64 {
    let q = cell(received, step);
    let upper = received >= step * (q as f64 + 0.5);
    let m = (bits[0] as i64) * 2 + bits[1] as i64;
    let want = (m + 1).rem_euclid(4); // cell mod 4 that was recorded
    let have = q.rem_euclid(4);
    // half-cell positions: the recorded feature lies within two half cells of the received one
    if want == (have + 1).rem_euclid(4) && (!bits[2] || upper) {
        q + 1
    } else if want == (have + 3).rem_euclid(4) && (bits[2] || !upper) {
        q - 1
    } else {
        q
    }
}

// ---------------------------------------------------------------- Zernike moments

/// Radial polynomial R_{n,m}(r) for n-m even, by the coefficient formula with exact integer factorials.
pub fn radial_coefficients(n: usize, m: usize) -> Vec<f64> {
    // coefficient of r^(n-2s), a whole number: (-1)^s C(n-s, s) C(n-2s, (n-m)/2-s)
    let choose = |n: usize, k: usize| -> u128 { (0..k as u128).fold(1, |a, i| a * (n as u128 - i) / (i + 1)) };
    (0..=(n - m) / 2)
        .map(|s| {
            let sign = if s % 2 == 0 { 1. } else { -1. };
            sign * (choose(n - s, s) * choose(n - 2 * s, (n - m) / 2 - s)) as f64
        })
        .collect()
}

pub type Basis = Arc<Vec<(f64, f64)>>;
pub fn zernike_basis(order: usize, index: usize, dim: usize) -> Basis {
    basis(order, index, dim)
}
fn basis(order: usize, index: usize, dim: usize) -> Basis {
    static CACHE: OnceLock<Mutex<HashMap<(usize, usize, usize), Basis>>> = OnceLock::new();
    let cache = CACHE.get_or_init(|| Mutex::new(HashMap::new()));
    if let Some(b) = cache.lock().unwrap().get(&(order, index, dim)) {
        return b.clone();
    }
    let co = radial_coefficients(order, index);
    let d = dim as f64;
    let mut v = Vec::with_capacity(dim * dim);
    for row in 0..dim {
        for col in 0..dim {
            // pixel grid stretched so that the square's corners lie on the unit circle
            let x = (2. * row as f64 - (d - 1.)) / (d - 1.) / std::f64::consts::SQRT_2;
            let y = (2. * col as f64 - (d - 1.)) / (d - 1.) / std::f64::consts::SQRT_2;
            let r2 = x * x + y * y;
            // Horner in r^2, lowest power r^index
            let mut p = 0.;
            for c in co.iter() {
                p = p * r2 + c;
            }
            // co runs from highest power to lowest, so p = sum co[s] r2^{(n-m)/2-s}
            let (mut zr, mut zi) = (1., 0.);
            for _ in 0..index {
                let (a, b) = (zr * x - zi * y, zr * y + zi * x);
                zr = a;
                zi = b;
            }
            // conjugate
            v.push((p * zr, -p * zi));
        }
    }
    let b = Arc::new(v);
    let mut c = cache.lock().unwrap();
    if c.values().map(|b| b.len()).sum::<usize>() > 60_000_000 {
        c.clear();
    }
    c.insert((order, index, dim), b.clone());
    b
}

/// Zernike moment of a (possibly rectangular, then centred) image.
pub fn moment(img: &Array2<u8>, order: usize, index: usize) -> (f64, f64) {
    let (rows, cols) = img.dim();
    let dim = rows.max(cols);
    let (or, oc) = ((dim - rows) / 2, (dim - cols) / 2);
    let b = basis(order, index, dim);
    let (mut re, mut im) = (0., 0.);
    for ((i, j), p) in img.indexed_iter() {
        let z = b[(i + or) * dim + j + oc];
        re += z.0 * *p as f64;
        im += z.1 * *p as f64;
    }
    let k = (order as f64 + 1.) / std::f64::consts::PI / (rows * cols) as f64;
    (re * k, im * k)
}

/// Magnitudes of the moments of order 2*amount-1, indices 1,3,..,order.
pub fn features(img: &Array2<u8>, amount: usize) -> Vec<f64> {
    let order = 2 * amount - 1;
    (1..=order)
        .step_by(2)
        .map(|m| {
            let (a, b) = moment(img, order, m);
            (a * a + b * b).sqrt()
        })
        .collect()
}

pub fn equalized(img: &Array2<u8>) -> Array2<u8> {
    let g = imageproc::contrast::equalize_histogram(&crate::gen::to_gray(img));
    crate::gen::from_gray(&g)
}

// ---------------------------------------------------------------- authentication

pub const PUBLIC_KEY: [u8; 32] = [
    0xa7, 0xfd, 0x23, 0x50, 0x02, 0xf6, 0x0f, 0xad, 0x1a, 0x70, 0x77, 0xd7, 0x4c, 0xfd, 0x62, 0xdd, 0x89, 0x22, 0x96, 0x3e, 0xbc,
    0x71, 0x3c, 0x38, 0x5a, 0xd3, 0x75, 0x96, 0xfb, 0xa5, 0xa7, 0xd6,
];
pub const SECRET_KEY: [u8; 32] = [
    0xe1, 0xec, 0x99, 0x15, 0x18, 0xbe, 0xad, 0x7d, 0x94, 0xb6, 0x0b, 0xf6, 0x44, 0x69, 0xb9, 0x8d, 0x86, 0x63, 0x15, 0xb3, 0x67,
    0x6d, 0x4f, 0xa5, 0xb4, 0xe7, 0xc3, 0x6d, 0xc4, 0x95, 0x1d, 0x60,
];

pub fn cells_bytes(q: &[i64]) -> Vec<u8> {
    q.iter().flat_map(|x| x.to_le_bytes()).collect()
}

pub fn ref_sign(data: &[u8]) -> Vec<u8> {
    use ed25519_dalek::Signer;
    let k = [SECRET_KEY, PUBLIC_KEY].concat();
    let kp = ed25519_dalek::Keypair::from_bytes(&k).unwrap();
    kp.sign(data).to_bytes().to_vec()
}

pub fn ref_verify(data: &[u8], sig: &[u8]) -> bool {
    use ed25519_dalek::Verifier;
    let pk = ed25519_dalek::PublicKey::from_bytes(&PUBLIC_KEY).unwrap();
    match ed25519::Signature::from_bytes(sig) {
        Ok(s) => pk.verify(data, &s).is_ok(),
        Err(_) => false,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Authentic,
    Rejected(&'static str),
    /// floating-point noise decides
    Ambiguous(&'static str),
}

/// What the carriers of an image hold.
pub fn carried_record(img: &Array2<u8>, depth: f64, levels: usize) -> Result<Record, Verdict> {
    let bits = read_bits(img, depth, levels);
    let cap = bits.bytes.len();
    // the record, and how many bytes of the domain it depends on
    let attempt = |b: &[u8], lenient: bool| -> (Option<Record>, usize) {
        let Some((m, span)) = decode_span(b, cap, lenient) else {
            return (None, b.len());
        };
        let p = match unwrap_payload(&m) {
            Some(p) => Some(p),
            None if lenient && m.len() > 2 => Some(m[2..].to_vec()),
            None => None,
        };
        (p.and_then(|p| parse_record(&p)), span)
    };
    let (a, span) = attempt(&bits.bytes, false);
    // carriers that floating-point noise decides: the record is certain only if every way of deciding them gives it
    let open: Vec<usize> = bits.ambiguous.iter().cloned().filter(|k| *k < span * 8).collect();
    if open.len() > 6 {
        return Err(Verdict::Ambiguous("carrier"));
    }
    for pick in 0..1u32 << open.len() {
        let mut other = bits.bytes.clone();
        for (n, k) in open.iter().enumerate() {
            if pick >> n & 1 == 1 {
                other[k / 8] |= 1 << (k % 8);
            } else {
                other[k / 8] &= !(1 << (k % 8));
            }
        }
        let (b, s) = attempt(&other, false);
        if b != a || bits.ambiguous.iter().any(|k| *k >= span * 8 && *k < s * 8) {
            return Err(Verdict::Ambiguous("carrier"));
        }
        // a damaged length header over an intact record: taking what is there is as good as giving up
        if a.is_none() && attempt(&other, true).0.is_some() {
            return Err(Verdict::Ambiguous("length header"));
        }
    }
    a.ok_or(Verdict::Rejected("no record"))
}

pub fn authenticate(img: &Array2<u8>, depth: f64, step: f64, amount: usize, levels: usize) -> Verdict {
    let rec = match carried_record(img, depth, levels) {
        Ok(r) => r,
        Err(v) => return v,
    };
    if rec.perturbation.len() != 3 * amount {
        return Verdict::Rejected("perturbation length");
    }
    let f = features(&equalized(img), amount);
    let q: Vec<i64> = f
        .iter()
        .zip(rec.perturbation.chunks(3))
        .map(|(f, b)| restore(*f, b, step))
        .collect();
    if f.iter().any(|f| boundary_distance(*f, step) < 1e-7) {
        return Verdict::Ambiguous("feature on a boundary");
    }
    if ref_verify(&cells_bytes(&q), &rec.signature) {
        Verdict::Authentic
    } else {
        Verdict::Rejected("signature")
    }
}
