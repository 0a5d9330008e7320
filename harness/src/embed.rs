//! C01 round trip, C02 acceptance, C03 noise, C04 distortion, C22 carried format (embedding part).
use crate::fw::*;
use crate::gen::*;
use crate::refmodel as m;
use crate::rng::Rng;
use ndarray::Array2;
use serde_json::json;

/// Domain sizes by how the framing treats them.
pub const CLASSES: [(usize, usize); 14] = [
    (16, 16),
    (17, 31),
    (32, 32),
    (33, 63),
    (64, 64),
    (65, 127),
    (128, 128),
    (129, 255),
    (256, 256),
    (257, 511),
    (512, 512),
    (513, 1023),
    (1024, 1024),
    (1025, 2200),
];

#[derive(Clone, Debug)]
pub struct Shape {
    pub levels: usize,
    pub rows: usize,
    pub cols: usize,
    pub capacity: usize,
}

/// Image dimensions whose low band holds `capacity` bytes; thin, wide and square ones.
pub fn shape_for(r: &mut Rng, capacity: usize) -> Shape {
    let levels = loop {
        let l = 1 + r.below(4);
        if capacity * 8 * (1 << (2 * l)) <= 1_400_000 {
            break l;
        }
    };
    let bits = capacity * 8;
    for _ in 0..2000 {
        let dr = match r.below(4) {
            0 => 1 + r.below(4),
            1 => ((bits as f64).sqrt() as usize).max(1),
            _ => 1 + r.below(((bits as f64).sqrt() * 2.) as usize + 1),
        };
        let dc = (bits + dr - 1) / dr;
        if dc > 0 && dr * dc / 8 == capacity {
            let (dr, dc) = if r.chance(0.5) { (dr, dc) } else { (dc, dr) };
            return Shape {
                levels,
                rows: dr << levels,
                cols: dc << levels,
                capacity,
            };
        }
    }
    Shape {
        levels,
        rows: 8 << levels,
        cols: capacity << levels,
        capacity,
    }
}

pub fn any_capacity(r: &mut Rng) -> usize {
    // rarely as much as photographs hold, more than 65536 carriers among them
    if r.chance(0.01) {
        return r.range(2200, 20000) as usize;
    }
    let (lo, hi) = *r.pick(&CLASSES);
    r.range(lo as i64, hi as i64) as usize
}

pub fn headroom(depth: f64, levels: usize) -> usize {
    (0.75 * depth / (1u64 << levels) as f64 + 0.5).floor() as usize + 1
}

/// Embedding depth and the headroom it needs.
pub fn any_depth(r: &mut Rng, levels: usize, max_head: usize) -> (f64, usize) {
    let s = (1u64 << levels) as f64;
    for _ in 0..100 {
        let f = match r.below(6) {
            0 => 2.2,
            1 => r.float(2.2, 4.),
            2 => [2.5, 3., 4., 5., 6.25, 10., 12.5][r.below(7)],
            3 => r.float(4., 16.),
            4 => r.float(16., 140.),
            _ => r.float(2.2, 60.),
        };
        let mut d = f * s;
        if r.chance(0.4) {
            d = d.ceil();
        }
        let h = headroom(d, levels);
        if h <= max_head {
            return (d, h);
        }
    }
    (2.5 * s, headroom(2.5 * s, levels))
}

pub fn payload_len(r: &mut Rng, max: usize) -> usize {
    match r.below(8) {
        0 => 0,
        1 => 1.min(max),
        2 | 3 => max,
        4 => max.saturating_sub(1),
        _ => r.below(max + 1),
    }
}

fn case_json(s: &Shape, depth: f64, kind: &str, len: usize) -> serde_json::Value {
    json!({"rows": s.rows, "cols": s.cols, "levels": s.levels, "capacity": s.capacity, "depth": depth, "image": kind, "payload": len})
}
fn key(s: &Shape, depth: f64, kind: &str, p: &[u8]) -> Vec<u8> {
    let mut k = format!("{:?}{}{}", s, depth, kind).into_bytes();
    k.extend_from_slice(p);
    k
}
fn diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("length {} instead of {}", b.len(), a.len());
    }
    let n = a.iter().zip(b).filter(|(x, y)| x != y).count();
    let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(0);
    format!("{n} bytes differ, first at {at}")
}

// ------------------------------------------------------------------ C01

pub fn c01(ctx: &Ctx) -> serde_json::Value {
    let roundtrip = |r: &mut Rng, cap: usize, ctx: &Ctx| -> Outcome {
        let s = shape_for(r, cap);
        let (depth, h) = any_depth(r, s.levels, 110);
        let kind = kind(r);
        let img = image_in(r, kind, s.rows, s.cols, h as u8, (255 - h) as u8);
        let n = payload_len(r, m::max_payload(cap));
        let p = r.payload(n);
        let cj = case_json(&s, depth, kind, n);
        let (input, memory) = layout(r, &img);
        ctx.count(&format!("layout {memory}"), 1);
        let e = match call(|| embedding::embed(input, p.clone(), depth, s.levels)) {
            Ok(e) => e,
            Err(x) => return violated(format!("embedding refused data that fit: {x}"), cj),
        };
        if e.dim() != img.dim() {
            return violated(format!("dimensions changed to {:?}", e.dim()), cj);
        }
        let back = match call(|| embedding::extract(e.clone(), depth, s.levels)) {
            Ok(b) => b,
            Err(x) => return violated(format!("extraction failed: {x}"), cj),
        };
        if back != p {
            return violated(format!("extracted data differ: {}", diff(&p, &back)), cj);
        }
        // a copy of the picture with another memory layout carries the same data
        if r.chance(0.2) {
            let (e2, memory) = layout(r, &e);
            let b2 = call(|| embedding::extract(e2, depth, s.levels));
            if b2.as_ref().ok() != Some(&p) {
                return violated(format!("a copy of the picture stored by {memory} yields other data"), cj);
            }
            ctx.count("extractions from other layouts", 1);
        }
        ctx.count(
            &format!(
                "capacity class {}",
                CLASSES
                    .iter()
                    .position(|c| c.0 <= cap && cap <= c.1)
                    .map(|i| format!("{:04}-{:04}", CLASSES[i].0, CLASSES[i].1))
                    .unwrap_or("other".into())
            ),
            1,
        );
        ctx.count(&format!("levels {}", s.levels), 1);
        if s.rows != s.cols {
            ctx.count("non-square pictures", 1);
        }
        ctx.count("payload bytes compared", n as u64);
        held(&key(&s, depth, kind, &p), n > 0, cj)
    };
    ctx.drive("round trip", ctx.n(1500, 12000), 0.5, |r, _| {
        let cap = any_capacity(r);
        roundtrip(r, cap, ctx)
    });
    // every small capacity in turn, full payloads
    ctx.drive("every capacity", ctx.n(700, 2100), 0.3, |r, k| {
        roundtrip(r, 16 + (k as usize % 1050), ctx)
    });
    // embedding again replaces what was there
    ctx.drive("replace", ctx.n(300, 3000), 0.2, |r, _| {
        let cap = any_capacity(r);
        let s = shape_for(r, cap);
        let (depth, h) = any_depth(r, s.levels, 60);
        let kind = kind(r);
        let img = image_in(r, kind, s.rows, s.cols, 2 * h as u8, (255 - 2 * h) as u8);
        let max = m::max_payload(cap);
        let mut cur = img;
        let mut n = 0;
        let cj = |n| case_json(&s, depth, kind, n);
        for turn in 0..2 {
            n = payload_len(r, max);
            let p = r.payload(n);
            cur = match call(|| embedding::embed(cur.clone(), p.clone(), depth, s.levels)) {
                Ok(e) => e,
                Err(x) => return violated(format!("embedding {turn} refused data that fit: {x}"), cj(n)),
            };
            for again in 0..2 {
                match call(|| embedding::extract(cur.clone(), depth, s.levels)) {
                    Ok(b) if b == p => (),
                    Ok(b) => return violated(format!("embedding {turn} extraction {again}: {}", diff(&p, &b)), cj(n)),
                    Err(x) => return violated(format!("extraction failed: {x}"), cj(n)),
                }
            }
        }
        ctx.count("replacements", 1);
        held(&key(&s, depth, kind, &[n as u8]), true, cj(n))
    });
    ctx.require("round trip.held", 500);
    ctx.require("non-square pictures", 300);
    ctx.require("replacements", 100);
    ctx.finish(
        "One case = one picture (9 kinds, 1-4 transform levels, square/rectangular/strip, five memory layouts), one depth, one payload embedded with the real embed and read back with the real extract; distinct by shape, depth, picture kind and payload; trivial if the payload is empty.",
        &["pixels leave floor(0.75*depth/2^levels+0.5)+1 levels of headroom at both ends, and depth >= 2.2*2^levels"],
    )
}

// ------------------------------------------------------------------ C02

pub fn c02(ctx: &Ctx) -> serde_json::Value {
    ctx.drive("acceptance", ctx.n(1500, 12000), 0.5, |r, _| {
        let cap = any_capacity(r);
        let s = shape_for(r, cap);
        let (depth, h) = any_depth(r, s.levels, 100);
        let img = image_in(r, "noise", s.rows, s.cols, h as u8, (255 - h) as u8);
        let max = m::max_payload(cap);
        let n = match r.below(8) {
            0 => max,
            1 => max + 1,
            2 => max + 2,
            3 => max.saturating_sub(r.below(4)),
            4 => max + 1 + r.below(8),
            5 => max + 1 + r.below(4 * cap + 4),
            6 => cap,
            _ => r.below(2 * cap + 1),
        };
        let p = r.payload(n);
        let cj = case_json(&s, depth, "noise", n);
        let fits = m::payload_fits(n, cap);
        match call(|| embedding::embed(img.clone(), p.clone(), depth, s.levels)) {
            Ok(e) => {
                if !fits {
                    return violated("data larger than the domain was accepted", cj);
                }
                ctx.count("accepted", 1);
                match call(|| embedding::extract(e, depth, s.levels)) {
                    Ok(b) if b == p => (),
                    Ok(b) => return violated(format!("accepted but {}", diff(&p, &b)), cj),
                    Err(x) => return violated(format!("accepted but extraction failed: {x}"), cj),
                }
            }
            Err(x) => {
                if fits {
                    return violated(format!("data that fit were refused: {x}"), cj);
                }
                ctx.count("refused", 1);
            }
        }
        held(&key(&s, depth, "noise", &n.to_le_bytes()), true, cj)
    });
    // exact border at every capacity
    ctx.drive("border", ctx.n(1060, 4240), 0.3, |r, k| {
        let cap = 16 + (k as usize % 530) * if k % 2 == 0 { 1 } else { 2 };
        let s = shape_for(r, cap);
        let depth = 4. * (1u64 << s.levels) as f64;
        let img = Array2::from_elem((s.rows, s.cols), 100u8);
        let max = m::max_payload(cap);
        let cj = case_json(&s, depth, "constant", max);
        let p = r.bytes(max);
        match call(|| embedding::embed(img.clone(), p.clone(), depth, s.levels)) {
            Err(x) => return violated(format!("largest payload that fits was refused: {x}"), cj),
            Ok(e) => match call(|| embedding::extract(e, depth, s.levels)) {
                Ok(b) if b == p => (),
                Ok(b) => return violated(format!("largest payload: {}", diff(&p, &b)), cj),
                Err(x) => return violated(format!("largest payload: extraction failed: {x}"), cj),
            },
        }
        let p = r.bytes(max + 1);
        if call(|| embedding::embed(img.clone(), p, depth, s.levels)).is_ok() {
            return violated("one byte more than fits was accepted", cj);
        }
        ctx.count("borders", 1);
        held(format!("{cap}").as_bytes(), true, cj)
    });
    // domains under nine bytes, shapes that the transform cannot halve, payloads beyond the header
    ctx.drive("degenerate", ctx.n(400, 4000), 0.2, |r, _| {
        match r.below(4) {
            0 => {
                let bits = 1 + r.below(71); // up to 8 bytes
                let levels = 1 + r.below(3);
                let (dr, dc) = if r.chance(0.5) { (1, bits) } else { (bits, 1) };
                let img = Array2::from_elem((dr << levels, dc << levels), 128u8);
                let cj = json!({"domain bits": bits, "levels": levels});
                let n = r.below(6);
                let p = r.bytes(n);
                if call(|| embedding::embed(img.clone(), p, 40., levels)).is_ok() {
                    return violated("a domain of fewer than nine bytes was accepted for embedding", cj);
                }
                if call(|| embedding::extract(img, 40., levels)).is_ok() {
                    return violated("a domain of fewer than nine bytes was accepted for extraction", cj);
                }
                ctx.count("tiny domains refused", 1);
                held(&[1, bits as u8, levels as u8], true, cj)
            }
            1 => {
                // 9..15 bytes: refusing is fine, losing data is not
                let cap = 9 + r.below(7);
                let s = shape_for(r, cap);
                let depth = 4. * (1u64 << s.levels) as f64;
                let img = image_in(r, "noise", s.rows, s.cols, 30, 220);
                let n = r.below(cap + 4);
                let p = r.payload(n);
                let cj = case_json(&s, depth, "noise", n);
                if let Ok(e) = call(|| embedding::embed(img, p.clone(), depth, s.levels)) {
                    if !m::payload_fits(n, cap) {
                        return violated("data larger than the domain was accepted", cj);
                    }
                    ctx.count("small domains accepted", 1);
                    match call(|| embedding::extract(e, depth, s.levels)) {
                        Ok(b) if b == p => (),
                        Ok(b) => return violated(format!("accepted but {}", diff(&p, &b)), cj),
                        Err(x) => return violated(format!("accepted but extraction failed: {x}"), cj),
                    }
                }
                held(format!("{:?}{n}", s).as_bytes(), true, cj)
            }
            2 => {
                // sides that are not multiples of 2^levels: refused, or else faithful
                let levels = 1 + r.below(4);
                let (mut rows, cols) = (40 + r.below(120), 40 + r.below(120));
                if rows % (1 << levels) == 0 && cols % (1 << levels) == 0 {
                    rows += 1;
                }
                let depth = 4. * (1u64 << levels) as f64;
                let img = image_in(r, "noise", rows, cols, 30, 220);
                let n = 1 + r.below(12);
                let p = r.payload(n);
                let cj = json!({"rows": rows, "cols": cols, "levels": levels, "payload": n});
                match call(|| embedding::embed(img.clone(), p.clone(), depth, levels)) {
                    Ok(e) => {
                        if e.dim() != img.dim() {
                            return violated("dimensions changed", cj);
                        }
                        match call(|| embedding::extract(e, depth, levels)) {
                            Ok(b) if b == p => (),
                            Ok(b) => return violated(format!("odd size accepted but {}", diff(&p, &b)), cj),
                            Err(x) => return violated(format!("odd size accepted but extraction failed: {x}"), cj),
                        }
                    }
                    Err(_) => ctx.count("indivisible sizes refused", 1),
                }
                held(format!("{rows}x{cols}x{levels}").as_bytes(), true, cj)
            }
            _ => {
                // payloads around the sixteen-bit length header, in a domain of any size
                let n = *r.pick(&[65530usize, 65533, 65534, 65535, 65536, 65537, 65600, 70000, 131072, 131074]);
                let cap = any_capacity(r);
                let s = shape_for(r, cap);
                let img = Array2::from_elem((s.rows, s.cols), 128u8);
                let cj = case_json(&s, 64., "constant", n);
                if call(|| embedding::embed(img, vec![7; n], 8. * (1u64 << s.levels) as f64, s.levels)).is_ok() {
                    return violated("data larger than the domain was accepted", cj);
                }
                ctx.count("oversized payloads refused", 1);
                held(format!("{n}/{cap}").as_bytes(), true, cj)
            }
        }
    });
    // a domain large enough for the header to be the limit
    ctx.drive("header limit", ctx.n(8, 24), 0.25, |r, k| {
        let levels = 1;
        let (dr, dc) = *r.pick(&[(1024usize, 1040usize), (520, 2048), (1040, 1024)]);
        let img = Array2::from_elem((dr << levels, dc << levels), 90u8);
        let cap = dr * dc / 8;
        let n = [65532usize, 65533, 65534, 65535, 65536, 65540, 66000, 65531][k as usize % 8];
        let p = r.bytes(n);
        let cj = json!({"capacity": cap, "payload": n});
        match call(|| embedding::embed(img.clone(), p.clone(), 8., levels)) {
            Ok(e) => {
                if !m::payload_fits(n, cap) {
                    return violated("data whose length exceeds the header was accepted", cj);
                }
                match call(|| embedding::extract(e, 8., levels)) {
                    Ok(b) if b == p => (),
                    Ok(b) => return violated(format!("largest payload: {}", diff(&p, &b)), cj),
                    Err(x) => return violated(format!("extraction failed: {x}"), cj),
                }
                ctx.count("header limit accepted", 1);
            }
            Err(x) => {
                if m::payload_fits(n, cap) {
                    return violated(format!("data that fit were refused: {x}"), cj);
                }
                ctx.count("header limit refused", 1);
            }
        }
        held(format!("{cap}{n}").as_bytes(), true, cj)
    });
    ctx.require("accepted", 300);
    ctx.require("refused", 300);
    ctx.require("borders", 400);
    ctx.require("tiny domains refused", 30);
    ctx.require("header limit refused", 1);
    ctx.require("header limit accepted", 1);
    ctx.finish(
        "One case = one domain and one payload length (biased to the border), classified by an independent size computation, against the real embed's acceptance; accepted ones are read back. Distinct by domain shape and payload length.",
        &["refusal is a panic of the real code, observed with catch_unwind", "domains of 9 to 15 bytes may be refused"],
    )
}

// ------------------------------------------------------------------ C03

/// Add v to every pixel of carrier block k.
pub fn shift_block(img: &mut Array2<u8>, k: usize, levels: usize, v: i32) {
    let s = 1usize << levels;
    let dc = img.dim().1 / s;
    let (i, j) = (k / dc, k % dc);
    for a in 0..s {
        for b in 0..s {
            let p = &mut img[[i * s + a, j * s + b]];
            *p = (*p as i32 + v).clamp(0, 255) as u8;
        }
    }
}

pub fn c03(ctx: &Ctx) -> serde_json::Value {
    ctx.drive("noise", ctx.n(900, 9000), 0.5, |r, _| {
        let cap = any_capacity(r);
        let s = shape_for(r, cap);
        let sc = (1u64 << s.levels) as f64;
        // amplitude a tolerated iff (a + 0.5) * 2^L < depth / 4
        let a = 1 + r.below(12) as i32;
        let depth = 4. * (a as f64 + 0.5) * sc * (1. + r.float(0.002, 0.2));
        let h = headroom(depth, s.levels) + a as usize;
        if h > 120 {
            return Outcome::Undecided("no headroom");
        }
        let kind = kind(r);
        let img = image_in(r, kind, s.rows, s.cols, h as u8, (255 - h) as u8);
        let n = payload_len(r, m::max_payload(cap));
        let p = r.payload(n);
        let mode = r.below(6);
        let cj = json!({"case": case_json(&s, depth, kind, n), "amplitude": a, "mode": mode});
        let e = match call(|| embedding::embed(img, p.clone(), depth, s.levels)) {
            Ok(e) => e,
            Err(x) => return violated(format!("embedding refused data that fit: {x}"), cj),
        };
        let mut noised = e.clone();
        match mode {
            0 => noised.mapv_inplace(|v| (v as i32 + r.range(-a as i64, a as i64) as i32) as u8),
            1 => noised.mapv_inplace(|v| (v as i32 + a) as u8),
            2 => noised.mapv_inplace(|v| (v as i32 - a) as u8),
            3 => {
                // every block pushed towards the wrong side
                let bits = m::read_bits(&e, depth, s.levels);
                for k in 0..bits.bytes.len() * 8 {
                    let one = bits.bytes[k / 8] >> (k % 8) & 1 == 1;
                    shift_block(&mut noised, k, s.levels, if one { -a } else { a });
                }
            }
            4 => {
                // or away from zero, towards the rounding boundary
                let bits = m::read_bits(&e, depth, s.levels);
                for k in 0..bits.bytes.len() * 8 {
                    let one = bits.bytes[k / 8] >> (k % 8) & 1 == 1;
                    shift_block(&mut noised, k, s.levels, if one { a } else { -a });
                }
            }
            _ => {
                let n = s.rows * s.cols / 20 + 1;
                for _ in 0..n {
                    let (i, j) = (r.below(s.rows), r.below(s.cols));
                    noised[[i, j]] = (e[[i, j]] as i32 + if r.chance(0.5) { a } else { -a }) as u8;
                }
            }
        }
        match call(|| embedding::extract(noised, depth, s.levels)) {
            Ok(b) if b == p => (),
            Ok(b) => return violated(format!("noise of {a} lost the data: {}", diff(&p, &b)), cj),
            Err(x) => return violated(format!("extraction failed under noise: {x}"), cj),
        }
        ctx.count(&format!("noise mode {mode}"), 1);
        ctx.maximum("amplitude", a as f64);
        held(&key(&s, depth, kind, &p), n > 0, cj)
    });
    // carriers destroyed: a few per codeword
    ctx.drive("destroyed carriers", ctx.n(700, 7000), 0.5, |r, _| {
        let cap = loop {
            let c = any_capacity(r);
            if m::code_for(c).is_some() {
                break c;
            }
        };
        let s = shape_for(r, cap);
        let sc = (1u64 << s.levels) as f64;
        let depth = sc * [4., 6., 8., 10.][r.below(4)];
        let flip = (depth / 2. / sc).round() as i32; // moves a carrier to the opposite bit
        let h = headroom(depth, s.levels) + flip as usize;
        let kind = kind(r);
        let img = image_in(r, kind, s.rows, s.cols, h as u8, (255 - h) as u8);
        let n = payload_len(r, m::max_payload(cap));
        let p = r.payload(n);
        let cj0 = case_json(&s, depth, kind, n);
        let mut e = match call(|| embedding::embed(img, p.clone(), depth, s.levels)) {
            Ok(e) => e,
            Err(x) => return violated(format!("embedding refused data that fit: {x}"), cj0),
        };
        let w = m::code_for(cap).unwrap().n();
        let mut hit = vec![];
        for word in 0..m::coded_len(n + 2, cap) * 8 / w {
            for _ in 0..r.below(3) {
                let k = word * w + r.below(w);
                if !hit.contains(&k) {
                    hit.push(k);
                    shift_block(&mut e, k, s.levels, if r.chance(0.5) { flip } else { -flip });
                }
            }
        }
        let cj = json!({"case": cj0, "carriers": hit});
        match call(|| embedding::extract(e, depth, s.levels)) {
            Ok(b) if b == p => (),
            Ok(b) => {
                return violated(
                    format!("{} destroyed carriers lost the data: {}", hit.len(), diff(&p, &b)),
                    cj,
                )
            }
            Err(x) => return violated(format!("extraction failed with destroyed carriers: {x}"), cj),
        }
        ctx.count("carriers destroyed", hit.len() as u64);
        held(&key(&s, depth, kind, &p), !hit.is_empty(), cj)
    });
    ctx.require("noise.held", 300);
    ctx.require("carriers destroyed", 200);
    ctx.finish(
        "One case = one embedded picture disturbed by noise of a known amplitude below the tolerance (six shapes, two of them adversarial per carrier) or with up to two carriers per codeword inverted, then read back. Distinct by shape, depth, picture kind, payload.",
        &["(amplitude + 0.5) * 2^levels < depth / 4; pixels have headroom for embedding and noise"],
    )
}

// ------------------------------------------------------------------ C04 and the format oracle

/// Check an embedded picture against the lattice the format prescribes for `carried` bytes (already coded).
/// Err(reason) on the first deviation. Returns (carriers checked, carriers skipped as floating-point ties).
pub fn check_lattice(
    src: &Array2<u8>,
    out: &Array2<u8>,
    carried: &[u8],
    depth: f64,
    levels: usize,
) -> Result<(u64, u64), String> {
    if src.dim() != out.dim() {
        return Err(format!("dimensions changed from {:?} to {:?}", src.dim(), out.dim()));
    }
    let s = 1usize << levels;
    let ll = m::low_band(src, levels);
    let (dr, dc) = ll.dim();
    let (mut checked, mut ties) = (0, 0);
    for i in 0..dr {
        for j in 0..dc {
            let k = i * dc + j;
            let c = ll[[i, j]];
            let mut allowed: Vec<f64> = vec![];
            if k < carried.len() * 8 {
                let q = if carried[k / 8] >> (k % 8) & 1 == 1 { 0.25 } else { -0.25 };
                let x = c / depth;
                let near = (x - x.floor() - 0.5).abs() < 1e-9;
                for b in if near {
                    vec![x.floor(), x.floor() + 1.]
                } else {
                    vec![x.round()]
                } {
                    let d = (depth * (b + q) - c) / s as f64;
                    allowed.push(d);
                }
                if near {
                    ties += 1;
                }
                checked += 1;
            } else {
                allowed.push(0.);
            }
            for a in 0..s {
                for b in 0..s {
                    let (x, y) = (i * s + a, j * s + b);
                    let (p, o) = (src[[x, y]] as f64, out[[x, y]] as f64);
                    // rounding ties of the real code may go either way
                    let fine = allowed.iter().any(|d| {
                        let t = p + d;
                        o == (t - 1e-7).round().clamp(0., 255.) || o == (t + 1e-7).round().clamp(0., 255.)
                    });
                    if !fine {
                        let bit = if k < carried.len() * 8 {
                            (carried[k / 8] >> (k % 8) & 1).to_string()
                        } else {
                            "none".into()
                        };
                        return Err(format!(
                            "carrier {k} (bit {bit}), pixel ({x},{y}): {p} became {o}, expected shift {allowed:?}"
                        ));
                    }
                }
            }
        }
    }
    Ok((checked, ties))
}

pub fn c04(ctx: &Ctx) -> serde_json::Value {
    ctx.drive("distortion", ctx.n(450, 12000), 1.0, |r, _| {
        let cap = any_capacity(r);
        let s = shape_for(r, cap);
        let sc = (1u64 << s.levels) as f64;
        // any depth, headroom or not
        let depth = match r.below(4) {
            0 => r.float(0.5, 4.) * sc,
            1 => r.float(1., 2040.),
            _ => any_depth(r, s.levels, 120).0,
        };
        let kind = kind(r);
        let full = r.chance(0.5);
        let (lo, hi) = if full {
            (0, 255)
        } else {
            (r.below(120) as u8, 135 + r.below(120) as u8)
        };
        let img = image_in(r, kind, s.rows, s.cols, lo, hi);
        let n = payload_len(r, m::max_payload(cap));
        let p = r.payload(n);
        let cj = json!({"case": case_json(&s, depth, kind, n), "range": [lo, hi]});
        let out = match call(|| embedding::embed(img.clone(), p.clone(), depth, s.levels)) {
            Ok(e) => e,
            Err(x) => return violated(format!("embedding refused data that fit: {x}"), cj),
        };
        if out.dim() != img.dim() {
            return violated("dimensions changed", cj);
        }
        let bound = 0.75 * depth / sc + 0.5 + 1e-6;
        let size = 1usize << s.levels;
        let dc = s.cols / size;
        let used = m::coded_len(n + 2, cap) * 8;
        let (mut worst, mut changed) = (0f64, 0u64);
        for ((i, j), a) in img.indexed_iter() {
            let b = out[[i, j]];
            let d = (b as f64 - *a as f64).abs();
            if d > bound {
                return violated(format!("pixel ({i},{j}) moved from {a} to {b}, bound {bound}"), cj);
            }
            if d > 0. {
                changed += 1;
                let k = (i / size) * dc + j / size;
                if k >= used {
                    return violated(
                        format!("pixel ({i},{j}) of unused carrier {k} (of {used} used) changed from {a} to {b}"),
                        cj,
                    );
                }
            }
            worst = worst.max(d);
        }
        let ll = m::low_band(&img, s.levels);
        // one carrier moves as a whole: same shift for all its pixels, except where the range ends
        for bi in 0..s.rows / size {
            for bj in 0..dc {
                let mut shift: Option<i32> = None;
                for a in 0..size {
                    for b in 0..size {
                        let (x, y) = (bi * size + a, bj * size + b);
                        let o = out[[x, y]];
                        if o == 0 || o == 255 {
                            continue;
                        }
                        let d = o as i32 - img[[x, y]] as i32;
                        match shift {
                            None => shift = Some(d),
                            // a shift of exactly one half may round either way
                            Some(e) if (e - d).abs() <= 1 => {
                                if e != d && !half_shift(ll[[bi, bj]], sc, depth) {
                                    return violated(format!("carrier {} shifted unevenly: {e} and {d}", bi * dc + bj), cj);
                                }
                            }
                            Some(e) => return violated(format!("carrier {} shifted unevenly: {e} and {d}", bi * dc + bj), cj),
                        }
                    }
                }
            }
        }
        ctx.count("pixels compared", img.len() as u64);
        ctx.count("pixels changed", changed);
        ctx.maximum("largest shift / bound", worst / bound);
        held(&key(&s, depth, kind, &p), changed > 0, cj)
    });
    ctx.require("distortion.held", 120);
    ctx.require("pixels changed", 100000);
    ctx.finish(
        "One case = one picture of any range and one depth (also below the readable minimum), compared pixel by pixel with the embedded one. Distinct by shape, depth, picture kind and payload; trivial if no pixel changed.",
        &["the length of the coded data follows the format's framing"],
    )
}

/// Is the shift prescribed for this carrier (either bit, either neighbour lattice point) an exact half?
fn half_shift(c: f64, s: f64, depth: f64) -> bool {
    let x = (c / depth).floor();
    [x, x + 1.].iter().any(|b| {
        [0.25, -0.25].iter().any(|q| {
            let d = (depth * (b + q) - c) / s;
            (d - d.floor() - 0.5).abs() < 1e-6
        })
    })
}

// ------------------------------------------------------------------ C22, embedding part

pub fn c22_embedding(ctx: &Ctx) {
    ctx.drive("written pictures", ctx.n(900, 9000), 0.25, |r, _| {
        let cap = any_capacity(r);
        let s = shape_for(r, cap);
        let (depth, _) = any_depth(r, s.levels, 120);
        let kind = kind(r);
        let img = image_in(r, kind, s.rows, s.cols, 0, 255);
        let n = payload_len(r, m::max_payload(cap));
        let p = r.payload(n);
        let cj = case_json(&s, depth, kind, n);
        let out = match call(|| embedding::embed(img.clone(), p.clone(), depth, s.levels)) {
            Ok(e) => e,
            Err(x) => return violated(format!("embedding refused data that fit: {x}"), cj),
        };
        let coded = m::encode(&m::wrap_payload(&p), cap);
        match check_lattice(&img, &out, &coded, depth, s.levels) {
            Ok((n, t)) => {
                ctx.count("carriers compared with the format", n);
                ctx.count("carriers on a rounding tie", t);
                held(&key(&s, depth, kind, &p), true, cj)
            }
            Err(x) => violated(format!("picture deviates from the format: {x}"), cj),
        }
    });
    ctx.drive("read pictures", ctx.n(900, 9000), 0.25, |r, _| {
        // pictures made by the independent writer
        let cap = any_capacity(r);
        let s = shape_for(r, cap);
        let (depth, h) = any_depth(r, s.levels, 110);
        let kind = kind(r);
        let mut img = image_in(r, kind, s.rows, s.cols, h as u8, (255 - h) as u8);
        let n = payload_len(r, m::max_payload(cap));
        let p = r.payload(n);
        let cj = case_json(&s, depth, kind, n);
        m::write_carriers(&mut img, &m::encode(&m::wrap_payload(&p), cap), depth, s.levels);
        match call(|| embedding::extract(img, depth, s.levels)) {
            Ok(b) if b == p => {
                ctx.count("independently written pictures read", 1);
                held(&key(&s, depth, kind, &p), n > 0, cj)
            }
            Ok(b) => violated(format!("a picture in the format is misread: {}", diff(&p, &b)), cj),
            Err(x) => violated(format!("a picture in the format is not read: {x}"), cj),
        }
    });
}
