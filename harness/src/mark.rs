//! C13 watermarking pictures, C14 fresh pictures authenticate, C15 forgeries are rejected, C16 every picture gets a
//! verdict, C22 the watermark's format.
use crate::embed::{check_lattice, headroom, shift_block};
use crate::fw::*;
use crate::gen::*;
use crate::refmodel as m;
use crate::refmodel::Verdict;
use crate::rng::Rng;
use image::{DynamicImage, GenericImageView, GrayImage, ImageBuffer, Luma, LumaA, Rgb, Rgba};
use ndarray::Array2;
use serde_json::{json, Value};

pub const TEXT: &str = "Hello world!";

/// Domain sizes (rows, columns of the low band) that hold a watermark of up to `amount` features.
pub fn domain(r: &mut Rng, amount: usize) -> (usize, usize) {
    let need = 3 + (3 * amount + 7) / 8 + 64 + TEXT.len();
    loop {
        let (a, b) = match r.below(8) {
            0 => (32, 64),
            1 => (26 + r.below(8), 26 + r.below(8)),
            2 => (16 + r.below(8), 38 + r.below(16)),
            3 => (64, 32),
            4 => (64, 64),
            _ => (24 + r.below(12), 24 + r.below(12)),
        };
        let (a, b) = if r.chance(0.5) { (a, b) } else { (b, a) };
        if m::payload_fits(need, a * b / 8) {
            return (a, b);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Case {
    pub rows: usize,
    pub cols: usize,
    pub levels: usize,
    pub depth: f64,
    pub step: f64,
    pub amount: usize,
    pub kind: &'static str,
    pub head: usize,
}

impl Case {
    pub fn json(&self) -> Value {
        json!({"rows": self.rows, "cols": self.cols, "levels": self.levels, "depth": self.depth, "step": self.step,
            "amount": self.amount, "image": self.kind})
    }
}

pub fn case(r: &mut Rng, thorough: bool) -> Case {
    let amount = match r.below(12) {
        0 => 11,
        1 => 5 + r.below(6),
        _ => 1 + r.below(4),
    };
    let big = r.chance(if thorough { 0.2 } else { 0.08 });
    let levels = if big { 3 } else { 1 + r.below(2) };
    let (a, b) = loop {
        let d = domain(r, amount);
        // keep the cost of the polynomials in bounds
        let side = d.0.max(d.1) << levels;
        if side * side * amount < 1_500_000 || (big && side * side * amount < 3_000_000) {
            break d;
        }
    };
    let s = (1u64 << levels) as f64;
    let depth = match r.below(3) {
        0 => s * 2.2,
        1 => s * [2.5, 3., 4., 5., 8.][r.below(5)],
        _ => s * r.float(2.2, 30.),
    };
    let step = [0.5, 1., 1., 1., 2., 3., 5., 10.][r.below(8)] * if r.chance(0.3) { r.float(0.7, 1.4) } else { 1. };
    Case {
        rows: a << levels,
        cols: b << levels,
        levels,
        depth,
        step,
        amount,
        kind: kind(r),
        head: headroom(depth, levels),
    }
}

/// What the format says a watermark of this channel is; None if a feature lies on a boundary.
pub fn expected_record(img: &Array2<u8>, amount: usize, step: f64) -> Option<(m::Record, Vec<f64>)> {
    let f = m::features(&m::equalized(img), amount);
    if f.iter()
        .any(|f| m::boundary_distance(*f, step) * step < 20. * crate::feat::tolerance(amount))
    {
        return None;
    }
    let q: Vec<i64> = f.iter().map(|f| m::cell(*f, step)).collect();
    let r = m::Record {
        perturbation: m::perturbation(&f, step),
        signature: m::ref_sign(&m::cells_bytes(&q)),
        text: TEXT.into(),
    };
    Some((r, f))
}

/// Compare a watermarked channel with what the format prescribes for its source.
pub fn check_channel(ctx: &Ctx, src: &Array2<u8>, out: &Array2<u8>, c: &Case) -> Result<bool, String> {
    let rec = match expected_record(src, c.amount, c.step) {
        Some((r, _)) => r,
        None => {
            ctx.count("channels with a feature on a boundary (bound not compared)", 1);
            return Ok(false);
        }
    };
    let coded = m::encode(
        &m::wrap_payload(&m::write_record(&rec)),
        (src.dim().0 >> c.levels) * (src.dim().1 >> c.levels) / 8,
    );
    let (n, _) = check_lattice(src, out, &coded, c.depth, c.levels)?;
    ctx.count("channels compared with the format", 1);
    ctx.count("carriers compared with the format", n);
    Ok(true)
}

fn gray(r: &mut Rng, c: &Case, lo: usize) -> Array2<u8> {
    let lo = lo.min(120) as u8;
    image_in(r, c.kind, c.rows, c.cols, lo, 255 - lo)
}

// ------------------------------------------------------------------ C13

/// Channel planes of the 8-bit conversion.
fn planes(d: &DynamicImage) -> Vec<Array2<u8>> {
    let (w, h) = d.dimensions();
    let p = d.to_rgba8();
    (0..4)
        .map(|k| Array2::from_shape_fn((h as usize, w as usize), |(i, j)| p.get_pixel(j as u32, i as u32)[k]))
        .collect()
}

pub fn build(variant: usize, p: &[Array2<u8>], r: &mut Rng) -> DynamicImage {
    let (rows, cols) = p[0].dim();
    let (w, h) = (cols as u32, rows as u32);
    let at = |k: usize, x: u32, y: u32| p[k][[y as usize, x as usize]];
    let low = r.next();
    // arbitrary low bytes that do not change the 8-bit value
    let wide = move |v: u8, x: u32, y: u32| -> u16 {
        let t = (low.wrapping_mul(x as u64 + 77 * y as u64 + 1) >> 40) as i32 % 200 - 100;
        (v as i32 * 257 + t).clamp(0, 65535) as u16
    };
    match variant {
        0 => DynamicImage::ImageLuma8(ImageBuffer::from_fn(w, h, |x, y| Luma([at(0, x, y)]))),
        1 => DynamicImage::ImageLumaA8(ImageBuffer::from_fn(w, h, |x, y| LumaA([at(0, x, y), at(3, x, y)]))),
        2 => DynamicImage::ImageRgb8(ImageBuffer::from_fn(w, h, |x, y| {
            Rgb([at(0, x, y), at(1, x, y), at(2, x, y)])
        })),
        3 => DynamicImage::ImageRgba8(ImageBuffer::from_fn(w, h, |x, y| {
            Rgba([at(0, x, y), at(1, x, y), at(2, x, y), at(3, x, y)])
        })),
        4 => DynamicImage::ImageLuma16(ImageBuffer::from_fn(w, h, |x, y| Luma([wide(at(0, x, y), x, y)]))),
        5 => DynamicImage::ImageLumaA16(ImageBuffer::from_fn(w, h, |x, y| {
            LumaA([wide(at(0, x, y), x, y), wide(at(3, x, y), y, x)])
        })),
        6 => DynamicImage::ImageRgb16(ImageBuffer::from_fn(w, h, |x, y| {
            Rgb([wide(at(0, x, y), x, y), wide(at(1, x, y), y, x), wide(at(2, x, y), x, x)])
        })),
        7 => DynamicImage::ImageRgba16(ImageBuffer::from_fn(w, h, |x, y| {
            Rgba([
                wide(at(0, x, y), x, y),
                wide(at(1, x, y), y, x),
                wide(at(2, x, y), x, x),
                wide(at(3, x, y), y, y),
            ])
        })),
        8 => DynamicImage::ImageRgb32F(ImageBuffer::from_fn(w, h, |x, y| {
            Rgb([
                at(0, x, y) as f32 / 255.,
                at(1, x, y) as f32 / 255.,
                at(2, x, y) as f32 / 255.,
            ])
        })),
        _ => DynamicImage::ImageRgba32F(ImageBuffer::from_fn(w, h, |x, y| {
            Rgba([
                at(0, x, y) as f32 / 255.,
                at(1, x, y) as f32 / 255.,
                at(2, x, y) as f32 / 255.,
                at(3, x, y) as f32 / 255.,
            ])
        })),
    }
}

pub fn c13(ctx: &Ctx) -> Value {
    let make = |r: &mut Rng| -> (Case, Vec<Array2<u8>>) {
        let amount = if r.chance(0.05) { 11 } else { 1 + r.below(2) };
        let levels = 3;
        let large = amount == 1 && r.chance(0.08);
        let (a, b) = loop {
            if large {
                break (60 + r.below(70), 60 + r.below(70));
            }
            let d = domain(r, amount);
            let side = d.0.max(d.1) << levels;
            if side * side * amount < 220_000 || amount == 11 && side * side < 60_000 {
                break d;
            }
        };
        let depth = [20., 24., 30., 50., 100., 37.5][r.below(6)];
        let c = Case {
            rows: a << 3,
            cols: b << 3,
            levels,
            depth,
            step: [1., 0.5, 2.][r.below(3)],
            amount,
            kind: "mixed",
            head: headroom(depth, 3),
        };
        let mut p: Vec<Array2<u8>> = (0..4)
            .map(|_| {
                let k = kind(r);
                let (lo, hi) = if r.chance(0.5) { (0, 255) } else { (30, 220) };
                image_in(r, k, c.rows, c.cols, lo, hi)
            })
            .collect();
        // opaque or fully transparent everywhere, nearly so, or in parts
        let spot = (r.below(c.rows), r.below(c.cols));
        match r.below(7) {
            0 => p[3].fill(255),
            1 => p[3].fill(0),
            2 => {
                p[3].fill(255);
                p[3][spot] = r.below(255) as u8;
            }
            3 => p[3].mapv_inplace(|v| if v < 128 { 0 } else { 255 }),
            _ => (),
        }
        // channels that are alike, or nearly, or empty: grey pictures stored as colour, single-coloured ones
        match r.below(8) {
            0 => (p[1], p[2]) = (p[0].clone(), p[0].clone()),
            1 => {
                (p[1], p[2]) = (p[0].clone(), p[0].clone());
                p[2][spot] ^= 1;
            }
            2 => p[1 + r.below(2)] = p[0].clone(),
            3 => {
                let v = *r.pick(&[0, 255, 128, 7]);
                let k = r.below(3);
                p[k].fill(v);
            }
            _ => (),
        }
        (c, p)
    };
    ctx.drive("pictures", ctx.n(160, 1600), 0.7, |r, k| {
        let (c, p) = make(r);
        let variant = k as usize % 10;
        let d = build(variant, &p, r);
        let cj = json!({"case": c.json(), "type": format!("{:?}", d.color())});
        let before = planes(&d);
        let color = d.color();
        let copy = d.clone();
        let out = match call(|| watermarking::watermark(d.clone(), c.depth, c.step, c.amount)) {
            Ok(o) => o,
            Err(e) => return violated(format!("a picture that holds a watermark was refused: {e}"), cj),
        };
        if d != copy {
            return violated("the input changed", cj);
        }
        if out.dimensions() != d.dimensions() {
            return violated(format!("dimensions became {:?}", out.dimensions()), cj);
        }
        let oc = out.color();
        if oc.has_color() != color.has_color()
            || oc.has_alpha() != color.has_alpha()
            || oc.channel_count() != color.channel_count()
        {
            return violated(format!("type became {oc:?}"), cj);
        }
        let after = planes(&out);
        if color.has_alpha() && after[3] != before[3] {
            return violated("transparency changed", cj);
        }
        let channels = if color.has_color() { 3 } else { 1 };
        for ch in 0..channels {
            if let Err(e) = check_channel(ctx, &before[ch], &after[ch], &c) {
                return violated(format!("channel {ch}: {e}"), cj);
            }
            #[cfg(feature = "h_wm")]
            if r.chance(0.3) {
                match call(|| watermarking::monitor::watermark_channel(&to_gray(&before[ch]), c.depth, c.step, c.amount, 3)) {
                    Ok(g) if from_gray(&g) == after[ch] => ctx.count("channels compared with a lone channel", 1),
                    Ok(_) => return violated(format!("channel {ch} differs from the same channel watermarked alone"), cj),
                    Err(e) => return violated(format!("channel {ch} alone refused: {e}"), cj),
                }
            }
        }
        ctx.count(&format!("type {:?}", color), 1);
        held(
            format!("{cj}{}", before[0][[0, 0]]).as_bytes(),
            after[..channels] != before[..channels],
            cj,
        )
    });
    // channels do not influence each other
    ctx.drive("channel independence", ctx.n(40, 400), 0.3, |r, _| {
        let (c, p) = make(r);
        let cj = c.json();
        let base = build(2, &p, r);
        let perm = [[1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]][r.below(5)];
        let q: Vec<Array2<u8>> = perm.iter().map(|k| p[*k].clone()).chain([p[3].clone()]).collect();
        let swapped = build(3, &q, r);
        let lone = build(r.below(2), &[p[0].clone(), p[0].clone(), p[0].clone(), p[3].clone()], r);
        let mark = |d: &DynamicImage| call(|| watermarking::watermark(d.clone(), c.depth, c.step, c.amount)).map(|o| planes(&o));
        match (mark(&base), mark(&swapped), mark(&lone)) {
            (Ok(a), Ok(b), Ok(l)) => {
                for k in 0..3 {
                    if b[k] != a[perm[k]] {
                        return violated(format!("channel {k} depends on its position or neighbours"), cj);
                    }
                }
                if l[0] != a[0] {
                    return violated("the same content is marked differently in a grey picture", cj);
                }
                ctx.count("channel permutations", 1);
                held(format!("{cj}{:?}", perm).as_bytes(), true, cj)
            }
            _ => violated("a picture that holds a watermark was refused", cj),
        }
    });
    // pictures too small are refused, never returned unmarked
    ctx.drive("too small", ctx.n(60, 600), 0.1, |r, k| {
        let (w, h) = [
            (8, 8),
            (16, 24),
            (64, 64),
            (128, 128),
            (200, 200),
            (200, 208),
            (256, 256),
            (128, 256),
            (9, 9),
            (100, 130),
            (8, 1024),
            (217, 217),
            (232, 236),
            (219, 256),
            (300, 221),
        ][k as usize % 15];
        let amount = 1 + r.below(2);
        let need = 3 + (3 * amount + 7) / 8 + 64 + TEXT.len();
        let p: Vec<Array2<u8>> = (0..4).map(|_| image_in(r, "noise", h, w, 40, 210)).collect();
        let d = build(r.below(4), &p, r);
        let cj = json!({"width": w, "height": h, "amount": amount});
        if m::payload_fits(need, (w / 8) * (h / 8) / 8) && w % 8 == 0 && h % 8 == 0 {
            return Outcome::Undecided("fits");
        }
        if let Ok(o) = call(|| watermarking::watermark(d.clone(), 50., 1., amount)) {
            if w.min(h) > 216 {
                // sides that are no multiples of eight: whatever is returned has the same form
                if o.dimensions() != d.dimensions() || o.color() != d.color() {
                    return violated(
                        format!("a picture of {w}x{h} became {:?} of {:?}", o.color(), o.dimensions()),
                        cj,
                    );
                }
                return held(format!("{w}x{h}{k}").as_bytes(), true, cj);
            }
            // acceptable only if it really carries the watermark
            let c = Case {
                rows: h,
                cols: w,
                levels: 3,
                depth: 50.,
                step: 1.,
                amount,
                kind: "noise",
                head: 0,
            };
            let fine = w % 8 == 0 && h % 8 == 0 && check_channel(ctx, &planes(&d)[0], &planes(&o)[0], &c) == Ok(true);
            if !fine {
                return violated("a picture too small for the watermark was returned as watermarked", cj);
            }
        }
        ctx.count("small pictures refused", 1);
        held(format!("{cj}").as_bytes(), true, cj)
    });
    ctx.require("pictures.held", 40);
    ctx.require("channels compared with the format", 50);
    ctx.require("channel permutations", 10);
    ctx.finish(
        "One case = one picture of one of ten pixel types (8-, 16-bit and float, grey/colour, with and without alpha) watermarked by the public entry point; every channel compared carrier by carrier with the format's prediction and, sampled, with the same channel alone; permuted channels; pictures too small. Distinct by shape, parameters, type, content.",
        &["the 8-bit conversion of wide pixels is the image crate's"],
    )
}

// ------------------------------------------------------------------ C22

fn golden_dir() -> String {
    std::env::var("SIAVP_GOLDEN").unwrap_or("/verif/golden".into())
}

pub fn golden_write() {
    // pictures as the format defines them, written by the independent model
    let mut list = vec![];
    let dir = golden_dir();
    std::fs::create_dir_all(&dir).unwrap();
    for k in 0..6u64 {
        let mut r = Rng::new(4242 + k);
        let (a, b) = [(27, 27), (30, 30), (24, 32), (33, 25), (32, 64), (27, 29)][k as usize];
        let amount = [11, 3, 5, 11, 2, 1][k as usize];
        let levels = [3, 2, 3, 2, 3, 1][k as usize];
        let depth = [100., 40., 30., 24., 64., 8.][k as usize];
        let c = Case {
            rows: a << levels,
            cols: b << levels,
            levels,
            depth,
            step: 1.,
            amount,
            kind: "plasma",
            head: headroom(depth, levels),
        };
        let h = c.head as u8;
        let mut img;
        let rec;
        loop {
            img = image_in(&mut r, "gradient", c.rows, c.cols, h, 255 - h);
            let extra = image_in(&mut r, "shapes", c.rows, c.cols, 0, 40);
            img.zip_mut_with(&extra, |x, y| *x = (*x).saturating_sub(*y).max(h));
            if let Some((x, _)) = expected_record(&img, amount, c.step) {
                let mut t = img.clone();
                m::write_carriers(
                    &mut t,
                    &m::encode(&m::wrap_payload(&m::write_record(&x)), a * b / 8),
                    depth,
                    levels,
                );
                if m::authenticate(&t, depth, c.step, amount, levels) == Verdict::Authentic {
                    rec = x;
                    break;
                }
            }
        }
        let name = format!("golden-{k}.png");
        let src = format!("source-{k}.png");
        to_gray(&img).save(format!("{dir}/{src}")).unwrap();
        let payload = m::write_record(&rec);
        m::write_carriers(&mut img, &m::encode(&m::wrap_payload(&payload), a * b / 8), depth, levels);
        to_gray(&img).save(format!("{dir}/{name}")).unwrap();
        list.push(
            json!({"file": name, "source": src, "levels": levels, "depth": depth, "step": 1.0, "amount": amount,
            "payload": payload.iter().map(|x| format!("{x:02x}")).collect::<String>()}),
        );
    }
    std::fs::write(format!("{dir}/golden.json"), serde_json::to_string_pretty(&list).unwrap()).unwrap();
}

pub fn c22(ctx: &Ctx) -> Value {
    crate::embed::c22_embedding(ctx);
    #[cfg(feature = "h_wm")]
    ctx.drive("watermarked channels", ctx.n(300, 3000), 0.3, |r, _| {
        let c = case(r, ctx.thorough);
        let head = if r.chance(0.5) { 0 } else { c.head };
        let img = gray(r, &c, head);
        let cj = c.json();
        match call(|| watermarking::monitor::watermark_channel(&to_gray(&img), c.depth, c.step, c.amount, c.levels)) {
            Ok(o) => match check_channel(ctx, &img, &from_gray(&o), &c) {
                Ok(true) => held(format!("{cj}{}", img[[0, 0]]).as_bytes(), true, cj),
                Ok(false) => Outcome::Undecided("a feature lies on a boundary"),
                Err(e) => violated(e, cj),
            },
            Err(e) => violated(format!("a channel that holds a watermark was refused: {e}"), cj),
        }
    });
    let list: Vec<Value> = std::fs::read_to_string(format!("{}/golden.json", golden_dir()))
        .ok()
        .and_then(|t| serde_json::from_str(&t).ok())
        .unwrap_or_default();
    ctx.drive("stored pictures", list.len() as u64, 0.2, |_, k| {
        let g = &list[k as usize];
        let dir = golden_dir();
        let img = image::open(format!("{dir}/{}", g["file"].as_str().unwrap()))
            .unwrap()
            .to_luma8();
        let (depth, step) = (g["depth"].as_f64().unwrap(), g["step"].as_f64().unwrap());
        let (amount, levels) = (g["amount"].as_u64().unwrap() as usize, g["levels"].as_u64().unwrap() as usize);
        match call(|| embedding::extract(from_gray(&img), depth, levels)) {
            Ok(p) if p.iter().map(|x| format!("{x:02x}")).collect::<String>() == g["payload"].as_str().unwrap() => (),
            Ok(_) => return violated("a stored picture yields other data", g.clone()),
            Err(e) => return violated(format!("a stored picture is not readable: {e}"), g.clone()),
        }
        #[cfg(feature = "h_wm")]
        {
            match call(|| watermarking::monitor::authenticate_channel(&img, depth, step, amount, levels)) {
                Ok(true) => (),
                other => return violated(format!("a stored picture does not authenticate: {other:?}"), g.clone()),
            }
            let src = image::open(format!("{dir}/{}", g["source"].as_str().unwrap()))
                .unwrap()
                .to_luma8();
            match call(|| watermarking::monitor::watermark_channel(&src, depth, step, amount, levels)) {
                Ok(o) => {
                    let differing = o.as_raw().iter().zip(img.as_raw()).filter(|(a, b)| a != b).count();
                    // carriers on a rounding tie may go either way
                    if differing > img.as_raw().len() / 20 {
                        return violated(
                            format!("watermarking a stored source gives another picture ({differing} pixels)"),
                            g.clone(),
                        );
                    }
                }
                Err(e) => return violated(format!("stored source refused: {e}"), g.clone()),
            }
        }
        let _ = (step, amount);
        ctx.count("stored pictures read", 1);
        held(&[k as u8], true, g.clone())
    });
    ctx.require("carriers compared with the format", 100000);
    ctx.require("independently written pictures read", 300);
    ctx.require("channels compared with the format", 60);
    ctx.require("stored pictures read", list.len().max(1) as u64);
    ctx.finish(
        "Pictures written by the real code compared carrier by carrier with the layout; pictures written by an independent encoder read by the real code; watermarked channels compared with an independent prediction of features, signature, record and carriers; committed pictures read, authenticated, and reproduced from their sources. Distinct by parameters and content.",
        &["carriers within 1e-9 of a rounding tie may go either way"],
    )
}

// ------------------------------------------------------------------ authentication

#[cfg(feature = "h_wm")]
pub fn real_auth(img: &Array2<u8>, c: &Case) -> Result<bool, String> {
    let g = to_gray(img);
    let copy: GrayImage = g.clone();
    let v = call(|| watermarking::monitor::authenticate_channel(&g, c.depth, c.step, c.amount, c.levels));
    assert!(g == copy);
    v
}
#[cfg(feature = "h_wm")]
pub fn real_mark(img: &Array2<u8>, c: &Case) -> Result<Array2<u8>, String> {
    call(|| watermarking::monitor::watermark_channel(&to_gray(img), c.depth, c.step, c.amount, c.levels)).map(|g| from_gray(&g))
}

/// The real verdict against the reference's.
#[cfg(feature = "h_wm")]
fn agree(ctx: &Ctx, what: &str, img: &Array2<u8>, c: &Case) -> Result<Verdict, String> {
    let want = ref_verdict(img, c);
    let got = real_auth(img, c);
    match (want, got) {
        (_, Err(e)) => Err(format!("{what}: no verdict: {e}")),
        (Verdict::Authentic, Ok(false)) => Err(format!("{what}: rejected, though record, signature and features agree")),
        (Verdict::Rejected(why), Ok(true)) => Err(format!("{what}: accepted as authentic ({why})")),
        (v, Ok(_)) => {
            ctx.count(
                &match v {
                    Verdict::Authentic => "verdict authentic".to_string(),
                    Verdict::Rejected(w) => format!("verdict rejected: {w}"),
                    Verdict::Ambiguous(w) => format!("verdict left open: {w}"),
                },
                1,
            );
            Ok(v)
        }
    }
}

/// Reference verdict; features close enough to a boundary for rounding to matter leave it open.
pub fn ref_verdict(img: &Array2<u8>, c: &Case) -> Verdict {
    let v = m::authenticate(img, c.depth, c.step, c.amount, c.levels);
    if let Verdict::Authentic | Verdict::Rejected("signature") = v {
        let f = m::features(&m::equalized(img), c.amount);
        if f.iter()
            .any(|f| m::boundary_distance(*f, c.step) * c.step < 20. * crate::feat::tolerance(c.amount))
        {
            return Verdict::Ambiguous("feature on a boundary");
        }
    }
    v
}

// ------------------------------------------------------------------ C14

#[cfg(feature = "h_wm")]
pub fn c14(ctx: &Ctx) -> Value {
    ctx.drive("fresh", ctx.n(420, 7000), 0.6, |r, _| {
        let c = case(r, ctx.thorough);
        let mut img = gray(r, &c, c.head);
        let cj = c.json();
        if c.head > 120 {
            return Outcome::Undecided("no headroom");
        }
        // some pixels at the ends of the range, as most pictures have; judged where the carriers survive that
        if r.chance(0.4) {
            let most = if r.chance(0.2) { 200 } else { 8 };
            let n = 2 + r.below(most);
            for k in 0..n {
                let p = (r.below(c.rows), r.below(c.cols));
                img[p] = if k == 0 || k > 1 && r.chance(0.5) { 255 } else { 0 };
            }
            let mut t = img.clone();
            match expected_record(&img, c.amount, c.step) {
                Some((x, _)) => m::write_carriers(
                    &mut t,
                    &m::encode(
                        &m::wrap_payload(&m::write_record(&x)),
                        (c.rows >> c.levels) * (c.cols >> c.levels) / 8,
                    ),
                    c.depth,
                    c.levels,
                ),
                None => return Outcome::Undecided("a feature on a boundary"),
            };
            if ref_verdict(&t, &c) != Verdict::Authentic {
                return Outcome::Undecided("no headroom");
            }
            ctx.count("pictures with pixels at both ends of the range", 1);
        }
        let out = match real_mark(&img, &c) {
            Ok(o) => o,
            Err(e) => return violated(format!("a channel that holds a watermark was refused: {e}"), cj),
        };
        let (a, b) = (
            m::features(&m::equalized(&img), c.amount),
            m::features(&m::equalized(&out), c.amount),
        );
        let drift = a.iter().zip(&b).map(|(a, b)| (a - b).abs()).fold(0., f64::max) / c.step;
        match real_auth(&out, &c) {
            Err(e) => return violated(format!("no verdict on a fresh watermark: {e}"), cj),
            Ok(true) => ctx.count("fresh pictures authentic", 1),
            Ok(false) => {
                if drift < 1. - 1e-3 {
                    return violated(
                        format!("a fresh watermark does not authenticate (features moved {drift} steps)"),
                        cj,
                    );
                }
                ctx.count("fresh pictures whose features moved a step", 1);
            }
        }
        if drift < 1. - 1e-3 {
            ctx.count("fresh pictures within a step", 1);
        }
        if drift > 0.5 {
            ctx.count("fresh pictures half a step away or more", 1);
        }
        held(
            format!("{cj}{:?}", a).as_bytes(),
            drift < 1.,
            json!({"case": cj, "drift in steps": drift}),
        )
    });
    // noise that neither moves a feature by a step nor destroys a carrier
    ctx.drive("disturbed", ctx.n(260, 4000), 0.4, |r, _| {
        let mut c = case(r, ctx.thorough);
        let sc = (1u64 << c.levels) as f64;
        let amp = 1 + r.below(3) as i32;
        c.depth = 4. * (amp as f64 + 0.5) * sc * (1. + r.float(0.002, 0.3));
        c.step = [2., 4., 8.][r.below(3)];
        c.head = headroom(c.depth, c.levels) + amp as usize;
        let img = gray(r, &c, c.head);
        let cj = json!({"case": c.json(), "amplitude": amp});
        let mut out = match real_mark(&img, &c) {
            Ok(o) => o,
            Err(e) => return violated(format!("a channel that holds a watermark was refused: {e}"), cj),
        };
        match r.below(3) {
            0 => out.mapv_inplace(|v| (v as i32 + r.range(-amp as i64, amp as i64) as i32) as u8),
            1 => out.mapv_inplace(|v| (v as i32 + amp) as u8),
            _ => out.mapv_inplace(|v| (v as i32 - amp) as u8),
        }
        let (a, b) = (
            m::features(&m::equalized(&img), c.amount),
            m::features(&m::equalized(&out), c.amount),
        );
        let drift = a.iter().zip(&b).map(|(a, b)| (a - b).abs()).fold(0., f64::max) / c.step;
        match real_auth(&out, &c) {
            Err(e) => return violated(format!("no verdict: {e}"), cj),
            Ok(true) => ctx.count("disturbed pictures authentic", 1),
            Ok(false) if drift < 1. - 1e-3 => {
                return violated(
                    format!("a watermark disturbed by {amp} does not authenticate (features moved {drift} steps)"),
                    cj,
                )
            }
            _ => ctx.count("disturbed pictures whose features moved a step", 1),
        }
        held(
            format!("{cj}{:?}", b).as_bytes(),
            drift < 1.,
            json!({"case": cj, "drift in steps": drift}),
        )
    });
    ctx.require("fresh pictures within a step", 80);
    ctx.require("disturbed pictures authentic", 60);
    ctx.require("pictures with pixels at both ends of the range", 30);
    ctx.finish(
        "One case = one channel watermarked by the real code (1-11 features, 1-3 levels, several code sizes, depths from the readable minimum) and authenticated at once or after noise below the carriers' tolerance; the feature drift is measured by an independent evaluation. Distinct by parameters and features; trivial if the drift reaches a step.",
        &["headroom for the embedding; drift below a step by one part in a thousand; uniform parameters on both sides"],
    )
}

// ------------------------------------------------------------------ C15

#[cfg(feature = "h_wm")]
pub fn c15(ctx: &Ctx) -> Value {
    ctx.drive("tampering", ctx.n(170, 7000), 0.7, |r, _| {
        let mut c = case(r, ctx.thorough);
        let sc = (1u64 << c.levels) as f64;
        // blocks can be moved by whole depths without touching what they carry
        let k = 3 + r.below(10);
        c.depth = sc * k as f64;
        c.head = headroom(c.depth, c.levels);
        c.step = [0.5, 1., 1., 2., 0.25][r.below(5)];
        let img = gray(r, &c, c.head);
        let cj = c.json();
        let out = match real_mark(&img, &c) {
            Ok(o) => o,
            Err(e) => return violated(format!("a channel that holds a watermark was refused: {e}"), cj),
        };
        match agree(ctx, "fresh", &out, &c) {
            Ok(_) => (),
            Err(e) => return violated(e, cj),
        }
        let (dr, dc) = (c.rows >> c.levels, c.cols >> c.levels);
        let mut seen = 0;
        for round in 0..3 {
            let mut t = out.clone();
            let what: String;
            match r.below(6) {
                0 => {
                    // repaint a region by whole depths
                    let (h, w) = (1 + r.below(dr), 1 + r.below(dc));
                    let (i0, j0) = (r.below(dr - h + 1), r.below(dc - w + 1));
                    let turns = 1 + r.below(4) as i32;
                    let sign = if r.chance(0.5) { 1 } else { -1 };
                    for i in i0..i0 + h {
                        for j in j0..j0 + w {
                            let (y, x) = (i << c.levels, j << c.levels);
                            let block = t.slice(ndarray::s![y..y + (1 << c.levels), x..x + (1 << c.levels)]);
                            let d = sign * turns * k as i32;
                            if block.iter().all(|p| (0..256).contains(&(*p as i32 + d))) {
                                shift_block(&mut t, i * dc + j, c.levels, d);
                            }
                        }
                    }
                    what = format!("region {h}x{w} repainted");
                }
                1 => {
                    // checkerboard of whole depths
                    for b in 0..dr * dc {
                        if (b / dc + b % dc) % 2 == 0 {
                            shift_block(&mut t, b, c.levels, k as i32);
                        }
                    }
                    what = "pattern over the picture".into();
                }
                2 => {
                    // the watermark copied onto another picture
                    let k2 = kind(r);
                    let h = c.head.min(120) as u8;
                    t = image_in(r, k2, c.rows, c.cols, h, 255 - h);
                    let carried = m::read_bits(&out, c.depth, c.levels);
                    m::write_carriers(&mut t, &carried.bytes, c.depth, c.levels);
                    what = format!("watermark copied onto {k2}");
                }
                3 => {
                    // detail replaced, carriers kept: blocks mirrored inside
                    for b in 0..dr * dc {
                        let (y, x) = ((b / dc) << c.levels, (b % dc) << c.levels);
                        let s = 1 << c.levels;
                        let block = t.slice(ndarray::s![y..y + s, x..x + s]).to_owned();
                        for a in 0..s {
                            for bb in 0..s {
                                t[[y + a, x + bb]] = block[[bb, a]];
                            }
                        }
                    }
                    what = "every block transposed".into();
                }
                4 => {
                    // a region from another picture, carriers rewritten
                    let carried = m::read_bits(&out, c.depth, c.levels);
                    let (h, w) = (1 + r.below(c.rows), 1 + r.below(c.cols));
                    let (i0, j0) = (r.below(c.rows - h + 1), r.below(c.cols - w + 1));
                    let v = r.range(c.head.min(120) as i64, 255 - c.head.min(120) as i64) as u8;
                    t.slice_mut(ndarray::s![i0..i0 + h, j0..j0 + w]).fill(v);
                    m::write_carriers(&mut t, &carried.bytes, c.depth, c.levels);
                    what = format!("{h}x{w} painted over, carriers rewritten");
                }
                _ => {
                    let s = r.below(4);
                    t = if s == 0 { crate::feat::flip(&t) } else { t.mapv(|p| 255 - p) };
                    let carried = m::read_bits(&out, c.depth, c.levels);
                    m::write_carriers(&mut t, &carried.bytes, c.depth, c.levels);
                    what = "mirrored or inverted, carriers rewritten".into();
                }
            }
            match agree(ctx, &what, &t, &c) {
                Ok(Verdict::Rejected(_)) => {
                    ctx.count("tampered pictures rejected", 1);
                    seen += 1
                }
                Ok(_) => (),
                Err(e) => return violated(e, json!({"case": cj, "round": round})),
            }
        }
        held(format!("{cj}{}", out[[0, 0]]).as_bytes(), seen > 0, cj)
    });
    // records made without the private key, or for other features
    ctx.drive("forged records", ctx.n(400, 5000), 0.5, |r, _| {
        let c = case(r, ctx.thorough);
        if c.head > 120 {
            return Outcome::Undecided("no headroom");
        }
        let img = gray(r, &c, c.head);
        let cj = c.json();
        let (rec, f) = match expected_record(&img, c.amount, c.step) {
            Some(x) => x,
            None => return Outcome::Undecided("a feature lies on a boundary"),
        };
        let q: Vec<i64> = f.iter().map(|f| m::cell(*f, c.step)).collect();
        let mut tried = 0;
        let first = r.below(14);
        for mode in (0..5).map(|k| (first + 3 * k) % 14) {
            let mut forged = rec.clone();
            let mut never = true; // must be rejected whatever the embedding did to the features
            match mode {
                0 => {
                    let sk = r.bytes(32);
                    let secret = ed25519_dalek::SecretKey::from_bytes(&sk).unwrap();
                    let public: ed25519_dalek::PublicKey = (&secret).into();
                    use ed25519_dalek::Signer;
                    forged.signature = ed25519_dalek::Keypair { secret, public }
                        .sign(&m::cells_bytes(&q))
                        .to_bytes()
                        .to_vec();
                }
                1 => {
                    let b = r.below(512);
                    forged.signature[b / 8] ^= 1 << (b % 8);
                }
                2 => forged.signature = r.bytes(64),
                3 => forged.signature = vec![0; 64],
                4 => {
                    // a genuine signature, for features two to nine steps away
                    let i = r.below(q.len());
                    let mut q2 = q.clone();
                    q2[i] += r.range(3, 9) * if r.chance(0.5) { 1 } else { -1 };
                    forged.signature = m::ref_sign(&m::cells_bytes(&q2));
                    let mut f2 = f.clone();
                    f2[i] += (q2[i] - q[i]) as f64 * c.step;
                    forged.perturbation = m::perturbation(&f2, c.step);
                    never = false;
                }
                5 => {
                    // perturbation bits altered
                    for _ in 0..1 + r.below(3) {
                        let i = r.below(forged.perturbation.len());
                        forged.perturbation[i] = !forged.perturbation[i];
                    }
                    never = false;
                }
                6 => {
                    // the signed cells stop short, or run on
                    let q2 = if r.chance(0.5) {
                        q[..q.len() - 1].to_vec()
                    } else {
                        [q.clone(), vec![0]].concat()
                    };
                    forged.signature = m::ref_sign(&m::cells_bytes(&q2));
                }
                7 => {
                    forged.signature = m::ref_sign(&m::cells_bytes(&q.iter().rev().cloned().collect::<Vec<_>>()));
                    never = false;
                }
                8 => forged.signature.truncate(*r.pick(&[0usize, 0, 1, 32, 63, 62])),
                9 => forged.signature.truncate(r.below(64)),
                10 => {
                    // the genuine signature, followed or preceded by something
                    let more = *r.pick(&[1usize, 2, 64]);
                    let s = forged.signature.clone();
                    forged.signature = if r.chance(0.5) {
                        [s, vec![0; more]].concat()
                    } else {
                        [vec![0; more], s].concat()
                    };
                }
                11 => {
                    // the genuine signature plus the group order
                    crate::util::add_group_order(&mut forged.signature[32..]);
                }
                12 => {
                    // no features are claimed, and nothing is what is signed
                    forged.perturbation.clear();
                    forged.signature = if r.chance(0.5) { vec![] } else { m::ref_sign(&[]) };
                }
                _ => {
                    // as text, or over the text
                    if r.chance(0.5) {
                        forged.signature = m::ref_sign(&[&m::cells_bytes(&q)[..], forged.text.as_bytes()].concat());
                    } else {
                        forged.text = "a".repeat(64);
                        forged.signature = vec![];
                    }
                }
            }
            let payload = m::write_record(&forged);
            let cap = (c.rows >> c.levels) * (c.cols >> c.levels) / 8;
            if !m::payload_fits(payload.len(), cap) {
                continue;
            }
            let out = match call(|| embedding::embed(img.clone(), payload, c.depth, c.levels)) {
                Ok(o) => o,
                Err(e) => return violated(format!("embedding refused data that fit: {e}"), cj),
            };
            match agree(ctx, &format!("forgery {mode}"), &out, &c) {
                Ok(Verdict::Authentic) if never => return violated(format!("forgery {mode} accepted"), cj),
                Ok(v) => {
                    if matches!(v, Verdict::Rejected(_)) {
                        ctx.count("forgeries rejected", 1);
                    }
                    if never && real_auth(&out, &c) != Ok(false) {
                        return violated(format!("forgery {mode} accepted"), cj);
                    }
                }
                Err(e) => return violated(e, json!({"case": cj, "forgery": mode})),
            }
            ctx.count(&format!("forgery {mode}"), 1);
            tried += 1;
        }
        if tried == 0 {
            return Outcome::Undecided("does not fit");
        }
        held(
            format!("{cj}{first}{:?}", f).as_bytes(),
            true,
            json!({"case": cj, "first forgery": first}),
        )
    });
    // read with other parameters
    ctx.drive("other parameters", ctx.n(120, 2000), 0.3, |r, _| {
        let c = case(r, false);
        if c.head > 120 {
            return Outcome::Undecided("no headroom");
        }
        let img = gray(r, &c, c.head);
        let out = match real_mark(&img, &c) {
            Ok(o) => o,
            Err(e) => return violated(format!("refused: {e}"), c.json()),
        };
        let mut d = c.clone();
        match r.below(3) {
            0 => d.depth *= [0.5, 2., 0.9, 1.2][r.below(4)],
            1 => d.step *= [0.25, 0.5, 2., 1.7][r.below(4)],
            _ => {
                d.amount = if d.amount > 1 && r.chance(0.5) {
                    d.amount - 1
                } else {
                    d.amount + 1
                }
            }
        }
        let cj = json!({"written": c.json(), "read": d.json()});
        match agree(ctx, "other parameters", &out, &d) {
            Ok(_) => held(format!("{cj}").as_bytes(), true, cj),
            Err(e) => violated(e, cj),
        }
    });
    ctx.require("tampered pictures rejected", 80);
    ctx.require("forgeries rejected", 60);
    ctx.require("verdict authentic", 100);
    ctx.finish(
        "One case = one watermarked channel tampered with three times while its carriers stay intact (repainted by whole depths, copied watermark, transposed blocks, painted regions with rewritten carriers), or one forged record (other key, flipped bits, signature over other cells, altered perturbation, wrong lengths) embedded by the real code; the real verdict against an independent verifier's. Distinct by parameters and content; trivial if nothing was rejected.",
        &["cases where a carrier or feature lies on a rounding boundary are left open", "the verification key is the one built in"],
    )
}

// ------------------------------------------------------------------ C16

#[cfg(feature = "h_wm")]
pub fn c16(ctx: &Ctx) -> Value {
    ctx.drive("unmarked pictures", ctx.n(600, 7000), 0.3, |r, _| {
        let cap = if r.chance(0.7) {
            crate::embed::any_capacity(r)
        } else {
            9 + r.below(200)
        };
        let mut s = crate::embed::shape_for(r, cap.max(16));
        if cap < 16 {
            s = crate::embed::Shape {
                levels: 1,
                rows: 2,
                cols: 16 * cap,
                capacity: cap,
            };
        }
        let side = s.rows.max(s.cols);
        let amount = if side < 100 { 1 + r.below(11) } else { 1 + r.below(2) };
        if side * side * amount > 1_000_000 {
            return Outcome::Undecided("too large to be worth it");
        }
        let k = kind(r);
        let (lo, hi) = if r.chance(0.7) {
            (0, 255)
        } else {
            (r.below(100) as u8, 155 + r.below(100) as u8)
        };
        let img = image_in(r, k, s.rows, s.cols, lo, hi);
        let c = Case {
            rows: s.rows,
            cols: s.cols,
            levels: s.levels,
            depth: match r.below(3) {
                0 => r.float(0.1, 10.),
                1 => r.float(1., 600.),
                _ => [1., 8., 30., 100., 500.][r.below(5)],
            },
            step: [1., 0.01, 100., 0.5][r.below(4)],
            amount,
            kind: k,
            head: 0,
        };
        let cj = c.json();
        match agree(ctx, "unmarked", &img, &c) {
            // no signature over this picture exists, whatever undecided carriers may read as
            Ok(Verdict::Ambiguous(_)) if real_auth(&img, &c) == Ok(true) => {
                violated("a picture that never was marked is accepted", cj)
            }
            Ok(_) => held(format!("{cj}{}", img[[0, 0]]).as_bytes(), true, cj),
            Err(e) => violated(e, cj),
        }
    });
    ctx.drive("malformed records", ctx.n(500, 9000), 0.4, |r, _| {
        let mut c = case(r, false);
        c.depth = (1u64 << c.levels) as f64 * [4., 6., 10.][r.below(3)];
        c.head = headroom(c.depth, c.levels);
        let img = gray(r, &c, c.head);
        let cap = (c.rows >> c.levels) * (c.cols >> c.levels) / 8;
        let max = m::max_payload(cap);
        let (np, ns, nt) = (r.below(256), r.below(256), r.below(256));
        let mode = r.below(10);
        let good = m::Record {
            perturbation: vec![true; 3 * c.amount],
            signature: r.bytes(64),
            text: "x".into(),
        };
        let mut p: Vec<u8> = match mode {
            0 => vec![],
            1 => r.bytes(1),
            2 => r.bytes(2),
            3 => vec![0, 0, 0],
            4 => {
                let n = r.below(max + 1);
                r.payload(n)
            }
            5 => {
                // lengths that point beyond the end
                let mut p = vec![np as u8, ns as u8, nt as u8];
                let n = r.below(60);
                p.extend(r.bytes(n));
                p
            }
            6 => {
                // text that is not text
                let mut p = m::write_record(&good);
                let n = 1 + r.below(12);
                p[2] = n as u8;
                p.pop();
                p.extend((0..n).map(|_| 0x80 | r.next() as u8));
                p
            }
            7 => {
                // another number of perturbation bits
                let n = [0, 1, 2, 3 * c.amount - 1, 3 * c.amount + 1, 3 * c.amount + 3, 255][r.below(7)];
                m::write_record(&m::Record {
                    perturbation: vec![r.chance(0.5); n],
                    ..good
                })
            }
            8 => {
                let n = [0, 1, 32, 63, 65, 66][r.below(6)];
                m::write_record(&m::Record {
                    signature: r.bytes(n),
                    ..good
                })
            }
            _ => {
                let mut p = m::write_record(&good);
                let n = r.below(p.len() + 1);
                p.truncate(n);
                p
            }
        };
        p.truncate(max);
        let cj = json!({"case": c.json(), "mode": mode, "record": p.len()});
        let out = match call(|| embedding::embed(img, p.clone(), c.depth, c.levels)) {
            Ok(o) => o,
            Err(e) => return violated(format!("embedding refused data that fit: {e}"), cj),
        };
        match agree(ctx, &format!("malformed record {mode}"), &out, &c) {
            Ok(_) => {
                ctx.count(&format!("malformed record {mode}"), 1);
                held(&[format!("{cj}").as_bytes(), &p].concat(), true, cj)
            }
            Err(e) => violated(e, json!({"case": cj, "bytes": p})),
        }
    });
    ctx.drive("malformed framing", ctx.n(300, 5000), 0.3, |r, _| {
        let mut c = case(r, false);
        c.depth = (1u64 << c.levels) as f64 * 4.;
        c.head = headroom(c.depth, c.levels);
        let mut img = gray(r, &c, c.head);
        let cap = (c.rows >> c.levels) * (c.cols >> c.levels) / 8;
        let mode = r.below(5);
        let bytes: Vec<u8> = match mode {
            0 => r.payload(cap),
            1 => {
                // outer header of any value over anything
                let n = m::max_payload(cap) + 2;
                let l = *r.pick(&[0u16, 1, 2, 3, 255, 256, 0x7fff, 0xffff, n as u16, n as u16 + 1]);
                let mut msg = vec![(l >> 8) as u8, l as u8];
                msg.extend(r.payload(n.min(120)));
                raw_words(&msg, cap)
            }
            2 => {
                // inner header of any value
                let n = r.below(m::max_payload(cap) + 1);
                let mut w = m::wrap_payload(&r.payload(n));
                let l = *r.pick(&[0u16, 1, n as u16 + 1, n as u16 + 2, 0x00ff, 0xff00, 0xffff]);
                w[0] = l as u8;
                w[1] = (l >> 8) as u8;
                m::encode(&w, cap)
            }
            3 => m::encode(&[], cap),
            _ => {
                let n = r.below(2);
                let b = r.bytes(n);
                m::encode(&b, cap)
            }
        };
        let bytes = bytes[..bytes.len().min(cap)].to_vec();
        m::write_carriers(&mut img, &bytes, c.depth, c.levels);
        let cj = json!({"case": c.json(), "mode": mode});
        match agree(ctx, &format!("malformed framing {mode}"), &img, &c) {
            Ok(_) => {
                ctx.count(&format!("malformed framing {mode}"), 1);
                held(&[format!("{cj}").as_bytes(), &bytes].concat(), true, cj)
            }
            Err(e) => violated(e, cj),
        }
    });
    ctx.drive("damaged pictures", ctx.n(250, 4000), 0.3, |r, _| {
        let mut c = case(r, false);
        if c.head > 120 {
            return Outcome::Undecided("no headroom");
        }
        let img = gray(r, &c, c.head);
        let mut out = match real_mark(&img, &c) {
            Ok(o) => o,
            Err(e) => return violated(format!("refused: {e}"), c.json()),
        };
        let mode = r.below(8);
        match mode {
            0 => {
                let a = r.range(1, 255);
                out.mapv_inplace(|v| (v as i64 + r.range(-a, a)).clamp(0, 255) as u8)
            }
            1 => out.mapv_inplace(|v| 255 - v),
            2 => out.fill(r.next() as u8),
            3 => out = crate::feat::rot90(&out),
            4 => out = crate::feat::flip(&out),
            5 => {
                let (h, w) = (1 + r.below(c.rows), 1 + r.below(c.cols));
                out.slice_mut(ndarray::s![0..h, 0..w]).fill(0);
            }
            6 => {
                // cut to fewer carriers
                let rows = ((c.rows >> c.levels) - 1 - r.below(8)) << c.levels;
                out = out.slice(ndarray::s![0..rows, ..]).to_owned();
            }
            _ => {
                for _ in 0..r.below(60) {
                    let k = r.below((c.rows >> c.levels) * (c.cols >> c.levels));
                    let v = r.range(-120, 120) as i32;
                    shift_block(&mut out, k, c.levels, v);
                }
            }
        }
        c.rows = out.dim().0;
        c.cols = out.dim().1;
        let cj = json!({"case": c.json(), "damage": mode});
        match agree(ctx, &format!("damage {mode}"), &out, &c) {
            Ok(_) => {
                ctx.count(&format!("damage {mode}"), 1);
                held(format!("{cj}{}{}", out[[0, 0]], img[[1, 1]]).as_bytes(), true, cj)
            }
            Err(e) => violated(e, cj),
        }
    });
    ctx.require("unmarked pictures.held", 100);
    ctx.require("malformed records.held", 150);
    ctx.require("malformed framing.held", 80);
    ctx.require("damaged pictures.held", 60);
    ctx.finish(
        "One case = one picture handed to the real authentication: unmarked pictures of every domain class, correctly carried but malformed records (truncated, lengths beyond the end, text that is not UTF-8, other perturbation or signature lengths), damaged framing (arbitrary outer and inner lengths), and damaged, cut, turned, blanked watermarked pictures; it must return, and agree with an independent verifier. Distinct by parameters and content.",
        &["sides are multiples of 2^levels and hold at least nine bytes; other sizes may be refused"],
    )
}

/// Code words for a message that already has its length header.
fn raw_words(msg: &[u8], cap: usize) -> Vec<u8> {
    match m::code_for(cap) {
        None => msg.to_vec(),
        Some(_) => {
            // encode() adds a header of its own: give it the rest and replace the first word
            let code = m::code_for(cap).unwrap();
            let (k, n) = (code.k() / 8, code.n() / 8);
            let mut out = vec![];
            for w in msg.chunks(k) {
                let mut word = w.to_vec();
                word.resize(k, 0);
                let mut cw = vec![0u8; n];
                code.copy_encode(&word, &mut cw);
                out.extend(cw);
            }
            out
        }
    }
}
