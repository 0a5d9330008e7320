//! C19: the web binding, compiled natively against stand-ins for the page, compared with the library.
#[path = "../../harness/src/fw.rs"]
#[allow(dead_code)]
mod fw;
#[path = "../../harness/src/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../../harness/src/rng.rs"]
#[allow(dead_code)]
mod rng;

use fw::*;
use gen::*;
use image::{DynamicImage, GenericImageView, ImageBuffer, ImageFormat, ImageOutputFormat};
use js_sys::Uint8Array;
use rng::Rng;
use serde_json::{json, Value};
use std::io::Cursor;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

/// A picture as a page might load it: width, height, pixel type, file bytes.
fn file(r: &mut Rng, w: usize, h: usize, format: usize) -> (Vec<u8>, &'static str, String) {
    let planes: Vec<_> = (0..4)
        .map(|_| {
            let k = kind(r);
            let (lo, hi) = if r.chance(0.6) { (0, 255) } else { (40, 210) };
            image_in(r, k, h, w, lo, hi)
        })
        .collect();
    // transparency: any, wholly or partly transparent (such pixels have colours too), a single such pixel, or opaque
    let alpha = r.below(5);
    let spot = (r.below(w) as u32, r.below(h) as u32);
    let at = |k: usize, x: u32, y: u32| match (k, alpha) {
        (3, 1) => 0,
        (3, 2) => (planes[3][[y as usize, x as usize]] as i32 - 128).clamp(0, 1) as u8 * 255,
        (3, 3) => 255 - 255 * ((x, y) == spot) as u8,
        (3, 4) => 255 - ((x, y) == spot) as u8,
        _ => planes[k][[y as usize, x as usize]],
    };
    let (w, h) = (w as u32, h as u32);
    let types: &[usize] = match format {
        0 => &[0, 1, 2, 3, 4, 5], // png
        1 => &[0, 2],             // jpeg
        2 => &[3],                // gif
        3 => &[0, 2, 3, 4],       // tiff
        _ => &[0, 2, 3],          // bmp
    };
    let t = types[r.below(types.len())];
    let d = match t {
        0 => DynamicImage::ImageLuma8(ImageBuffer::from_fn(w, h, |x, y| image::Luma([at(0, x, y)]))),
        1 => DynamicImage::ImageLumaA8(ImageBuffer::from_fn(w, h, |x, y| image::LumaA([at(0, x, y), at(3, x, y)]))),
        2 => DynamicImage::ImageRgb8(ImageBuffer::from_fn(w, h, |x, y| {
            image::Rgb([at(0, x, y), at(1, x, y), at(2, x, y)])
        })),
        3 => DynamicImage::ImageRgba8(ImageBuffer::from_fn(w, h, |x, y| {
            image::Rgba([
                at(0, x, y),
                at(1, x, y),
                at(2, x, y),
                if format == 2 { 255 } else { at(3, x, y) },
            ])
        })),
        4 => DynamicImage::ImageLuma16(ImageBuffer::from_fn(w, h, |x, y| {
            image::Luma([at(0, x, y) as u16 * 257 ^ at(1, x, y) as u16])
        })),
        _ => DynamicImage::ImageRgba16(ImageBuffer::from_fn(w, h, |x, y| {
            image::Rgba([
                at(0, x, y) as u16 * 257,
                at(1, x, y) as u16 * 256 + 3,
                at(2, x, y) as u16 * 257,
                at(3, x, y) as u16 * 257,
            ])
        })),
    };
    let mut out = Cursor::new(vec![]);
    let (f, name) = match format {
        0 => (ImageOutputFormat::Png, "Png"),
        1 => (ImageOutputFormat::Jpeg(60 + r.below(40) as u8), "Jpeg"),
        2 => (ImageOutputFormat::Gif, "Gif"),
        3 => (ImageOutputFormat::Tiff, "Tiff"),
        _ => (ImageOutputFormat::Bmp, "Bmp"),
    };
    d.write_to(&mut out, f).unwrap();
    (out.into_inner(), name, format!("{:?}", d.color()))
}

fn model(m: &web_model::Model) -> Value {
    json!({"width": m.0, "height": m.1, "bytes": m.2.len()})
}
mod web_model {
    pub type Model = (u32, u32, Vec<u8>);
}

fn first_difference(a: &[u8], b: &[u8], w: u32) -> String {
    if a.len() != b.len() {
        return format!("{} bytes instead of {}", b.len(), a.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(k) => format!(
            "pixel ({},{}) component {}: {} instead of {}",
            (k / 4) as u32 % w,
            (k / 4) as u32 / w,
            k % 4,
            b[k],
            a[k]
        ),
        None => "equal".into(),
    }
}

fn c19(ctx: &Ctx) -> Value {
    ctx.drive("pictures", ctx.n(60, 600), 0.8, |r, k| {
        let format = k as usize % 5;
        let (a, b) = *r.pick(&[(27usize, 27usize), (28, 28), (24, 32), (32, 25), (27, 30), (40, 20), (20, 44)]);
        let (w, h) = (a * 8, b * 8);
        let (bytes, name, color) = file(r, w, h, format);
        let depth = *r.pick(&[500., 100., 30., 250., 37.5]);
        let step = *r.pick(&[1., 0.5, 2., 10.]);
        let cj = json!({"format": name, "color": color, "width": w, "height": h, "depth": depth, "step": step});
        // what the library makes of the same file
        let source = match image::load_from_memory(&bytes) {
            Ok(d) => d,
            Err(_) => return Outcome::Undecided("file not decodable"),
        };
        let want_source = source.clone().into_rgba8().into_raw();
        let want = match call(|| watermarking::watermark(source.clone(), depth, step, 11)) {
            Ok(d) => d,
            Err(_) => return Outcome::Undecided("library refuses"),
        };
        let (ww, wh) = want.dimensions();
        let want = want.into_rgba8().into_raw();
        let given = Uint8Array::from(bytes.as_slice());
        let got = match call(|| web::get_watermarking_process(given.clone(), depth, step)) {
            Ok(p) => p,
            Err(e) => return violated(format!("the binding fails on a picture the library marks: {e}"), cj),
        };
        if given.to_vec() != bytes {
            return violated("the page's file bytes were changed", cj);
        }
        let s = got.get_source();
        let m = got.get_watermarked();
        let (s, m) = (
            (s.get_width(), s.get_height(), s.get_data().to_vec()),
            (m.get_width(), m.get_height(), m.get_data().to_vec()),
        );
        if got.get_source_format() != name {
            return violated(format!("format {:?} instead of {name}", got.get_source_format()), cj);
        }
        if (s.0, s.1) != (w as u32, h as u32) {
            return violated(format!("source dimensions {}", model(&s)), cj);
        }
        if s.2 != want_source {
            return violated(format!("source pixels: {}", first_difference(&want_source, &s.2, s.0)), cj);
        }
        if (m.0, m.1) != (ww, wh) {
            return violated(format!("watermarked dimensions {}", model(&m)), cj);
        }
        if m.2 != want {
            return violated(format!("watermarked pixels: {}", first_difference(&want, &m.2, m.0)), cj);
        }
        ctx.count("pixels compared", (s.2.len() + m.2.len()) as u64 / 4);
        ctx.count(&format!("format {name}"), 1);
        if m.2 != s.2 {
            ctx.count("pictures changed by the watermark", 1);
        }
        let changed = m.2 != s.2;
        // asking again gives the same, also after another picture was processed
        let again = (
            got.get_source().get_data().to_vec(),
            got.get_watermarked().get_data().to_vec(),
        );
        if again.0 != s.2 || again.1 != m.2 {
            return violated("asking for the pictures again gives other pixels", cj);
        }
        if k % 4 == 0 {
            let second = call(|| web::get_watermarking_process(given.clone(), depth, step));
            match second {
                Ok(p) if p.get_watermarked().get_data().to_vec() == m.2 && got.get_watermarked().get_data().to_vec() == m.2 => {
                    ctx.count("repeated calls", 1)
                }
                _ => return violated("a second call on the same file gives another result", cj),
            }
        }
        // what the page sets is what it gets, one field at a time
        let mut p = got;
        let mut a = p.get_source();
        let (nw, nh, nd, nf) = (
            r.below(5000) as u32,
            r.below(5000) as u32,
            r.below(40),
            format!("F{}", r.below(100)),
        );
        let nd = r.bytes(nd);
        let mut expect = (s.0, s.1, s.2.clone());
        for f in 0..3 {
            match f {
                0 => {
                    a.set_width(nw);
                    expect.0 = nw
                }
                1 => {
                    a.set_height(nh);
                    expect.1 = nh
                }
                _ => {
                    a.set_data(Uint8Array::from(nd.as_slice()));
                    expect.2 = nd.clone()
                }
            }
            if (a.get_width(), a.get_height(), a.get_data().to_vec()) != expect {
                return violated("a field set on a picture is not what is got back", cj);
            }
        }
        macro_rules! all {
            ($p:expr) => {{
                let p = &$p;
                let (s, m) = (p.get_source(), p.get_watermarked());
                (
                    p.get_source_format(),
                    (s.get_width(), s.get_height(), s.get_data().to_vec()),
                    (m.get_width(), m.get_height(), m.get_data().to_vec()),
                )
            }};
        }
        let mut expect_all = (name.to_string(), s, m);
        let first = r.below(3);
        let order = [first, (first + 1) % 3, (first + 2) % 3];
        for f in order {
            match f {
                0 => {
                    p.set_source(a.clone());
                    expect_all.1 = expect.clone()
                }
                1 => {
                    p.set_watermarked(a.clone());
                    expect_all.2 = expect.clone()
                }
                _ => {
                    p.set_source_format(nf.clone());
                    expect_all.0 = nf.clone()
                }
            }
            if all!(p) != expect_all {
                return violated("a field set on a process is not what is got back, or changes another", cj);
            }
        }
        ctx.count("fields set and got", 6);
        held(&bytes, changed, cj)
    });
    // what the library refuses and what is no picture must not come back as a result
    ctx.drive("refusals", ctx.n(60, 600), 0.2, |r, k| {
        let format = r.below(5);
        let mode = k % 4;
        let (bytes, what): (Vec<u8>, &str) = match mode {
            0 => (file(r, 64, 64, format).0, "too small"),
            1 => {
                let n = r.below(2000);
                (r.bytes(n), "random bytes")
            }
            2 => {
                let mut b = file(r, 216, 216, 0).0;
                let n = 8 + r.below(b.len() / 2);
                b.truncate(n);
                (b, "truncated")
            }
            _ => (vec![], "empty"),
        };
        let library = image::load_from_memory(&bytes)
            .ok()
            .map(|d| call(|| watermarking::watermark(d, 100., 1., 11)).is_ok());
        let cj = json!({"bytes": bytes.len(), "what": what});
        let got = call(|| web::get_watermarking_process(Uint8Array::from(bytes.as_slice()), 100., 1.));
        match (library, got.is_ok()) {
            (Some(true), false) => violated("the binding refuses what the library marks", cj),
            (None | Some(false), true) => violated(format!("a result for a file the library cannot mark ({what})"), cj),
            (l, _) => {
                ctx.count(&format!("{what}: {}", if l == Some(true) { "marked" } else { "refused" }), 1);
                held(&[&bytes[..], &[mode as u8]].concat(), true, cj)
            }
        }
    });
    ctx.require("pictures.held", 10);
    ctx.require("pictures changed by the watermark", 5);
    ctx.require("refusals.held", 30);
    ctx.finish(
        "One case = one picture file (png, jpeg, gif, tiff, bmp; grey, colour, 16-bit, transparency; several shapes) handed to the binding as the page hands it, all it returns compared with the decoded file and the library's own result; or a file the library cannot mark. Distinct by file bytes.",
        &["the stand-ins for wasm-bindgen and js-sys have the page's semantics (reference arrays, modulo conversion of numbers)", "decoding is the image crate's"],
    )
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let seed = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget = arg("--budget").and_then(|s| s.parse().ok()).unwrap_or(60.);
    let only = match (arg("--section"), arg("--case").and_then(|c| c.parse().ok())) {
        (Some(s), Some(c)) => Some((s, c)),
        _ => None,
    };
    let ctx = Ctx::new(&id, thorough, seed, budget, only, arg("--crumbs").unwrap_or_default());
    install_panic_hook();
    let _ = ImageFormat::Png;
    let text = serde_json::to_string_pretty(&c19(&ctx)).unwrap();
    match arg("--out") {
        Some(f) => std::fs::write(f, text).unwrap(),
        None => eprintln!("{text}"),
    }
}
