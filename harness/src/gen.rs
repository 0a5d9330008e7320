//! Workload images.
use crate::rng::Rng;
use image::GrayImage;
use ndarray::Array2;

pub const KINDS: [&str; 9] = [
    "noise", "plasma", "gradient", "checker", "constant", "photo", "shapes", "stripes", "blocks",
];

fn photos() -> &'static Vec<GrayImage> {
    static P: std::sync::OnceLock<Vec<GrayImage>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let root = std::env::var("SIAVP_CORPUS").unwrap_or("/verif/corpus".into());
        let mut v = vec![];
        let mut names: Vec<_> = std::fs::read_dir(&root)
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
            .unwrap_or_default();
        names.sort();
        for p in names {
            if let Ok(i) = image::open(&p) {
                v.push(i.to_luma8());
            }
        }
        v
    })
}

/// rows x cols raw image of the given kind, full range 0..=255, as f64 in 0..1
fn raw(r: &mut Rng, kind: &str, rows: usize, cols: usize) -> Array2<f64> {
    match kind {
        "noise" => Array2::from_shape_fn((rows, cols), |_| r.unit()),
        "plasma" => {
            let waves: Vec<_> = (0..8)
                .map(|_| {
                    (
                        r.float(-6., 6.) / cols as f64,
                        r.float(-6., 6.) / rows as f64,
                        r.float(0., 6.28),
                        r.float(0.2, 1.),
                    )
                })
                .collect();
            let total: f64 = waves.iter().map(|w| w.3).sum();
            let n = r.float(0., 0.1);
            Array2::from_shape_fn((rows, cols), |(i, j)| {
                let s: f64 = waves
                    .iter()
                    .map(|w| w.3 * (6.2832 * (w.0 * j as f64 + w.1 * i as f64) + w.2).cos())
                    .sum();
                (0.5 + 0.5 * s / total + n * (r.unit() - 0.5)).clamp(0., 1.)
            })
        }
        "gradient" => {
            let (a, b) = (r.float(-1., 1.), r.float(-1., 1.));
            let t = a.abs() + b.abs() + 1e-9;
            Array2::from_shape_fn((rows, cols), |(i, j)| {
                let x = (a * (i as f64 / rows as f64 - 0.5) + b * (j as f64 / cols as f64 - 0.5)) / t;
                (0.5 + x).clamp(0., 1.)
            })
        }
        "checker" => {
            let s = 1 + r.below(24);
            let (lo, hi) = (r.unit(), r.unit());
            Array2::from_shape_fn((rows, cols), |(i, j)| if (i / s + j / s) % 2 == 0 { lo } else { hi })
        }
        "constant" => {
            let v = r.unit();
            Array2::from_elem((rows, cols), v)
        }
        "photo" => {
            let ps = photos();
            if ps.is_empty() {
                return raw(r, "plasma", rows, cols);
            }
            let k = r.below(ps.len());
            let p = &ps[k];
            let (w, h) = (p.width() as usize, p.height() as usize);
            // sampled crop, nearest neighbour, random placement and zoom
            let z = r.float(0.5, 2.0);
            let (ox, oy) = (r.below(w), r.below(h));
            let (fx, fy) = (r.chance(0.5), r.chance(0.5));
            Array2::from_shape_fn((rows, cols), |(i, j)| {
                let mut y = ((i as f64 * z) as usize + oy) % (2 * h);
                let mut x = ((j as f64 * z) as usize + ox) % (2 * w);
                if y >= h {
                    y = 2 * h - 1 - y;
                }
                if x >= w {
                    x = 2 * w - 1 - x;
                }
                if fx {
                    x = w - 1 - x;
                }
                if fy {
                    y = h - 1 - y;
                }
                p.get_pixel(x as u32, y as u32)[0] as f64 / 255.
            })
        }
        "shapes" => {
            let bg = r.unit();
            let mut a = Array2::from_elem((rows, cols), bg);
            for _ in 0..6 {
                let (y, x) = (r.below(rows) as f64, r.below(cols) as f64);
                let q = r.float(4., rows.max(8) as f64 / 3.);
                let v = r.unit();
                let round = r.chance(0.5);
                for ((i, j), e) in a.indexed_iter_mut() {
                    let (dy, dx) = ((i as f64 - y).abs(), (j as f64 - x).abs());
                    if (round && dy * dy + dx * dx < q * q) || (!round && dy < q && dx < q) {
                        *e = v;
                    }
                }
            }
            a
        }
        "stripes" => {
            let p = 1 + r.below(16);
            let vert = r.chance(0.5);
            Array2::from_shape_fn((rows, cols), |(i, j)| {
                let k = if vert { j } else { i };
                ((k / p) % 5) as f64 / 4.
            })
        }
        _ => {
            // blocks: independent level per 8x8 tile
            let (tr, tc) = (rows / 8 + 1, cols / 8 + 1);
            let t = Array2::from_shape_fn((tr, tc), |_| r.unit());
            Array2::from_shape_fn((rows, cols), |(i, j)| t[[i / 8, j / 8]])
        }
    }
}

/// An image with every pixel in lo..=hi.
pub fn image_in(r: &mut Rng, kind: &str, rows: usize, cols: usize, lo: u8, hi: u8) -> Array2<u8> {
    let span = hi as f64 - lo as f64;
    raw(r, kind, rows, cols).mapv(|v| (lo as f64 + (v * span).round()).clamp(lo as f64, hi as f64) as u8)
}

pub fn kind(r: &mut Rng) -> &'static str {
    KINDS[r.below(KINDS.len())]
}

/// rows x cols array -> GrayImage (width = cols, height = rows)
pub fn to_gray(a: &Array2<u8>) -> GrayImage {
    let (rows, cols) = a.dim();
    GrayImage::from_raw(cols as u32, rows as u32, a.iter().cloned().collect()).unwrap()
}

pub fn from_gray(g: &GrayImage) -> Array2<u8> {
    Array2::from_shape_vec((g.height() as usize, g.width() as usize), g.as_raw().clone()).unwrap()
}

/// The same matrix in another memory layout: row or column major, reversed axes, every other element of a larger one.
pub fn layout<T: Clone + Default>(r: &mut Rng, a: &Array2<T>) -> (Array2<T>, &'static str) {
    use ndarray::{s, Axis, ShapeBuilder};
    let (rows, cols) = a.dim();
    match r.below(8) {
        0 | 1 | 2 => (Array2::from_shape_fn((rows, cols), |p| a[p].clone()), "rows"),
        3 | 4 => {
            let mut b = Array2::from_elem((rows, cols).f(), T::default());
            b.assign(a);
            (b, "columns")
        }
        5 => {
            let (fr, fc) = (r.chance(0.6), r.chance(0.6));
            let mut b = Array2::from_elem((rows, cols), T::default());
            if fr {
                b.invert_axis(Axis(0));
            }
            if fc {
                b.invert_axis(Axis(1));
            }
            b.assign(a);
            (b, "reversed")
        }
        6 => {
            let (sr, sc) = (1 + r.below(3) as isize, 1 + r.below(3) as isize);
            let big = Array2::from_elem((rows * sr as usize, cols * sc as usize), T::default());
            let mut b = big.slice_move(s![..;sr, ..;sc]);
            b.assign(a);
            (b, "stepped")
        }
        _ => {
            // a window of a larger matrix, turned
            let big = Array2::from_elem((cols + 3, rows + 2), T::default());
            let mut b = big.slice_move(s![2..cols + 2, 1..rows + 1]).reversed_axes();
            b.assign(a);
            (b, "window")
        }
    }
}
