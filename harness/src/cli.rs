//! C18: the command-line program, run as a separate process in a scratch folder (as an unprivileged user where possible).
use crate::fw::*;
use crate::gen::*;
use crate::mark::{build, check_channel, Case};
use crate::rng::Rng;
use image::{DynamicImage, GenericImageView, ImageFormat};
use ndarray::Array2;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
impl Scratch {
    fn new(k: u64) -> Self {
        let p = std::env::temp_dir().join(format!("siavp-cli-{}-{k}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(p.join("work")).unwrap();
        for d in ["in/deep", "home", "tmp"] {
            std::fs::create_dir_all(p.join(d)).unwrap();
        }
        std::fs::copy(std::env::var("SIAVP_CLI").expect("SIAVP_CLI"), p.join("cli")).unwrap();
        Scratch(p)
    }
    /// Everything in the folder: path -> content (None for folders).
    fn files(&self) -> BTreeMap<String, Option<Vec<u8>>> {
        fn walk(d: &Path, root: &Path, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
            for e in std::fs::read_dir(d).unwrap().flatten() {
                let p = e.path();
                let n = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
                if let Ok(to) = std::fs::read_link(&p) {
                    // never followed: it may lead to a device without an end
                    out.insert(n, Some(format!("link to {}", to.display()).into_bytes()));
                } else if p.is_dir() {
                    out.insert(n, None);
                    walk(&p, root, out);
                } else {
                    out.insert(n, Some(std::fs::read(&p).unwrap_or_default()));
                }
            }
        }
        let mut m = BTreeMap::new();
        walk(&self.0, &self.0, &mut m);
        m
    }
    fn open_up(&self) {
        let _ = Command::new("chown")
            .arg("-h")
            .arg("-R")
            .arg("65534:65534")
            .arg(&self.0)
            .stderr(Stdio::null())
            .status();
    }
    fn run(&self, args: &[String]) -> Result<i32, &'static str> {
        self.run_and_listen(args).map(|x| x.0)
    }
    /// Exit status and what the program printed.
    fn run_and_listen(&self, args: &[String]) -> Result<(i32, String), &'static str> {
        let said = format!("{}.said", self.0.display());
        let code = self.run_to(args, &said);
        let text = std::fs::read(&said)
            .map(|b| String::from_utf8_lossy(&b[..b.len().min(1 << 20)]).into_owned())
            .unwrap_or_default();
        let _ = std::fs::remove_file(&said);
        code.map(|c| (c, text))
    }
    fn run_to(&self, args: &[String], said: &str) -> Result<i32, &'static str> {
        let listen = |more: bool| {
            std::fs::OpenOptions::new()
                .create(true)
                .append(true)
                .truncate(false)
                .open(said)
                .map(|f| {
                    let _ = more || f.set_len(0).is_ok();
                    Stdio::from(f)
                })
                .unwrap_or_else(|_| Stdio::null())
        };
        let go = |drop: bool| {
            let mut c = Command::new(self.0.join("cli"));
            c.args(args)
                .current_dir(self.0.join("work"))
                .env("HOME", self.0.join("home"))
                .env("TMPDIR", self.0.join("tmp"))
                .stdin(Stdio::null())
                .stdout(listen(false))
                .stderr(listen(true));
            if drop {
                c.uid(65534).gid(65534);
            }
            c.spawn()
        };
        // a binary copied a moment ago can be "busy" while another thread forks
        let mut child = None;
        for i in 0..50 {
            match go(true).or_else(|e| {
                if e.kind() == std::io::ErrorKind::PermissionDenied {
                    go(false)
                } else {
                    Err(e)
                }
            }) {
                Ok(c) => {
                    child = Some(c);
                    break;
                }
                Err(_) => std::thread::sleep(std::time::Duration::from_millis(20 + i)),
            }
        }
        let mut child = child.ok_or("could not start the program")?;
        let t = std::time::Instant::now();
        loop {
            match child.try_wait() {
                Ok(Some(s)) => return Ok(s.code().unwrap_or(-1)),
                Ok(None) if t.elapsed().as_secs() > 120 => {
                    let _ = child.kill();
                    let _ = child.wait();
                    return Err("the program was stopped after 120 s");
                }
                _ => std::thread::sleep(std::time::Duration::from_millis(5)),
            }
        }
    }
}

fn picture(r: &mut Rng, colour: bool) -> (Vec<Array2<u8>>, usize) {
    let (h, w) = [(216, 216), (216, 224), (208, 232), (240, 200), (216, 216)][r.below(5)];
    let p = (0..4)
        .map(|_| {
            let k = kind(r);
            let (lo, hi) = if r.chance(0.5) { (0, 255) } else { (20, 235) };
            image_in(r, k, h, w, lo, hi)
        })
        .collect();
    (p, if colour { 2 } else { 0 })
}

fn planes(d: &DynamicImage) -> Vec<Array2<u8>> {
    let (w, h) = d.dimensions();
    let p = d.to_rgba8();
    (0..4)
        .map(|k| Array2::from_shape_fn((h as usize, w as usize), |(i, j)| p.get_pixel(j as u32, i as u32)[k]))
        .collect()
}

/// (extension, pixel type choices, lossless)
const FORMATS: [(&str, &[usize], bool); 9] = [
    ("png", &[0, 1, 2, 3, 4, 6, 7], true),
    ("bmp", &[0, 2], true),
    ("tiff", &[0, 2], true),
    ("tif", &[0], true),
    ("pgm", &[0], true),
    ("ppm", &[2], true),
    ("PNG", &[0, 2], true),
    ("jpg", &[0], false),
    ("gif", &[3], false),
];

pub fn c18(ctx: &Ctx) -> Value {
    let names = [
        "a",
        "two words",
        "dotted.name.v2",
        "ünïcode-水",
        "UPPER",
        "trailing-",
        "_",
        "x-marked",
        "0",
    ];
    let suffixes = ["marked", "w m", "v1.0", "x", "-", "ß", "copy-2"];
    ctx.drive("marking files", ctx.n(27, 400), 0.75, |r, k| {
        let s = Scratch::new(k);
        let count = 1 + r.below(3);
        let mut inputs: Vec<(String, String, String, bool)> = vec![]; // (argument, stem, ext, lossless)
        let mut used = std::collections::HashSet::new();
        for i in 0..count {
            let (ext, types, lossless) = FORMATS[if i == 0 {
                k as usize % FORMATS.len()
            } else {
                r.below(FORMATS.len())
            }];
            let t = *r.pick(types);
            let (p, _) = picture(r, false);
            let d = build(t, &p, r);
            let name = *r.pick(&names);
            if !used.insert(format!("{name}.{}", ext.to_lowercase())) {
                continue;
            }
            let dir = *r.pick(&["in", "in/deep", "work"]);
            let path = s.0.join(dir).join(format!("{name}.{ext}"));
            let d = if ext == "jpg" || ext == "bmp" || ext.starts_with("tif") || ext == "pgm" || ext == "ppm" {
                // types these encoders take
                if t == 0 {
                    DynamicImage::ImageLuma8(d.to_luma8())
                } else {
                    DynamicImage::ImageRgb8(d.to_rgb8())
                }
            } else {
                d
            };
            let f = ImageFormat::from_path(&path).unwrap();
            if d.save_with_format(&path, f).is_err() {
                return Outcome::Undecided("input could not be written");
            }
            if r.chance(0.25) {
                // a link to the picture, which lies elsewhere under another name
                let kept = s.0.join(format!("in/deep/kept {i}.{}", ["bin", "png", "jpg"][r.below(3)]));
                std::fs::rename(&path, &kept).unwrap();
                std::os::unix::fs::symlink(&kept, &path).unwrap();
                ctx.count("inputs that are links", 1);
            }
            let argument = match (dir, r.below(3)) {
                ("work", 0) => format!("{name}.{ext}"),
                ("work", _) => format!("./{name}.{ext}"),
                (d, 0) => s.0.join(d).join(format!("{name}.{ext}")).to_string_lossy().to_string(),
                (d, _) => format!("../{d}/{name}.{ext}"),
            };
            if argument.starts_with('-') {
                continue;
            }
            inputs.push((argument, name.to_string(), ext.to_string(), lossless));
        }
        let suffix = r.pick(&suffixes).to_string();
        let absolute = s.0.join("far off/ünder").to_string_lossy().to_string();
        let out: Option<&str> = match r.below(9) {
            0 => None,
            1 | 2 => {
                std::fs::create_dir_all(s.0.join("out")).unwrap();
                Some(*r.pick(&["../out", "../out/", "./../work/../out"]))
            }
            3 => Some("../new/nested/out"),
            4 => Some("here"),
            5 => Some("here and/there/"),
            6 => Some(absolute.as_str()),
            7 => {
                std::fs::create_dir_all(s.0.join("real folder")).unwrap();
                std::os::unix::fs::symlink("real folder", s.0.join("linked")).unwrap();
                Some("../linked")
            }
            _ => Some("."),
        };
        // something already there under the same name is replaced as a whole
        let there = match out {
            Some(o) if o.trim_end_matches('/').ends_with("../out") => Some("out"),
            Some(".") | None => Some("work"),
            _ => None,
        };
        let mut replaced = None;
        if let Some(folder) = there.filter(|_| r.chance(0.7)) {
            let name = format!("{folder}/{}-{}.{}", inputs[0].1, suffix, inputs[0].2);
            if !s.0.join(&name).exists() {
                let n = [3_000_000, 1, 0, 40_000][r.below(4)];
                std::fs::write(s.0.join(&name), vec![0x55u8; n]).unwrap();
                replaced = Some((name, n));
            }
        }
        let mut args: Vec<String> = inputs.iter().map(|i| i.0.clone()).collect();
        let opt = [("-s", Some(suffix.clone())), ("-o", out.map(|o| o.to_string()))];
        for (o, v) in opt {
            if let Some(v) = v {
                let at = if r.chance(0.5) { 0 } else { args.len() };
                args.splice(at..at, [o.to_string(), v]);
            }
        }
        let before = s.files();
        s.open_up();
        let cj = json!({"arguments": args});
        let code = match s.run(&args) {
            Ok(c) => c,
            Err(e) => return Outcome::Undecided(e),
        };
        if code != 0 {
            return violated(format!("exit status {code}"), cj);
        }
        let after = s.files();
        for (n, c) in &before {
            if after.get(n) != Some(c) && replaced.as_ref().map(|x| &x.0) != Some(n) {
                return violated(format!("{n} was changed or removed"), cj);
            }
        }
        let folder = match out {
            None | Some(".") => "work".to_string(),
            Some("here") => "work/here".to_string(),
            Some("here and/there/") => "work/here and/there".to_string(),
            Some("../linked") => "real folder".to_string(),
            Some(o) if o == absolute => "far off/ünder".to_string(),
            Some(o) if o.trim_end_matches('/').ends_with("../out") => "out".to_string(),
            Some(o) => o.trim_start_matches("../").to_string(),
        };
        let mut expected: Vec<String> = vec![];
        for (i, (arg, stem, ext, lossless)) in inputs.iter().enumerate() {
            let name = format!("{folder}/{stem}-{suffix}.{ext}");
            let bytes = match after.get(&name) {
                Some(Some(b)) => b,
                _ => return violated(format!("no output {name}"), cj),
            };
            expected.push(name.clone());
            let source = image::open(s.0.join("work").join(arg)).unwrap();
            let format = ImageFormat::from_path(&name).unwrap();
            match image::guess_format(bytes) {
                Ok(f) if f == format => (),
                f => return violated(format!("{name} is written as {f:?}"), cj),
            }
            let result = match image::load_from_memory_with_format(bytes, format) {
                Ok(d) => d,
                Err(e) => return violated(format!("{name} is not readable: {e}"), cj),
            };
            if result.dimensions() != source.dimensions() {
                return violated(format!("{name} has dimensions {:?}", result.dimensions()), cj);
            }
            if *lossless {
                let (a, b) = (planes(&source), planes(&result));
                let c = Case {
                    rows: a[0].dim().0,
                    cols: a[0].dim().1,
                    levels: 3,
                    depth: 100.,
                    step: 1.,
                    amount: 11,
                    kind: "",
                    head: 0,
                };
                let channels = if source.color().has_color() { 3 } else { 1 };
                for ch in 0..channels {
                    if let Err(e) = check_channel(ctx, &a[ch], &b[ch], &c) {
                        return violated(format!("{name}, channel {ch}: {e}"), cj);
                    }
                }
                if source.color().has_alpha() && a[3] != b[3] {
                    return violated(format!("{name}: transparency changed"), cj);
                }
                if result.color().has_color() != source.color().has_color() {
                    return violated(format!("{name}: colour type became {:?}", result.color()), cj);
                }
                ctx.count("lossless outputs compared", 1);
            } else {
                // the library's result through the same encoder
                match call(|| {
                    let m = watermarking::watermark(source.clone(), 100., 1., 11);
                    let mut b = std::io::Cursor::new(vec![]);
                    m.write_to(&mut b, format).unwrap();
                    image::load_from_memory_with_format(&b.into_inner(), format).unwrap()
                }) {
                    Ok(m) if planes(&m) == planes(&result) => ctx.count("lossy outputs compared", 1),
                    Ok(_) => return violated(format!("{name} differs from the library's result"), cj),
                    Err(_) => return Outcome::Undecided("the library refused"),
                }
            }
            ctx.count(&format!("input {ext}"), 1);
            let _ = i;
        }
        for n in after.keys() {
            let parent = folder.starts_with(n.as_str()) && after[n].is_none();
            if !before.contains_key(n) && !expected.contains(n) && !parent {
                return violated(format!("unexpected file {n}"), cj);
            }
        }
        if let Some((name, n)) = &replaced {
            // the same file comes out where nothing was before
            let again: Vec<String> = [&inputs[0].0, "-s", &suffix, "-o", "../clean"]
                .map(|x| x.to_string())
                .to_vec();
            match s.run(&again) {
                Ok(0) => (),
                Ok(c) => {
                    return violated(
                        format!("exit status {c} when the first file is marked again"),
                        json!({ "arguments": again }),
                    )
                }
                Err(e) => return Outcome::Undecided(e),
            }
            let clean = std::fs::read(s.0.join("clean").join(name.rsplit('/').next().unwrap())).unwrap_or_default();
            if after[name].as_ref() != Some(&clean) {
                return violated(
                    format!("{name} differs from the output where no file of {n} bytes was before"),
                    cj,
                );
            }
            ctx.count("outputs over existing files", 1);
        }
        if inputs.len() > 1 {
            ctx.count("batches", 1);
        }
        held(format!("{cj}").as_bytes(), true, cj)
    });
    // invocations that must not write anything, or not everything
    ctx.drive("refusals", ctx.n(68, 680), 0.35, |r, k| {
        let s = Scratch::new(10_000 + k);
        let (p, t) = picture(r, false);
        let good = build(t, &p, r);
        good.save_with_format(s.0.join("in/good.png"), ImageFormat::Png).unwrap();
        DynamicImage::new_luma8(40, 40)
            .save_with_format(s.0.join("in/small.png"), ImageFormat::Png)
            .unwrap();
        std::fs::write(s.0.join("in/not.png"), r.bytes(300)).unwrap();
        let whole = std::fs::read(s.0.join("in/good.png")).unwrap();
        std::fs::write(s.0.join("in/cut.png"), &whole[..whole.len() / 2]).unwrap();
        std::fs::write(s.0.join("work/file"), b"keep").unwrap();
        // what earlier runs left: not to be touched for inputs that cannot be marked
        for n in ["not", "cut", "small", "missing", "in"] {
            if r.chance(0.5) {
                std::fs::write(s.0.join(format!("work/{n}-x.png")), format!("old {n}")).unwrap();
            }
        }
        let a = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<Vec<_>>();
        // (arguments, must the exit status be zero, outputs that may exist, outputs that must exist)
        let mode = k % 17;
        match mode {
            // the output cannot be opened, or not be written
            14 => std::fs::create_dir_all(s.0.join("work/good-x.png")).unwrap(),
            15 => std::os::unix::fs::symlink("/dev/full", s.0.join("work/good-x.png")).unwrap(),
            16 => {
                std::fs::create_dir_all(s.0.join("out")).unwrap();
                std::os::unix::fs::symlink("/dev/full", s.0.join("out/good-x.png")).unwrap();
            }
            _ => {}
        }
        let bad = [
            "../in/not.png",
            "../in/cut.png",
            "../in/small.png",
            "../in/missing.png",
            "../in",
        ][r.below(5)];
        let (args, zero, must): (Vec<String>, Option<bool>, Vec<&str>) = match mode {
            0 => (a(&["../in/good.png"]), None, vec![]),
            1 => (a(&["-h"]), Some(true), vec![]),
            2 => (a(&["-h", "-s", "x", "../in/good.png"]), Some(true), vec![]),
            3 => (a(&[]), Some(true), vec![]),
            4 => (a(&["-s", "x"]), Some(true), vec![]),
            5 => (a(&["-s", "x", "-o", "file", "../in/good.png"]), Some(false), vec![]),
            6 => (a(&["-s", "x", bad]), Some(false), vec![]),
            7 => (a(&["-s", "x", "../in/good.png", bad]), Some(false), vec!["work/good-x.png"]),
            8 => (a(&["-o", "../out", "../in/good.png"]), None, vec![]),
            9 => (a(&["--help"]), Some(true), vec![]),
            10 => (a(&["../in/good.png", "-s"]), Some(false), vec![]),
            11 => (a(&["-s", "x", "../in/good.png", "-o"]), Some(false), vec![]),
            12 => (a(&["-s", "x", "-o", "file/below", "../in/good.png"]), Some(false), vec![]),
            14 | 15 => (a(&["-s", "x", "../in/good.png"]), Some(false), vec![]),
            16 => (a(&["-o", "../out", "-s", "x", "../in/good.png"]), Some(false), vec![]),
            _ => (a(&["-s", "x", "--no-such-option", "../in/good.png"]), Some(false), vec![]),
        };
        let before = s.files();
        s.open_up();
        let cj = json!({"arguments": args});
        let (code, said) = match s.run_and_listen(&args) {
            Ok(c) => c,
            Err(e) => return Outcome::Undecided(e),
        };
        let after = s.files();
        // a program that puts the finished file in place of the link never meets the full device
        if (15..17).contains(&mode) && code == 0 {
            let at = if mode == 15 { "work/good-x.png" } else { "out/good-x.png" };
            let marked = matches!(after.get(at), Some(Some(b)) if image::load_from_memory(b).is_ok());
            if !marked {
                return violated(format!("exit status 0, but {at} cannot have been written"), cj);
            }
            return Outcome::Undecided("the link was replaced by the output");
        }
        // help and missing inputs: the usage, with both options
        if [1, 2, 3, 4, 9].contains(&mode) {
            if !["-s", "-o", "--help"].iter().all(|o| said.contains(o)) {
                return violated(
                    format!("no usage text, but {:?}", said.chars().take(200).collect::<String>()),
                    cj,
                );
            }
            ctx.count("usage texts read", 1);
        }
        if zero == Some(true) && code != 0 || zero == Some(false) && code == 0 {
            return violated(format!("exit status {code}"), cj);
        }
        for (n, c) in &before {
            if after.get(n) != Some(c) {
                return violated(format!("{n} was changed or removed"), cj);
            }
        }
        for n in after.keys() {
            if !before.contains_key(n) && !must.contains(&n.as_str()) {
                return violated(format!("unexpected output {n}"), cj);
            }
        }
        for n in must {
            match after.get(n) {
                Some(Some(b)) => {
                    let c = Case {
                        rows: p[0].dim().0,
                        cols: p[0].dim().1,
                        levels: 3,
                        depth: 100.,
                        step: 1.,
                        amount: 11,
                        kind: "",
                        head: 0,
                    };
                    let d = match image::load_from_memory(b) {
                        Ok(d) => d,
                        Err(e) => return violated(format!("{n} is not readable: {e}"), cj),
                    };
                    if let Err(e) = check_channel(ctx, &planes(&good)[0], &planes(&d)[0], &c) {
                        return violated(format!("{n}: {e}"), cj);
                    }
                }
                _ => return violated(format!("no output {n} for the input before the bad one"), cj),
            }
        }
        if mode >= 14 {
            ctx.count("outputs that cannot be written", 1);
        }
        ctx.count(&format!("refusal {mode}"), 1);
        held(format!("{cj}{k}").as_bytes(), true, cj)
    });
    ctx.require("lossless outputs compared", 15);
    ctx.require("inputs that are links", 3);
    ctx.require("refusals.held", 20);
    ctx.require("outputs that cannot be written", 1);
    ctx.finish(
        "One case = one run of the program in a scratch folder: one to three inputs of nine file kinds and seven pixel types, awkward names and suffixes, links to pictures under other names, with or without an output folder (existing, nested new, current), options in any position; names, formats, pixels (predicted carrier by carrier at depth 100, step 1, 11 features) and the whole folder compared; or one invocation that must fail or do nothing. Distinct by arguments.",
        &["lossy formats are compared with the library's result through the same encoder"],
    )
}
