//! Models of the external programs the library runs: LibreOffice's soffice and
//! poppler's pdftoppm.
use crate::ctx::*;
use crate::gen;
use crate::pkg;
use crate::rt::*;
use crate::zipr;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Good,
    Missing,
    /// exits with an error before writing anything
    Refuses,
    /// writes `n` pictures, then exits with an error
    FailsAfter(u64),
    /// writes `n` pictures and half of the next, then is killed
    KilledAfter(u64),
    /// exits successfully without writing anything
    Silent,
    /// exits successfully without the picture of one page before the last
    Skips(u64),
}
/// Behaviours of a renderer whose pictures are numbered without gaps.
pub fn choose_page_mode(pages: usize) -> Mode {
    if pages > 1 && fdraw(10) == 1 {
        return Mode::Skips(fdraw(pages as u64 - 1));
    }
    choose_mode()
}
pub fn choose_mode() -> Mode {
    match fdraw(8) {
        0..=2 => Mode::Good,
        3 => Mode::Missing,
        4 => Mode::Refuses,
        5 => Mode::FailsAfter(fdraw(4)),
        6 => Mode::KilledAfter(fdraw(4)),
        _ => Mode::Silent,
    }
}

/// The picture the model draws for one slide or page.
pub fn picture(ext: &str, key: u64, k: usize) -> Vec<u8> {
    let fmt = if ext == "jpg" { "JPG" } else { "PNG" };
    let mut h = key;
    fnv(&mut h, &k.to_le_bytes());
    gen::image_of(fmt, h, 200 + (h % 3000) as usize)
}
/// What tells one slide of one deck from another.
pub fn slide_keys(pptx: &[u8]) -> Result<Vec<u64>, String> {
    let p = zipr::read(pptx)?;
    let mut v = vec![];
    for s in pkg::slide_order(&p)? {
        let t = pkg::paragraphs(p.get(&s).ok_or("slide missing")?)?;
        v.push(pkg::hash(format!("{:?}", t).as_bytes()));
    }
    Ok(v)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Naming {
    /// one picture, of the first slide, named after the input
    First,
    /// Slide1.png, Slide2.png, ...
    Slide,
    /// input1.png, input2.png, ...
    Stem,
    /// Slide01.png, ... zero-padded
    Padded,
}

fn exit(code: i32, err: &str) -> ProgResult {
    ProgResult { status: code << 8, stdout: vec![], stderr: err.as_bytes().to_vec() }
}
/// The model writes through the simulated disk, which may be full.
fn write(path: &str, data: &[u8]) {
    sim().fs.put(path, data);
}
fn draw_all(files: Vec<(String, Vec<u8>)>, mode: Mode) -> ProgResult {
    let n = match mode {
        Mode::FailsAfter(n) | Mode::KilledAfter(n) => n as usize,
        Mode::Refuses | Mode::Silent => 0,
        _ => usize::MAX,
    };
    for (i, (p, d)) in files.iter().enumerate() {
        if mode == Mode::Skips(i as u64) {
            count("program_skips");
            continue;
        }
        if i < n {
            write(p, d);
        } else if i == n {
            if let Mode::KilledAfter(_) = mode {
                write(p, &d[..d.len() / 2]);
            }
        }
    }
    match mode {
        Mode::Refuses | Mode::FailsAfter(_) => {
            count("program_failed");
            exit(1, "conversion failed")
        }
        Mode::KilledAfter(_) => {
            count("program_killed");
            ProgResult { status: 9, stdout: vec![], stderr: vec![] }
        }
        Mode::Silent => {
            count("program_silent");
            exit(0, "")
        }
        _ => exit(0, ""),
    }
}

/// Install soffice.  `shuffle` reverses the order in which files are created.
pub fn soffice(mode: Mode, naming: Naming, reversed: bool, lock: bool) {
    god(|| {
        if mode == Mode::Missing {
            count("program_missing");
            sim().progs.remove("soffice");
            return;
        }
        let f = move |c: ProgCall| -> ProgResult {
            if c.argv.iter().any(|a| a == "--version") {
                return ProgResult { status: 0, stdout: b"LibreOffice 7.6\n".to_vec(), stderr: vec![] };
            }
            let val = |n: &str| c.argv.iter().position(|a| a == n).and_then(|i| c.argv.get(i + 1)).cloned().unwrap_or_default();
            let ext = val("--convert-to").split(':').next().unwrap_or("").to_string();
            let abs = |p: &str| if p.starts_with('/') { p.to_string() } else { format!("{}/{}", c.cwd, p) };
            let dir = abs(&val("--outdir"));
            let input = abs(c.argv.last().map(|s| s.as_str()).unwrap_or(""));
            let data = match sim().fs.get(&input) {
                Some(d) => d.to_vec(),
                None => return exit(1, "source file could not be loaded"),
            };
            let keys = match slide_keys(&data) {
                Ok(k) => k,
                Err(_) => return exit(1, "source file could not be loaded"),
            };
            let stem = input.rsplit('/').next().unwrap_or("").rsplit_once('.').map(|x| x.0.to_string()).unwrap_or_default();
            let idir = input.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
            let mut files: Vec<(String, Vec<u8>)> = keys
                .iter()
                .enumerate()
                .map(|(i, k)| {
                    let name = match naming {
                        Naming::First => format!("{}.{}", stem, ext),
                        Naming::Slide => format!("Slide{}.{}", i + 1, ext),
                        Naming::Stem => format!("{}{}.{}", stem, i + 1, ext),
                        Naming::Padded => format!("Slide{:02}.{}", i + 1, ext),
                    };
                    (format!("{}/{}", dir, name), picture(&ext, *k, i))
                })
                .collect();
            if naming == Naming::First {
                files.truncate(1);
            }
            if reversed {
                files.reverse();
            }
            let r = draw_all(files, mode);
            if lock && r.status != 0 {
                // a dying office leaves its lock file beside the input
                sim().fs.put(&format!("{}/.~lock.{}.pptx#", idir, stem), b"lock");
            }
            r
        };
        sim().progs.insert("soffice".into(), Box::new(f));
    })
}

/// Install pdftoppm for documents of `pages` pages.
pub fn pdftoppm(mode: Mode, pages: usize, padded: bool, reversed: bool) {
    god(|| {
        if mode == Mode::Missing {
            count("program_missing");
            sim().progs.remove("pdftoppm");
            return;
        }
        let f = move |c: ProgCall| -> ProgResult {
            let abs = |p: &str| if p.starts_with('/') { p.to_string() } else { format!("{}/{}", c.cwd, p) };
            let n = c.argv.len();
            let (input, prefix) = (abs(&c.argv[n - 2]), abs(&c.argv[n - 1]));
            let data = match sim().fs.get(&input) {
                Some(d) => d.to_vec(),
                None => return exit(1, "Couldn't open file"),
            };
            let key = pkg::hash(&data);
            let mut files: Vec<(String, Vec<u8>)> = (0..pages)
                .map(|i| {
                    let k = if padded { format!("{:0w$}", i + 1, w = pages.to_string().len()) } else { format!("{}", i + 1) };
                    (format!("{}-{}.png", prefix, k), picture("png", key, i))
                })
                .collect();
            if reversed {
                files.reverse();
                if let Mode::Skips(k) = mode {
                    return draw_all(files, Mode::Skips(pages as u64 - 1 - k));
                }
            }
            draw_all(files, mode)
        };
        sim().progs.insert("pdftoppm".into(), Box::new(f));
    })
}
