//! P02: writing to a path is honest about success.
use super::ops::*;
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::rt::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Where {
    Fresh,
    Relative,
    Existing,
    SameLength,
    Dotted,
    Symlink,
    Dangling,
    NoParent,
    Directory,
    ReadOnly,
    ReadOnlyDir,
    InPlace,
    Unicode,
}
use Where::*;

fn run() {
    freeze_clock();
    crate::gen::HOSTILE.with(|h| h.set(wc(1, 6)));
    let op = choose();
    god(|| {
        sim().fs.mkdir_p("/work");
        sim().fs.mkdir_p("/tmp");
        sim().fs.mkdir_p("/ref");
    });
    let ext = if op.kind == Kind::Pptx { "pptx" } else { "dat" };
    // reference: the same content written without faults
    let refp = god(|| format!("/ref/out.{}", ext));
    if let Err(e) = no_panic(op.name, || (op.go)(&refp)) {
        viol!("faultfree-error", "{} to a fresh path without faults: {}", op.name, e);
    }
    let want = match get(&refp) {
        Some(b) => b,
        None => viol!("missing", "{} returned success and wrote no file", op.name),
    };
    let refbytes = want.clone();
    let want = match content(op.kind, &want) {
        Ok(c) => c,
        Err(e) => viol!("incomplete", "{} without faults wrote an incomplete file: {}", op.name, e),
    };
    if let Content::Parts(p) = &want {
        if op.name != "Package::save" && op.name != "PresentationEditor::save" && op.name != "PptxRepair::save" {
            if let Some(e) = god(|| crate::pkg::check(p)).first() {
                viol!("invalid", "{} without faults wrote an inconsistent package: {}", op.name, e);
            }
        }
    }

    let mut kinds = vec![Fresh, Relative, Existing, SameLength, Dotted, Symlink, Dangling, NoParent, Directory, ReadOnly, ReadOnlyDir, Unicode];
    if op.name == "compress_pptx" {
        kinds.push(InPlace);
        kinds.push(InPlace);
    }
    let at = *pick(&kinds);
    let (path, real) = god(|| {
        let fs = &mut sim().fs;
        let (p, r) = match at {
            Fresh => (format!("/work/out.{}", ext), format!("/work/out.{}", ext)),
            Unicode => (format!("/work/Prés 日本 'x'.{}", ext), format!("/work/Prés 日本 'x'.{}", ext)),
            Relative => (format!("out.{}", ext), format!("/work/out.{}", ext)),
            Existing => {
                let p = format!("/work/out.{}", ext);
                fs.put(&p, b"previous contents, longer or shorter than the new ones");
                (p.clone(), p)
            }
            SameLength => {
                let p = format!("/work/out.{}", ext);
                let mut b = refbytes.clone();
                for i in 0..b.len() {
                    if i % 3 == 1 {
                        b[i] ^= 1;
                    }
                }
                fs.put(&p, &b);
                (p.clone(), p)
            }
            Dotted => {
                fs.mkdir_p("/work/sub");
                (format!("/work/sub/.././out.{}", ext), format!("/work/out.{}", ext))
            }
            Symlink | Dangling => {
                let d = fs.mkdir_p("/other");
                let l = fs.mkdir_p("/work");
                let _ = d;
                if at == Symlink {
                    fs.put("/other/real.x", b"previous");
                }
                fs.symlink("/other/real.x", l, "link.x");
                ("/work/link.x".to_string(), "/other/real.x".to_string())
            }
            NoParent => (format!("/work/no/such/out.{}", ext), format!("/work/no/such/out.{}", ext)),
            Directory => {
                fs.mkdir_p("/work/out.d");
                ("/work/out.d".into(), "/work/out.d".into())
            }
            ReadOnly => {
                let p = format!("/work/out.{}", ext);
                let i = fs.put(&p, b"read-only contents");
                fs.inodes[i].mode = 0o444;
                (p.clone(), p)
            }
            ReadOnlyDir => {
                let d = fs.mkdir_p("/work/ro");
                fs.inodes[d].mode = 0o555;
                (format!("/work/ro/out.{}", ext), format!("/work/ro/out.{}", ext))
            }
            InPlace => ("/in/comp.pptx".into(), "/in/comp.pptx".into()),
        };
        // files that must not be touched
        for n in [format!("out.{}.tmp", ext), format!("out.{}.bak", ext), ".tmp".into(), "other.pptx".into(), "out.tmp".into()] {
            let p = format!("/work/{}", n);
            fs.put(&p, n.as_bytes());
        }
        fs.put("/tmp/compress_input.pptx", b"somebody else's");
        fs.sync_all();
        (p, r)
    });
    let refuse = matches!(at, Directory | ReadOnly | ReadOnlyDir) || (at == NoParent && !op.makes_dirs);
    let before = tree();
    let snap = god(|| sim().fs.clone());
    let (r0, n) = measure(ALL, None, || call(|| (op.go)(&path)));
    god(|| sim().fs = snap);

    // plan
    let mode = fdraw(4);
    let mut planned = false;
    match mode {
        0 | 1 => {
            let sticky = fdraw(2) == 1;
            planned = plan_snipe(ALL, n, sticky)
        }
        2 => {
            let room = fdraw(8);
            let x = fdraw(30_000);
            god(|| {
                let fs = &mut sim().fs;
                let slack = [0, 1, 512, 4096, x, x, x, 10_000_000][room as usize];
                fs.capacity = Some(fs.used + slack);
            });
        }
        _ => {}
    }
    let br = benign_rates();
    set_benign(br);
    god(|| sample(format!("{} to {:?}, fault mode {}, planned {}", op.name, at, mode, planned)));
    arm();
    let r = call(|| (op.go)(&path));
    disarm();
    god(|| sim().fs.capacity = None);
    let f = fired();
    if !f.is_empty() || br.0 + br.1 > 0 || refuse {
        nontrivial();
    }
    god(|| {
        let s = sim();
        let pos = s.faults.snipe.first().map(|x| x.0);
        state(&format!("{} {:?} {} {:?} {}", op.name, at, mode, pos, f.first().map(|x| x.split(" on ").next().unwrap_or("").to_string()).unwrap_or_default()));
    });
    let r = match r {
        Ok(r) => r,
        Err(m) => viol!("panic", "{} to {:?} under {:?} panicked: {}", op.name, at, f, m),
    };
    let after = tree();
    // nothing else changed
    let cleanup_failed = f.iter().any(|x| x.starts_with("unlink_error") || x.starts_with("rmdir_error"));
    god(|| {
        for (p, v) in &before {
            if *p == real {
                continue;
            }
            match after.get(p) {
                None => viol!("collateral", "{} to {:?} under {:?} removed {}", op.name, at, f, p),
                Some(x) if x != v => viol!("collateral", "{} to {:?} under {:?} changed {}", op.name, at, f, p),
                _ => {}
            }
        }
        for (p, v) in &after {
            if *p == real || before.contains_key(p) {
                continue;
            }
            let parent_dir = v.is_none() && op.makes_dirs && real.starts_with(&format!("{}/", p));
            if !parent_dir && !cleanup_failed {
                viol!("stray", "{} to {:?} under {:?} returned {:?} and left {}", op.name, at, f, r.is_ok(), p);
            }
        }
    });
    match r {
        Ok(()) => {
            probe("succeeded");
            if refuse {
                viol!("false-success", "{} returned success for a target that cannot be written ({:?})", op.name, at);
            }
            let got = match get(&real) {
                Some(b) => b,
                None => viol!("false-success", "{} to {:?} under {:?} returned success and there is no file", op.name, at, f),
            };
            let got = match content(op.kind, &got) {
                Ok(c) => c,
                Err(e) => viol!("false-success", "{} to {:?} under {:?} returned success with an incomplete file: {}", op.name, at, f, e),
            };
            if let Some(d) = diff(&want, &got) {
                viol!("false-success", "{} to {:?} under {:?} returned success with other content: {}", op.name, at, f, d);
            }
            if let Some(x) = f.iter().find(|x| x.starts_with("write_error") || (x.starts_with("fsync_error") && !is_dir(x.split(" on ").nth(1).unwrap_or("")))) {
                viol!("ignored-error", "{} to {:?} returned success although {}", op.name, at, x);
            }
        }
        Err(e) => {
            probe("failed");
            if f.is_empty() && !refuse {
                viol!("spurious-failure", "{} to {:?} failed with nothing but short or interrupted calls: {} (without: {:?})", op.name, at, e, r0);
            }
        }
    }
}

pub static P: Prop = Prop {
    id: "P02",
    run,
    rule: "a run counts if a fault fired, calls were shortened or interrupted, or the target cannot be written",
    state_measure: "operation x kind of target path x fault mode x position of the fault x first fault",
    stubs: "file system behind the libc boundary; all of ppt-rs, zip, flate2 and pdfrs is real",
    ..BASE
};
