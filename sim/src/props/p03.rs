//! P03: a failed or crashed save never destroys the previous file.
use super::ops::*;
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::rt::*;

fn run() {
    freeze_clock();
    crate::gen::HOSTILE.with(|h| h.set(wc(1, 6)));
    let op = choose();
    god(|| {
        for d in ["/work", "/tmp", "/ref", "/other"] {
            sim().fs.mkdir_p(d);
        }
    });
    let ext = if op.kind == Kind::Pptx { "pptx" } else { "dat" };
    let refp = god(|| format!("/ref/out.{}", ext));
    must(op.name, no_panic(op.name, || (op.go)(&refp)));
    let new_bytes = get(&refp).unwrap_or_default();
    let new = match content(op.kind, &new_bytes) {
        Ok(c) => c,
        Err(e) => viol!("incomplete", "{} without faults wrote an incomplete file: {}", op.name, e),
    };
    // the previous contents: another deck, an arbitrary file, an empty file, a huge one
    let in_place = op.name == "compress_pptx" && wc(1, 3);
    let link = !in_place && wc(1, 6);
    let path = god(|| if in_place { "/in/comp.pptx".to_string() } else if link { "/work/link".into() } else { format!("/work/out.{}", ext) });
    let real = god(|| if link { "/other/real.x".to_string() } else { path.clone() });
    if !in_place {
        let old = match w(5) {
            0 => deck_bytes(&crate::gen::TEXT).1,
            1 => b"some previous contents".to_vec(),
            2 => vec![],
            3 => god(|| vec![0x41; new_bytes.len() + 5000]),
            _ => god(|| {
                // the same contents with one byte changed
                let mut v = new_bytes.clone();
                let n = v.len();
                if n > 0 {
                    v[n / 2] ^= 1;
                }
                v
            }),
        };
        put(&real, &old);
        if link {
            god(|| {
                let l = sim().fs.mkdir_p("/work");
                sim().fs.symlink("/other/real.x", l, "link");
            });
        }
    }
    god(|| sim().fs.sync_all());
    let old = get(&real).unwrap_or_default();
    let before = tree();
    let snap = god(|| sim().fs.clone());
    let (_, n) = measure(ALL, None, || call(|| (op.go)(&path)));
    god(|| sim().fs = snap.clone());

    let mode = wweighted(&[3, 3, 2, 1, 1]);
    let mode_name = ["process killed", "power lost", "error", "full disk", "power lost after the end"][mode];
    let br = benign_rates();
    let at = if mode < 2 { Some(fdraw(n.max(1))) } else { None };
    if mode == 2 {
        let sticky = fdraw(2) == 1;
        plan_snipe(ALL, n, sticky);
    }
    god(|| {
        let s = sim();
        if mode < 2 {
            s.faults.hard_calls = ALL;
            s.faults.crash_at = at;
        }
        if mode == 3 {
            let x = fdraw(30_000);
            s.fs.capacity = Some(s.fs.used + [0, 1, 512, 4096, x, x][fdraw(6) as usize]);
        }
        sample(format!("{} over {} bytes, {} at {:?} of {}", op.name, old.len(), mode_name, at, n));
        state(&format!("{} {} {} {} {:?}", op.name, in_place, link, mode_name, at.unwrap_or(sim().faults.snipe.first().map_or(0, |x| x.0))));
    });
    set_benign(br);
    let go = op.go.clone();
    let p2 = god(|| path.clone());
    arm();
    let r = if mode < 2 {
        let job = Send_((go, p2));
        crashable(move || {
            let (go, p) = job.get();
            call(|| go(&p))
        })
    } else {
        Some(call(|| go(&p2)))
    };
    disarm();
    god(|| sim().fs.capacity = None);
    let f = fired();
    if mode == 1 || mode == 4 {
        god(|| {
            count("power_loss");
            sim().fs.power_loss(&mut |n| fdraw(n))
        });
    }
    if r.is_none() || !f.is_empty() || mode == 4 {
        nontrivial();
    }
    let outcome = match &r {
        None => "never returned".to_string(),
        Some(Err(m)) => viol!("panic", "{} under {:?} panicked: {}", op.name, f, m),
        Some(Ok(Ok(()))) => "returned success".into(),
        Some(Ok(Err(e))) => god(|| format!("returned an error ({})", e)),
    };
    let failed = matches!(&r, Some(Ok(Err(_))));
    probe(match &r {
        None => "crashed",
        Some(Ok(Ok(()))) => "succeeded",
        _ => "failed",
    });
    // old or new, completely
    let now = get(&real);
    let is_old = god(|| now.as_ref() == Some(&old));
    let is_new = match &now {
        None => false,
        Some(b) => match content(op.kind, b) {
            Ok(c) => diff(&new, &c).is_none(),
            Err(_) => false,
        },
    };
    if !is_old && !is_new {
        let what = god(|| match &now {
            None => "is gone".to_string(),
            Some(b) => format!("holds {} bytes that are neither the {} old nor the {} new ones", b.len(), old.len(), new_bytes.len()),
        });
        viol!("destroyed", "{}: {} {:?} {:?}: {}; {} {}", op.name, mode_name, at, f, outcome, real, what);
    }
    if link && !god(|| tree().get("/work/link").map_or(false, |v| v.as_deref() == Some(b"-> /other/real.x"))) && mode != 1 && mode != 4 {
        viol!("link", "{}: {} {:?}: the link to the file was replaced", op.name, mode_name, f);
    }
    if failed {
        if !is_old {
            viol!("error-and-changed", "{} {} under {:?} and the file holds the new contents", op.name, outcome, f);
        }
        let cleanup_failed = f.iter().any(|x| x.starts_with("unlink_error") || x.starts_with("rmdir_error"));
        god(|| {
            for p in tree().keys() {
                if !before.contains_key(p) && !cleanup_failed {
                    viol!("stray", "{} {} under {:?} and left {}", op.name, outcome, f, p);
                }
            }
        });
    }
    // every other file is as it was
    god(|| {
        let t = tree();
        for (p, v) in &before {
            if *p != real && v.is_some() && t.get(p) != Some(v) {
                viol!("collateral", "{}: {} {:?} {:?}: {} was changed", op.name, mode_name, at, f, p);
            }
        }
    });
    // once the faults are gone the same save works
    god(|| {
        reset_faults();
        sim().crashed = false;
    });
    if !in_place || is_old {
        match call(|| (op.go)(&path)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => viol!("no-recovery", "{}: after {} {:?} {:?} the same save fails: {}", op.name, mode_name, at, f, e),
            Err(m) => viol!("panic", "{}: after {} {:?} {:?} the same save panics: {}", op.name, mode_name, at, f, m),
        }
        let ok = match get(&real).map(|b| content(op.kind, &b)) {
            Some(Ok(c)) => diff(&new, &c).is_none(),
            _ => false,
        };
        if !ok {
            viol!("no-recovery", "{}: after {} {:?} {:?} saving again does not give the new contents", op.name, mode_name, at, f);
        }
    }
}

pub static P: Prop = Prop {
    id: "P03",
    run,
    rule: "a run counts if the process died during the save, power was lost, or a fault fired",
    state_measure: "operation x in place x through a link x kind of failure x position among the system calls",
    assumptions: &[
        "a killed process loses nothing it handed to the file system; a power loss keeps only synced data, an arbitrary prefix of directory changes and an arbitrary part of unsynced writes",
        "rename within a directory is atomic",
        "a clean batch of runs is evidence, not proof",
    ],
    stubs: "file system behind the libc boundary; all of ppt-rs, zip, flate2 and pdfrs is real",
    ..BASE
};
