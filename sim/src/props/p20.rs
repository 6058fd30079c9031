//! P20: image export returns each slide's picture exactly once, or fails.
use super::converters::*;
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::pkg;
use crate::rt::*;
use ppt_rs::export::image_export::*;

const OLD: &[(&str, &[u8])] = &[
    ("/out/Slide77.png", b"somebody's picture"),
    ("/out/slide-1.png", b"a picture of another deck"),
    ("/out/slide-90.png", b"a picture of another deck, later"),
    ("/out/Slide78.jpg", b"somebody's photo"),
    ("/out/temp_export_old.png", b"another picture"),
    ("/out/temp_export9.jpg", b"another photo"),
    ("/out/holiday.png", b"holiday"),
    ("/out/notes.txt", b"notes"),
    ("/tmp/temp_export.pptx", b"somebody's presentation"),
    ("/tmp/temp_export.png", b"somebody's export"),
];

fn run() {
    freeze_clock();
    let d = gen::deck(&gen::TEXT);
    let p = d.presentation();
    let want = match slide_keys(&must("build", p.build())) {
        Ok(k) => k,
        Err(e) => viol!("invalid", "the deck to export is unreadable: {}", e),
    };
    god(|| {
        sim().fs.mkdir_p("/tmp");
        sim().fs.mkdir_p("/work");
    });
    let fresh_dir = wc(1, 4);
    if !fresh_dir {
        god(|| sim().fs.mkdir_p("/out"));
    }
    for (n, b) in OLD {
        if (!fresh_dir || !n.starts_with("/out")) && wc(1, 2) {
            put(n, b);
        }
    }
    let naming = [Naming::Slide, Naming::First, Naming::Stem, Naming::Padded][w(4) as usize];
    let single = w(4);
    let (padded, reversed) = (wc(1, 2), wc(1, 2));
    let mode = if single == 3 { choose_page_mode(want.len()) } else { choose_mode() };
    soffice(mode, naming, reversed, true);
    pdftoppm(mode, want.len(), padded, reversed);
    let o = super::ops::image_options();
    let ext = o.format.extension();
    let made = if naming == Naming::First && single != 3 { 1.min(want.len()) } else { want.len() };
    let slide = 1 + w(want.len() as u64 + 1) as usize;
    // only this one of all slides, into the directory
    let only = if single == 0 && wc(1, 3) { slide } else { 0 };
    let o = if only > 0 { o.with_slide(only) } else { o };
    let direct = wc(1, 2);
    let dir = ["/out", "/out/", "/work/../out"][w(3) as usize];
    let target = ["/out/picked.img", "/out/Slide3.png", "/out/deep/er/x.png", "rel.png"][w(4) as usize];
    let go = || -> Result<Vec<std::path::PathBuf>, String> {
        match single {
            0 if direct => e2s(p.save_as_images(dir, &o)),
            1 if direct => e2s(p.save_slide_as_image(slide, target, &o)).map(|x| vec![x]),
            2 if direct => e2s(p.save_thumbnail(target, 100)).map(|x| vec![x]),
            0 => e2s(export_to_images(&p, dir, &o)),
            1 => e2s(export_slide_to_image(&p, slide, target, &o)).map(|x| vec![x]),
            2 => e2s(render_thumbnail(&p, target, 100)).map(|x| vec![x]),
            _ => e2s(p.save_as_png(dir)).map(|_| {
                god(|| {
                    let n = want.len();
                    let width = if padded { n.to_string().len() } else { 1 };
                    (0..n).map(|i| std::path::Path::new(dir).join(format!("slide-{:0w$}.png", i + 1, w = width))).collect()
                })
            }),
        }
    };
    // what the pages are drawn from
    let page_key = if single == 3 {
        if let Err(e) = no_panic("save_as_pdf", || e2s(p.save_as_pdf("/work/pages.pdf"))) {
            viol!("unexpected-error", "save_as_pdf failed without any fault: {}", e);
        }
        let k = pkg::hash(&get("/work/pages.pdf").unwrap_or_default());
        god(|| sim().fs.remove("/work/pages.pdf"));
        k
    } else {
        0
    };
    let drawn = |i: usize, ext: &str| if single == 3 { picture("png", page_key, i) } else { picture(ext, want[i], i) };
    let (single_slide, ext) = match single {
        0 => (only, ext),
        3 => (0, "png"),
        1 => (slide, ext),
        _ => (1, "png"),
    };
    let before = tree();
    let snap = god(|| {
        sim().fs.sync_all();
        sim().fs.clone()
    });
    let what = ["export_to_images", "export_slide_to_image", "render_thumbnail", "save_as_png"][single as usize];
    let (r0, n) = measure(ALL, None, || no_panic(what, go));
    let mut f = vec![];
    let r = if wc(1, 2) && n > 0 {
        god(|| sim().fs = snap);
        plan_snipe(ALL, n, false);
        set_benign(benign_rates());
        arm();
        let r = no_panic(what, go);
        disarm();
        f = fired();
        god(reset_faults);
        r
    } else {
        r0
    };
    let possible = single_slide <= made && !want.is_empty();
    if mode != Mode::Good || !f.is_empty() {
        nontrivial();
    }
    state(&god(|| format!("{} {:?} {:?} {} {:?}", what, mode, naming, r.is_ok(), f.first().map(|x| x.split(" on ").next().unwrap_or("").to_string()))));
    sample(god(|| format!("{} converter {:?} {:?} faults {:?}: {:?}", what, mode, naming, f, r)));
    // files that were there before
    let after = tree();
    let base: Vec<String> = match &r {
        Ok(v) => god(|| v.iter().map(|x| sim().fs.abs(&x.to_string_lossy())).map(|x| x.replace("/work/..", "").replace("//", "/")).collect()),
        Err(_) => vec![],
    };
    for (k, v) in &before {
        if v.is_none() {
            continue;
        }
        let same = after.get(k) == Some(v);
        if !same && !base.contains(k) {
            // a picture of this export may replace an older one of its name
            if r.is_err() && after.get(k).map_or(false, |x| x.is_some()) && (0..want.len()).any(|i| after[k].as_deref() == Some(&drawn(i, ext)[..])) {
                continue;
            }
            viol!("clobbered", "{} with converter {:?} {:?} changed or removed {} which it did not make", what, mode, f, k);
        }
    }
    match r {
        Err(e) => {
            if mode == Mode::Good && f.is_empty() && possible {
                viol!("unexpected-error", "{} (slide {} of {}, {:?}) failed with a working converter: {}", what, single_slide, want.len(), naming, e);
            }
            probe("error");
        }
        Ok(v) => {
            probe("success");
            if mode != Mode::Good {
                viol!("false-success", "{} succeeded ({:?}) although the converter was {:?}", what, v, mode);
            }
            if single_slide > want.len() || want.is_empty() && single_slide != 0 {
                viol!("false-success", "{} of slide {} of {} succeeded", what, single_slide, want.len());
            }
            if !possible {
                viol!("false-success", "{} of slide {} succeeded although the converter drew only {} slides", what, single_slide, made);
            }
            let expect: Vec<Vec<u8>> = god(|| {
                if single_slide > 0 {
                    vec![drawn(single_slide - 1, ext)]
                } else {
                    (0..made).map(|i| drawn(i, ext)).collect()
                }
            });
            if v.len() != expect.len() {
                viol!("wrong-files", "{} returned {} files {:?} instead of {}", what, v.len(), v, expect.len());
            }
            for (i, q) in base.iter().enumerate() {
                match get(q) {
                    None => viol!("wrong-files", "{} returned {:?} which does not exist {:?}", what, q, f),
                    Some(b) if b == expect[i] => {}
                    Some(b) => viol!("wrong-files", "{} returned as picture {} the file {:?} which holds something else: {} {:?}", what, i + 1, q, short(&b), f),
                }
            }
            if (single == 0 || single == 3) && !god(|| base.iter().all(|x| x.starts_with("/out/"))) {
                viol!("wrong-files", "pictures are not in the output directory: {:?}", v);
            }
            if (single == 1 || single == 2) && base[0] != god(|| sim().fs.abs(target)) {
                viol!("wrong-files", "{} to {} returned {:?}", what, target, v);
            }
            if single == 1 || single == 2 {
                // only the requested picture appears
                for (k, x) in &after {
                    if x.is_some() && !k.starts_with("/tmp/") && !before.contains_key(k) && !base.contains(k) {
                        viol!("extra-files", "{} also left {}", what, k);
                    }
                }
            }
        }
    }
}

pub static P: Prop = Prop {
    id: "P20",
    run,
    rule: "a run counts if the converter did not work or a system call was failed",
    state_measure: "operation x converter behaviour x file naming x outcome x first fault",
    stubs: "soffice is a model that reads the presentation it is given and draws one recognisable picture per slide; file system behind the libc boundary; all of ppt-rs is real",
    ..BASE
};
