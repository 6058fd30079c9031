//! P19: importing a PDF keeps every page, in order, or fails.
use super::converters::*;
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::pkg;
use crate::rt::*;

fn run() {
    freeze_clock();
    god(|| {
        sim().fs.mkdir_p("/tmp");
        sim().fs.mkdir_p("/work");
    });
    let pages = [1, 2, 3, 9, 10, 11, 12, 21][w(8) as usize];
    let doc = god(|| format!("%PDF-1.4 document {}", w(1000)).into_bytes());
    let path = ["/in/Report 7.pdf", "/in/page-3.pdf", "/in/x"][w(3) as usize];
    let there = !wc(1, 12);
    if there {
        put(path, &doc);
    }
    let mode = choose_page_mode(pages);
    pdftoppm(mode, pages, wc(1, 2), wc(1, 2));
    let key = pkg::hash(&doc);
    let go = || e2s(ppt_rs::api::Presentation::from_pdf(path));
    let snap = god(|| {
        sim().fs.sync_all();
        sim().fs.clone()
    });
    let (r0, n) = measure(ALL, None, || no_panic("from_pdf", go));
    let mut f = vec![];
    let r = if wc(1, 2) && n > 0 {
        god(|| sim().fs = snap);
        plan_snipe(ALL, n, false);
        set_benign(benign_rates());
        arm();
        let r = no_panic("from_pdf", go);
        disarm();
        f = fired();
        god(reset_faults);
        r
    } else {
        r0
    };
    if mode != Mode::Good || !f.is_empty() {
        nontrivial();
    }
    state(&god(|| format!("{:?} {} {} {:?}", mode, pages, r.is_ok(), f.first().map(|x| x.split(" on ").next().unwrap_or("").to_string()))));
    sample(god(|| format!("{} pages, renderer {:?} faults {:?}: {}", pages, mode, f, if r.is_ok() { "ok" } else { "error" })));
    // files made by the renderer are temporary: whatever lies in /tmp goes
    god(|| {
        for k in sim().fs.tree().keys().filter(|k| k.starts_with("/tmp/")).cloned().collect::<Vec<_>>().into_iter().rev() {
            sim().fs.remove(&k);
        }
    });
    let p = match r {
        Err(e) => {
            if mode == Mode::Good && f.is_empty() && there {
                viol!("unexpected-error", "from_pdf of {} pages failed with a working renderer: {}", pages, e);
            }
            probe("error");
            return;
        }
        Ok(p) => p,
    };
    probe("success");
    if mode != Mode::Good || !there {
        viol!("false-success", "from_pdf succeeded with {} slides although the renderer was {:?} (document there: {})", p.slide_count(), mode, there);
    }
    if p.slide_count() != pages {
        viol!("pages", "a document of {} pages became {} slides {:?}", pages, p.slide_count(), f);
    }
    let built = if wc(1, 2) {
        must("build", p.build())
    } else {
        if let Err(e) = no_panic("save", || e2s(p.save("/work/o.pptx"))) {
            viol!("unbuildable", "the presentation made from a PDF cannot be saved: {}", e);
        }
        get("/work/o.pptx").unwrap_or_default()
    };
    let parts = read_parts("package", "deck made from a PDF", &built);
    if let Some(e) = god(|| pkg::check(&parts)).first() {
        viol!("package", "the deck made from a PDF is inconsistent: {}", e);
    }
    let order = match god(|| pkg::slide_order(&parts)) {
        Ok(o) => o,
        Err(e) => viol!("package", "{}", e),
    };
    for (i, s) in order.iter().enumerate() {
        let want = god(|| picture("png", key, i));
        let got: Vec<Vec<u8>> = god(|| pkg::rels_of(&parts, s).iter().filter(|r| r.kind() == "image").map(|r| parts.get(&r.target).cloned().unwrap_or_default()).collect());
        if got.len() != 1 {
            viol!("pages", "slide {} of {} holds {} images", i + 1, pages, got.len());
        }
        if got[0] != want {
            let other = god(|| (0..pages).position(|k| picture("png", key, k) == got[0]));
            viol!("pages", "slide {} shows {:?} instead of its page", i + 1, other.map(|k| k + 1));
        }
        let v = god(|| pkg::slide_view(&parts, s));
        match v {
            Ok(v) if v.media.len() == 1 => {}
            Ok(v) => viol!("pages", "slide {} refers to {} media", i + 1, v.media.len()),
            Err(e) => viol!("package", "{}", e),
        }
    }
}

pub static P: Prop = Prop {
    id: "P19",
    run,
    rule: "a run counts if the renderer did not work or a system call was failed",
    state_measure: "renderer behaviour x number of pages x outcome x first fault",
    stubs: "pdftoppm is a model that draws one recognisable picture per page; file system behind the libc boundary; all of ppt-rs is real",
    ..BASE
};
