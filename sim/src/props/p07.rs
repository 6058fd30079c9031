//! P07: every edited presentation stays a well-formed package.
use super::edits::*;
use super::p06::{edit, file, snapshot};
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::pkg;
use crate::rt::*;
use crate::xmlp::{self, El};
use crate::zipr::{self, Parts};
use ppt_rs::oxml::PresentationEditor;
use std::collections::{BTreeMap, BTreeSet};

/// Parts that no edit of slides has a reason to touch: everything that does
/// not hang on a slide.
fn fixed(p: &Parts) -> Parts {
    let mut slides: BTreeSet<String> = BTreeSet::new();
    let mut todo = pkg::slide_order(p).unwrap_or_default();
    while let Some(n) = todo.pop() {
        if slides.insert(n.clone()) {
            for r in pkg::rels_of(p, &n) {
                if !r.external && !["slide", "slideLayout", "slideMaster", "notesMaster", "handoutMaster", "theme"].contains(&r.kind()) {
                    todo.push(r.target);
                }
            }
        }
    }
    p.iter()
        .filter(|(n, _)| !slides.contains(*n) && pkg::rels_source(n).map_or(true, |s| !slides.contains(&s)) && !["[Content_Types].xml", PRES, PRES_RELS, "docProps/app.xml"].contains(&n.as_str()))
        .map(|(n, d)| (n.clone(), d.clone()))
        .collect()
}
/// presentation.xml without the lists that name slides, with relationship ids
/// replaced by what they lead to.
fn frame(p: &Parts) -> Result<Vec<String>, String> {
    let e = xmlp::parse(p.get(PRES).ok_or("no presentation.xml")?)?;
    let rv = pkg::rels_of(p, PRES);
    fn go(e: &El, rv: &[pkg::Rel], depth: usize, out: &mut Vec<String>) {
        let l = e.name.rsplit(':').next().unwrap_or("");
        if ["sldIdLst", "custShowLst", "notesMasterIdLst", "sectionLst"].contains(&l) {
            return;
        }
        let mut a: Vec<String> = e
            .attrs
            .iter()
            .filter(|(k, _)| !k.starts_with("xmlns"))
            .map(|(k, v)| match rv.iter().find(|r| k.starts_with("r:") && &r.id == v) {
                Some(r) => format!("{}->{} {}", k, r.kind(), r.target),
                None => format!("{}={}", k, v),
            })
            .collect();
        a.sort();
        out.push(format!("{}{} {:?}", " ".repeat(depth), e.name, a));
        for c in e.els() {
            go(c, rv, depth + 1, out);
        }
    }
    let mut out = vec![];
    go(&e, &rv, 0, &mut out);
    Ok(out)
}
/// References of presentation.xml that lead nowhere.
fn stray(p: &Parts) -> Option<String> {
    let e = xmlp::parse(p.get(PRES)?).ok()?;
    let rv = pkg::rels_of(p, PRES);
    let mut ids = BTreeSet::new();
    let mut bad = None;
    if let Some(l) = e.find("sldIdLst") {
        for s in l.els() {
            ids.insert(s.attr("id").unwrap_or("").to_string());
        }
    }
    e.walk(&mut |x| {
        for (k, v) in &x.attrs {
            if k.starts_with("r:") && !rv.iter().any(|r| &r.id == v) {
                bad = Some(format!("{} refers to relationship {} that does not exist", x.name, v));
            }
        }
        if x.name == "p14:sldId" && !ids.contains(x.attr("id").unwrap_or("")) {
            bad = Some(format!("a section names slide {:?} that is not listed", x.attr("id")));
        }
    });
    bad
}

struct Base {
    fixed: Parts,
    types: BTreeMap<String, Option<String>>,
    frame: Vec<String>,
    rels: Vec<(String, String)>,
    notes_master: bool,
}
fn base_of(p: &Parts) -> Base {
    let fixed = fixed(p);
    let t = pkg::types(p);
    let types = fixed.keys().filter(|n| !n.ends_with(".rels")).map(|n| (n.clone(), t.as_ref().ok().and_then(|t| pkg::content_type(t, n)))).collect();
    let mut rels: Vec<(String, String)> = pkg::rels_of(p, PRES).into_iter().filter(|r| r.kind() != "slide").map(|r| (r.kind().to_string(), r.target)).collect();
    rels.sort();
    Base {
        types,
        frame: match frame(p) {
            Ok(f) => f,
            Err(e) => viol!("start", "{}", e),
        },
        notes_master: rels.iter().any(|r| r.0 == "notesMaster"),
        rels,
        fixed,
    }
}
fn verify(p: &Parts, m: &[Item], b: &Base, hist: &str) {
    if let Some(e) = god(|| pkg::check(p)).first() {
        viol!("inconsistent", "{}: {}", hist, e);
    }
    if let Some(e) = god(|| stray(p)) {
        viol!("inconsistent", "{}: {}", hist, e);
    }
    if let Some((c, d)) = god(|| compare(p, m, &Checks { content: true, structure: true })) {
        viol!(c, "{}: {}", hist, d);
    }
    for (n, d) in &b.fixed {
        match p.get(n) {
            None => viol!("lost", "{}: part {} is gone", hist, n),
            Some(x) if x != d => viol!("changed", "{}: part {}, which belongs to no slide, is changed: {}", hist, n, god(|| diff_bytes(d, x))),
            _ => {}
        }
    }
    let t = god(|| pkg::types(p));
    for (n, want) in &b.types {
        let got = t.as_ref().ok().and_then(|t| pkg::content_type(t, n));
        if &got != want {
            viol!("changed", "{}: part {} has content type {:?} instead of {:?}", hist, n, got, want);
        }
    }
    let mut f = god(|| frame(p)).unwrap_or_default();
    if f != b.frame {
        god(|| f.retain(|x| !b.frame.contains(x)));
        viol!("frame", "{}: presentation.xml is changed outside the slide list; new: {:?}", hist, f);
    }
    let mut rels: Vec<(String, String)> = god(|| pkg::rels_of(p, PRES).into_iter().filter(|r| r.kind() != "slide").map(|r| (r.kind().to_string(), r.target)).collect());
    rels.sort();
    if !b.notes_master {
        rels.retain(|r| r.0 != "notesMaster");
    }
    if rels != b.rels {
        viol!("frame", "{}: the presentation has relationships {:?} instead of {:?}", hist, rels, b.rels);
    }
}

fn run() {
    freeze_clock();
    god(|| sim().fs.mkdir_p("/work"));
    let mut next: Uid = 1;
    let mut hist = String::new();
    let (mut m, mut e);
    let mut base;
    if wc(1, 16) {
        m = vec![];
        e = no_panic("new", PresentationEditor::new);
        base = god(|| base_of(&snapshot(&e)));
        hist.push_str("new");
    } else {
        let (p, what) = start_deck(true);
        m = match god(|| model_of(&p, &mut next)) {
            Ok(m) => m,
            Err(x) => viol!("start", "{}", x),
        };
        base = god(|| base_of(&p));
        let v: Vec<(String, Vec<u8>)> = god(|| p.into_iter().collect());
        let b = god(|| zipr::write(&v, &mut |_| false));
        put("/work/d.pptx", &b);
        god(|| hist = format!("[{}]{} slides", what.trim(), m.len()));
        e = must("open", PresentationEditor::open("/work/d.pptx"));
    }
    let steps = 1 + w(8) as usize;
    for step in 0..steps {
        let d = edit(&mut e, &mut m, &mut next, true, step, "edit", &hist);
        god(|| hist.push_str(&format!(" {}", d)));
        if wc(1, 4) || step + 1 == steps {
            // the save may be interrupted, even refused; what it says it wrote is checked
            let trouble = wc(1, 3);
            if trouble {
                set_benign(benign_rates());
                plan_snipe(WRITES, 3 + fdraw(40), wc(1, 2));
                arm();
            }
            let r = no_panic("save", || e.save("/work/d.pptx"));
            disarm();
            reset_faults();
            if r.is_err() {
                if !trouble {
                    viol!("save", "{}: saving fails: {}", hist, r.err().unwrap());
                }
                probe("save_failed");
                must("save", e.save("/work/d.pptx"));
            }
            let (_, p) = file("saved", &hist);
            verify(&p, &m, &base, &hist);
            god(|| hist.push_str(" save"));
            probe("saved");
            if step > 0 {
                nontrivial();
            }
            if !m.is_empty() && !base.notes_master {
                // a notes master, once added, has to stay
                base.notes_master = god(|| pkg::rels_of(&p, PRES).iter().any(|r| r.kind() == "notesMaster"));
                if base.notes_master {
                    base = god(|| base_of(&p));
                }
            }
            if wc(1, 3) {
                e = must("open", PresentationEditor::open("/work/d.pptx"));
                god(|| hist.push_str(" reopen"));
            }
        }
    }
    state(&god(|| hist.split(' ').map(|x| x.split('(').next().unwrap_or("")).collect::<Vec<_>>().join(" ")));
    sample(hist);
}

pub static P: Prop = Prop {
    id: "P07",
    run,
    rule: "a run counts if a presentation with at least two edits was saved and checked",
    state_measure: "sequence of edits, saves and reopenings (kinds, in order) x features of the starting deck",
    stubs: "file system behind the libc boundary; the editor, the generator and the readers of ppt-rs are real",
    ..BASE
};
