//! P06: an editing history equals the same edits on a list of slides.
use super::edits::*;
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::pkg;
use crate::rt::*;
use crate::zipr::{self, Parts};
use ppt_rs::oxml::{PresentationEditor, PresentationReader, SlideParser};

pub fn snapshot(e: &PresentationEditor) -> Parts {
    god(|| e.package().part_paths().iter().map(|n| (n.to_string(), e.package().get_part(n).unwrap_or(b"").to_vec())).collect())
}
pub fn file(class: &str, what: &str) -> (Vec<u8>, Parts) {
    let b = match get("/work/d.pptx") {
        Some(b) => b,
        None => viol!(class, "{}: no file was written", what),
    };
    let p = read_parts(class, what, &b);
    (b, p)
}
pub enum Edit {
    Add(usize, Option<u32>),
    Insert(usize, Option<u32>),
    Update(usize, Option<u32>),
    Remove(usize),
    Duplicate(usize),
    Move(usize, usize),
}
/// Draws one edit and applies it to the editor and to the list.
pub fn edit(e: &mut PresentationEditor, m: &mut Vec<Item>, next: &mut Uid, rich: bool, step: usize, class: &'static str, hist: &str) -> String {
    let len = m.len();
    let at = |extra: u64| -> usize {
        // in range, one past the end, far out
        match w(10) {
            0 => len + extra as usize,
            1 => len + 1 + w(3) as usize,
            2 if wc(1, 4) => usize::MAX - w(2) as usize,
            _ => w((len as u64 + extra).max(1)) as usize,
        }
    };
    let kind = [0u64, 1, 1, 2, 3, 3, 4, 4, 5, 5][w(10) as usize];
    let before = snapshot(e);
    let (desc, ok, res): (String, bool, Result<(), String>) = match kind {
        0 | 1 | 2 => {
            let i = if kind == 0 { len } else { at((kind == 1) as u64) };
            let (c, link) = content(100 + step, rich, if kind == 2 { len } else { len + 1 }, i);
            let ok = i < len + (kind != 2) as usize && link.map_or(true, |k| k >= 1 && (k as usize) <= len + (kind != 2) as usize);
            let name = ["add", "insert", "update"][kind as usize];
            let r = no_panic(name, || match kind {
                0 => e.add_slide(c.clone()).map(Some),
                1 => e.insert_slide(i, c.clone()).map(Some),
                _ => e.update_slide(i, c.clone()).map(|_| None),
            });
            if let (Ok(Some(p)), true) = (&r, ok) {
                if *p != i {
                    viol!(class, "{}: {} at {} reported position {}", hist, name, i, p);
                }
            }
            let linkdesc = link.map(|k| format!("->{}", k)).unwrap_or_default();
            if ok && r.is_ok() {
                let uid = if kind == 2 {
                    m[i].uid
                } else {
                    *next += 1;
                    *next - 1
                };
                let mut it = item_of(&c, uid, vec![]);
                if kind == 2 {
                    m[i] = it;
                } else {
                    it.jumps = vec![];
                    m.insert(i, it);
                }
                if let Some(k) = link {
                    let u = m[k as usize - 1].uid;
                    m[i].jumps = vec![u];
                }
            }
            (god(|| format!("{}({}{})", name, i as i64, linkdesc)), ok, r.map(|_| ()).map_err(|x| x.to_string()))
        }
        3 => {
            let i = at(0);
            let ok = i < len;
            let r = no_panic("remove", || e.remove_slide(i));
            if ok && r.is_ok() {
                let gone = m.remove(i).uid;
                for x in m.iter_mut() {
                    x.jumps.retain(|j| *j != gone);
                }
            }
            (god(|| format!("remove({})", i as i64)), ok, r.map_err(|x| x.to_string()))
        }
        4 => {
            let i = at(0);
            let ok = i < len;
            let r = no_panic("duplicate", || e.duplicate_slide(i));
            if ok {
                if let Ok(p) = &r {
                    if *p != i + 1 {
                        viol!(class, "{}: duplicate of {} reported position {}", hist, i, p);
                    }
                    let mut it = god(|| m[i].clone());
                    *next += 1;
                    it.uid = *next - 1;
                    m.insert(i + 1, it);
                }
            }
            (god(|| format!("duplicate({})", i as i64)), ok, r.map(|_| ()).map_err(|x| x.to_string()))
        }
        _ => {
            let (a, b) = (at(0), at(0));
            let ok = a < len && b < len;
            let r = no_panic("move", || e.reorder_slide(a, b));
            if ok && r.is_ok() {
                let x = m.remove(a);
                m.insert(b, x);
            }
            (god(|| format!("move({},{})", a as i64, b as i64)), ok, r.map_err(|x| x.to_string()))
        }
    };
    match (&res, ok) {
        (Err(x), true) => viol!(class, "{} then {} is refused: {}", hist, desc, x),
        (Ok(()), false) => viol!(class, "{} then {} on {} slides succeeds", hist, desc, len),
        (Err(_), false) => {
            probe("refused");
            if let Some(d) = diff_parts(&before, &snapshot(e)) {
                viol!(class, "{} then {} fails and changes the presentation: {}", hist, desc, d);
            }
        }
        _ => probe(["add", "insert", "update", "remove", "duplicate", "move"][kind as usize]),
    }
    desc
}
/// The editor's own view of its slides.
fn through_editor(e: &PresentationEditor, m: &[Item], hist: &str) {
    let n = no_panic("slide_count", || e.slide_count());
    if n != m.len() {
        viol!("count", "{}: slide_count is {}, the list has {}", hist, n, m.len());
    }
    let p = snapshot(e);
    let order = match god(|| pkg::slide_order(&p)) {
        Ok(o) => o,
        Err(x) => viol!("unreadable", "{}: {}", hist, x),
    };
    if order.len() == m.len() && n > 0 {
        let i = w(n as u64) as usize;
        let got = no_panic("get_slide", || e.get_slide(i)).map_err(|x| x.to_string());
        let want = SlideParser::parse(&god(|| text(&p, &order[i]))).map_err(|x| x.to_string());
        if god(|| format!("{:?}", got) != format!("{:?}", want)) {
            viol!("get", "{}: get_slide({}) gives another slide: {:?} instead of {:?}", hist, i, got, want);
        }
        let title = m[i].view.texts.first().cloned();
        if let (Ok(g), Some(t)) = (&got, title) {
            // the first text of a generated slide is its title
            if let Some(x) = &g.title {
                if !m[i].view.texts.contains(x) {
                    viol!("get", "{}: slide {} has title {:?}, expected {:?}", hist, i, x, t);
                }
            }
        }
    }
    if no_panic("get_slide", || e.get_slide(m.len())).is_ok() {
        viol!("range", "{}: get_slide({}) of {} slides succeeds", hist, m.len(), m.len());
    }
}
fn through_reader(m: &[Item], p: &Parts, hist: &str) {
    let r = must("reader", PresentationReader::open("/work/d.pptx"));
    if r.slide_count() != m.len() || r.info().slide_count != m.len() {
        viol!("reader", "{}: the reader counts {} / {} slides, the list has {}", hist, r.slide_count(), r.info().slide_count, m.len());
    }
    let order = god(|| pkg::slide_order(p)).unwrap_or_default();
    for i in 0..m.len() {
        let got = r.get_slide(i).map_err(|x| x.to_string());
        let want = SlideParser::parse(&god(|| text(p, &order[i]))).map_err(|x| x.to_string());
        if god(|| format!("{:?}", got) != format!("{:?}", want)) {
            viol!("reader", "{}: slide {} of the reader is another one: {:?} / {:?}", hist, i, got, want);
        }
    }
}

fn run() {
    freeze_clock();
    god(|| sim().fs.mkdir_p("/work"));
    let rich = wc(2, 3);
    let mut next: Uid = 1;
    let fresh = wc(1, 10);
    let mut hist = String::new();
    let (mut m, mut e);
    let mut stored: Option<(Vec<u8>, Vec<Item>)> = None;
    let checks = Checks { content: true, structure: false };
    if fresh {
        m = vec![];
        e = no_panic("new", PresentationEditor::new);
        hist.push_str("new");
    } else {
        let (p, what) = start_deck(rich);
        m = match god(|| model_of(&p, &mut next)) {
            Ok(m) => m,
            Err(x) => viol!("start", "{}", x),
        };
        let v: Vec<(String, Vec<u8>)> = god(|| p.into_iter().collect());
        let mode = w(2);
        let b = god(|| zipr::write(&v, &mut |_| mode == 0));
        put("/work/d.pptx", &b);
        god(|| {
            sim().fs.sync_all();
            stored = Some((b, m.clone()));
            hist = format!("[{}]{} slides", what.trim(), m.len());
        });
        e = must("open", PresentationEditor::open("/work/d.pptx"));
    }
    through_editor(&e, &m, &hist);
    let steps = 1 + w(9) as usize;
    let mut applied = 0;
    for step in 0..=steps {
        let last = step == steps;
        if !last && wc(3, 4) {
            let d = edit(&mut e, &mut m, &mut next, rich, step, "edit", &hist);
            god(|| hist.push_str(&format!(" {}", d)));
            applied += 1;
            through_editor(&e, &m, &hist);
            continue;
        }
        // save, with or without trouble
        audit_clear();
        let trouble = !last && wc(1, 2);
        let before = snapshot(&e);
        let r = if trouble {
            let k = 3 + fdraw(40);
            set_benign(benign_rates());
            let hard = plan_snipe(WRITES, k, wc(1, 2));
            let full = wc(1, 6);
            if full {
                let c = fdraw(60_000);
                god(|| sim().fs.capacity = Some(c));
            }
            arm();
            let r = no_panic("save", || e.save("/work/d.pptx"));
            disarm();
            let _ = hard;
            god(|| sim().fs.capacity = None);
            reset_faults();
            r.map_err(|x| x.to_string())
        } else {
            match no_panic("save", || e.save("/work/d.pptx")) {
                Err(x) => viol!("save", "{}: saving fails: {}", hist, x),
                ok => ok.map_err(|x| x.to_string()),
            }
        };
        if let Some(d) = diff_parts(&before, &snapshot(&e)) {
            viol!("edit", "{}: saving changes the presentation: {}", hist, d);
        }
        match r {
            Ok(()) => {
                god(|| hist.push_str(" save"));
                let (b, p) = file("saved", &hist);
                if let Some((c, d)) = god(|| compare(&p, &m, &checks)) {
                    viol!(c, "{}: {}", hist, d);
                }
                through_reader(&m, &p, &hist);
                stored = Some((b, god(|| m.clone())));
                probe("saved");
            }
            Err(_) => {
                probe("save_failed");
                god(|| hist.push_str(" save!"));
                let now = get("/work/d.pptx");
                let old = stored.as_ref().map(|x| &x.0);
                if now.as_ref() != old {
                    viol!("failed-save", "{}: the failed save leaves {:?} bytes at the path instead of {:?}", hist, now.map(|v| v.len()), old.map(|v| v.len()));
                }
            }
        }
        if !last && stored.is_some() && wc(1, 2) {
            // drop the editor and open the last saved file
            if wc(1, 3) {
                set_benign(benign_rates());
                plan_snipe(READS, 40, wc(1, 2));
                arm();
                let r = no_panic("open", || PresentationEditor::open("/work/d.pptx"));
                disarm();
                reset_faults();
                match r {
                    Ok(x) => e = x,
                    Err(_) => {
                        probe("open_failed");
                        e = must("open", PresentationEditor::open("/work/d.pptx"));
                    }
                }
            } else {
                e = must("open", PresentationEditor::open("/work/d.pptx"));
            }
            m = god(|| stored.as_ref().unwrap().1.clone());
            god(|| hist.push_str(" reopen"));
            through_editor(&e, &m, &hist);
            probe("reopened");
        }
    }
    if applied > 1 {
        nontrivial();
    }
    state(&god(|| hist.split(' ').map(|x| x.split('(').next().unwrap_or("")).collect::<Vec<_>>().join(" ")));
    sample(hist);
}

pub static P: Prop = Prop {
    id: "P06",
    run,
    rule: "a run counts if at least two edits were applied",
    state_measure: "sequence of edits, saves, failed saves and reopenings (kinds, in order) x features of the starting deck",
    stubs: "file system behind the libc boundary; the editor, the generator and the readers of ppt-rs are real",
    ..BASE
};
