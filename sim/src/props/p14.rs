//! P14: lazy generation equals eager generation.
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use crate::pkg;
use crate::rt::*;
use ppt_rs::generator::*;
use std::cell::RefCell;
use std::rc::Rc;

/// How a source departs from serving the same slides always.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Quirk {
    None,
    /// never supplies this slide
    Missing(usize),
    /// supplies nothing at this request
    Fails(usize),
    /// serves another version of a slide from this request on
    Changes(usize, usize),
    /// announces another number of slides from this question on
    Count(usize, usize),
    /// misreports notes and charts in the optional hints
    Lies,
    /// slides come from files, whose reads fail
    Files,
}

#[derive(Default)]
struct Log {
    requests: usize,
    counts: usize,
    order: Vec<usize>,
    refused: Vec<usize>,
    served: Vec<(usize, bool)>,
}
struct Source {
    slides: Vec<SlideContent>,
    other: Vec<SlideContent>,
    quirk: Quirk,
    log: Rc<RefCell<Log>>,
}
impl LazySlideSource for Source {
    fn slide_count(&self) -> usize {
        let mut l = self.log.borrow_mut();
        l.counts += 1;
        match self.quirk {
            Quirk::Count(k, n) if l.counts > k => n,
            _ => self.slides.len(),
        }
    }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> {
        let k = god(|| {
            let mut l = self.log.borrow_mut();
            l.requests += 1;
            l.order.push(i);
            crate::rt::log("slide_request", i as u64, l.requests as u64);
            l.requests
        });
        let refuse = |l: &Rc<RefCell<Log>>| {
            god(|| l.borrow_mut().refused.push(i));
            None
        };
        match self.quirk {
            Quirk::Missing(m) if m == i => return refuse(&self.log),
            Quirk::Fails(m) if m == k => return refuse(&self.log),
            Quirk::Changes(at, s) if s == i && k >= at => {
                god(|| self.log.borrow_mut().served.push((i, true)));
                return self.other.get(i).cloned();
            }
            Quirk::Files => {
                // the storage behind the source
                let p = god(|| format!("/src/slide{}", i));
                match std::fs::read(&p) {
                    Ok(b) if b == god(|| format!("slide {}", i)).as_bytes() => {}
                    _ => return refuse(&self.log),
                }
            }
            _ => {}
        }
        god(|| self.log.borrow_mut().served.push((i, false)));
        match self.slides.get(i) {
            Some(s) => Some(s.clone()),
            None => refuse(&self.log),
        }
    }
    fn slide_has_notes(&self, i: usize) -> bool {
        if self.quirk == Quirk::Lies {
            return i % 2 == 0;
        }
        self.slide_features(i).map(|f| f.0).unwrap_or(false)
    }
    fn slide_chart_count(&self, i: usize) -> usize {
        if self.quirk == Quirk::Lies {
            return 3;
        }
        self.slide_features(i).map(|f| f.1).unwrap_or(0)
    }
}

fn run() {
    freeze_clock();
    gen::HOSTILE.with(|h| h.set(wc(1, 4)));
    god(|| {
        for d in ["/tmp", "/work", "/src", "/in"] {
            sim().fs.mkdir_p(d);
        }
    });
    let o = gen::Opt { max_slides: [1, 3, 5, 5][w(4) as usize], ..gen::FULL };
    let mut deck = gen::deck(&o);
    if wc(1, 25) {
        deck.slides.clear();
    }
    let n = deck.slides.len();
    if wc(1, 3) {
        // with a template
        let (p, _) = super::p24::template();
        let v: Vec<(String, Vec<u8>)> = god(|| p.into_iter().collect());
        put("/in/template.pptx", &god(|| crate::zipr::write(&v, &mut |_| false)));
        let mut s = deck.settings.clone().unwrap_or_default();
        s.template_path = Some("/in/template.pptx".into());
        deck.settings = Some(s);
    }
    let other: Vec<SlideContent> = (0..n).map(|i| match w(8) {
        // hardly another slide
        0 | 1 => deck.slides[i].clone().add_bullet("one more"),
        2 => deck.slides[i].clone().add_bullet("one more").add_image(gen::image()),
        3 => {
            let mut s = deck.slides[i].clone();
            s.images.pop();
            if wc(1, 2) {
                s = s.add_bullet("one more").notes("other notes");
            }
            s
        }
        4 => {
            let mut s = deck.slides[i].clone().add_chart(gen::chart());
            s.images.reverse();
            s
        }
        _ => gen::slide(i + 50, &o),
    }).collect();
    let eager = match no_panic("eager build", || deck.build()) {
        Ok(b) => b,
        Err(e) => viol!("eager", "eager build failed: {}", e),
    };
    let want = read_parts("package", "eager build", &eager);
    let log: Rc<RefCell<Log>> = god(Default::default);
    let mut quirk = Quirk::None;
    let mut rfaults = vec![];
    let mk = |q: Quirk, log: &Rc<RefCell<Log>>| Box::new(Source { slides: deck.slides.clone(), other: other.clone(), quirk: q, log: log.clone() });
    let go = |q: Quirk| e2s(create_pptx_lazy_to_writer(std::io::Cursor::new(vec![]), &deck.title, mk(q, &log), deck.settings.clone())).map(|c| c.into_inner());
    // how often the generator asks is its own business: measure it
    let first = no_panic("lazy build", || go(Quirk::None));
    let asked = god(|| log.borrow().requests);
    let counted = god(|| log.borrow().counts);
    check(&first, &want, Quirk::None, &[], "steady source");
    if n > 0 {
        quirk = match w(7) {
            0 => Quirk::Missing(w(n as u64) as usize),
            1 | 2 => Quirk::Fails(1 + fdraw(asked as u64) as usize),
            3 | 4 => Quirk::Changes(1 + fdraw(asked as u64) as usize, w(n as u64) as usize),
            5 => Quirk::Count(fdraw(counted as u64 + 1) as usize, [n + 1, n - 1, 2 * n][w(3) as usize]),
            _ if wc(1, 4) => Quirk::Lies,
            _ => Quirk::Files,
        };
        god(|| *log.borrow_mut() = Log::default());
        if quirk == Quirk::Files {
            for i in 0..n {
                put(&god(|| format!("/src/slide{}", i)), god(|| format!("slide {}", i)).as_bytes());
            }
            let filter = || -> Option<Box<dyn Fn(Call, &str) -> bool>> { Some(Box::new(|_, p: &str| p.starts_with("/src/"))) };
            let (_, c) = measure(READS, filter(), || go(Quirk::Files));
            god(|| *log.borrow_mut() = Log::default());
            plan_snipe(READS, c, wc(1, 4));
            god(|| sim().faults.filter = filter());
            set_benign(benign_rates());
            arm();
        }
        let r = no_panic("lazy build", || go(quirk));
        disarm();
        rfaults = fired();
        god(reset_faults);
        let l = god(|| log.take());
        let bad = !l.refused.is_empty() || matches!(quirk, Quirk::Changes(..) | Quirk::Count(..));
        if bad {
            nontrivial();
        }
        state(&god(|| format!("{:?} {} {} {}", quirk, n, r.is_ok(), want.len())));
        sample(god(|| format!("{} quirk {:?} asked {} times, refused {:?}, faults {:?}: {}", deck.describe(), quirk, l.requests, l.refused, rfaults, r.is_ok())));
        if !l.refused.is_empty() {
            if r.is_ok() {
                viol!("missing-slide", "the source supplied no slide {:?} (request {} of {}), yet generation succeeded", l.refused[0], l.order.iter().position(|x| *x == l.refused[0]).unwrap_or(0) + 1, l.requests);
            }
            probe("refused");
        } else if !bad {
            check(&r, &want, quirk, &l.order, "source");
        } else if let Ok(b) = &r {
            mixed(b, &deck, &other, &l);
        } else {
            probe("inconsistent source rejected");
        }
    } else {
        state("no slides");
    }
    // the same source content again, after everything that went wrong
    god(|| *log.borrow_mut() = Log::default());
    let again = no_panic("lazy build", || go(Quirk::None));
    check(&again, &want, quirk, &[], "steady source, afterwards");
}

fn check(r: &Result<Vec<u8>, String>, want: &crate::zipr::Parts, q: Quirk, order: &[usize], when: &str) {
    let b = match r {
        Ok(b) => b,
        Err(e) => viol!("unexpected-error", "{} {:?}: lazy generation failed where eager generation works: {} (requests {:?})", when, q, e, order),
    };
    let got = read_parts("package", "lazy build", b);
    if let Some(d) = god(|| diff_parts(&unordered(want), &unordered(&got))) {
        viol!("differs", "{} {:?}: lazy and eager packages differ: {}", when, q, d);
    }
    if let Some(e) = god(|| pkg::check(&got)).first() {
        viol!("inconsistent", "{} {:?}: {}", when, q, e);
    }
}

/// Lists whose order means nothing, sorted.
fn unordered(p: &crate::zipr::Parts) -> crate::zipr::Parts {
    p.iter()
        .map(|(n, d)| {
            if n == "[Content_Types].xml" || n.ends_with(".rels") {
                if let Ok(e) = crate::xmlp::parse(d) {
                    let mut v: Vec<String> = e.els().map(|x| format!("{} {:?}", x.name, x.attrs)).collect();
                    v.sort();
                    return (n.clone(), format!("{} {:?} {:#?}", e.name, e.attrs, v).into_bytes());
                }
            }
            (n.clone(), d.clone())
        })
        .collect()
}

/// A source that changed its mind: each slide must be one of its versions.
fn mixed(b: &[u8], deck: &gen::Deck, other: &[SlideContent], l: &Log) {
    let parts = read_parts("package", "lazy build", b);
    if let Some(e) = god(|| pkg::check(&parts)).first() {
        viol!("inconsistent", "the source changed during generation: {}", e);
    }
    let got = match god(|| pkg::deck_view(&parts)) {
        Ok(v) => v,
        Err(e) => viol!("inconsistent", "the source changed during generation: {}", e),
    };
    let view = |s: &[SlideContent]| {
        let d = gen::Deck { title: deck.title.clone(), slides: s.to_vec(), settings: deck.settings.clone() };
        let b = must("eager build", d.build());
        let p = read_parts("package", "eager build", &b);
        god(|| pkg::deck_view(&p)).unwrap_or_default()
    };
    let (a, o) = (view(&deck.slides), view(other));
    if got.len() > a.len() {
        viol!("invented", "{} slides although only {} exist", got.len(), a.len());
    }
    for (i, v) in got.iter().enumerate() {
        if *v != a[i] && *v != o[i] {
            viol!("mixed", "slide {} is none of the versions its source served: {:?} (served {:?})", i + 1, v, l.served);
        }
    }
    probe("changed source accepted");
}

pub static P: Prop = Prop {
    id: "P14",
    run,
    rule: "a run counts if the source failed to supply a slide, changed a slide or changed its count at a request chosen by the fault stream",
    state_measure: "kind, position and request of the source's failure x number of slides and parts x outcome",
    stubs: "the slide source is a model driven by the fault stream, in some runs backed by simulated files; all of ppt-rs is real",
    ..BASE
};
