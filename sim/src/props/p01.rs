//! P01: streaming to a writer is all-or-error.
use super::util::*;
use super::*;
use crate::ctx::*;
use crate::gen;
use ppt_rs::generator::*;
use std::io::{BufWriter, Seek, Write};

pub struct VecSource(pub Vec<SlideContent>);
impl LazySlideSource for VecSource {
    fn slide_count(&self) -> usize {
        self.0.len()
    }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> {
        self.0.get(i).cloned()
    }
}

enum Job {
    Count(String, usize),
    Content(gen::Deck),
    Lazy(gen::Deck),
    Pack(crate::zipr::Parts),
}
impl Job {
    fn name(&self) -> &'static str {
        match self {
            Job::Count(..) => "create_pptx_to_writer",
            Job::Content(_) => "create_pptx_with_content_to_writer",
            Job::Lazy(_) => "create_pptx_lazy_to_writer",
            Job::Pack(_) => "Package::save_writer",
        }
    }
    fn go<W: Write + Seek>(&self, w: W) -> Result<(), String> {
        match self {
            Job::Count(t, n) => e2s(create_pptx_to_writer(w, t, *n)).and_then(|mut w| e2s(w.flush())),
            Job::Content(d) => {
                e2s(create_pptx_with_content_to_writer(w, &d.title, &d.slides, d.settings.clone())).and_then(|mut w| e2s(w.flush()))
            }
            Job::Lazy(d) => e2s(create_pptx_lazy_to_writer(w, &d.title, Box::new(VecSource(d.slides.clone())), d.settings.clone()))
                .and_then(|mut w| e2s(w.flush())),
            Job::Pack(p) => {
                let mut k = ppt_rs::opc::Package::new();
                for (n, b) in p {
                    k.add_part(n.clone(), b.clone());
                }
                e2s(k.save_writer(w))
            }
        }
    }
    fn run(&self, plan: &PlanRef, buf: Option<usize>) -> (Result<Result<(), String>, String>, Vec<u8>) {
        let w = FaultyWriter::new(plan);
        let data = w.data.clone();
        let r = match buf {
            None => call(|| self.go(w)),
            Some(n) => call(|| self.go(BufWriter::with_capacity(n, w))),
        };
        let d = data.borrow().clone();
        (r, d)
    }
}

fn run() {
    freeze_clock();
    gen::HOSTILE.with(|h| h.set(wc(1, 3)));
    let job = match w(4) {
        0 => Job::Content(gen::deck(&gen::FULL)),
        1 => Job::Lazy(gen::deck(&gen::FULL)),
        2 => Job::Count(gen::text("count", false), w(6) as usize),
        _ => {
            let d = gen::deck(&gen::FULL);
            let b = d.build().unwrap_or_default();
            Job::Pack(read_parts("build", "in-memory build", &b))
        }
    };
    let buf = [None, Some(1 << 13), Some(1 << 20), Some(256)][w(4) as usize];
    let name = job.name();
    sample(god(|| format!("{} buffered {:?}", name, buf)));
    // the in-memory build of the same input
    let want = match &job {
        Job::Count(t, n) => read_parts("build", "create_pptx", &e2s(create_pptx(t, *n)).unwrap_or_default()),
        Job::Content(d) | Job::Lazy(d) => read_parts("build", "create_pptx_with_settings", &d.build().unwrap_or_default()),
        Job::Pack(p) => god(|| p.clone()),
    };
    // fault-free run: how many calls there are, and that the result is right
    let plan = io_plan();
    let (r, d) = job.run(&plan, buf);
    let r = match r {
        Ok(r) => r,
        Err(m) => viol!("panic", "{} without faults panicked: {}", name, m),
    };
    if let Err(e) = r {
        viol!("faultfree-error", "{} without faults: {}", name, e);
    }
    let p = read_parts("faultfree", name, &d);
    let lazy = matches!(job, Job::Lazy(_));
    if let (Some(x), false) = (diff_parts(&want, &p), lazy) {
        viol!("parts", "{} differs from the in-memory build: {}", name, x);
    }
    if let Some(e) = god(|| crate::pkg::check(&p)).first() {
        viol!("invalid", "{} without faults wrote an inconsistent package: {}", name, e);
    }
    if let Job::Content(d) | Job::Lazy(d) = &job {
        if let Some(e) = gen::lacks(d, &p) {
            viol!("incomplete", "{} without faults: {}", name, e);
        }
    }
    let ops = plan.borrow().ops;
    let base = p;

    let plan = io_plan();
    plan_benign(&plan);
    let hard = plan_hard(&plan, ops + ops / 4);
    state(&god(|| format!("{} {:?} {:?}", name, buf, plan.borrow().hard_at.first().map(|h| (h.0 * 40 / ops.max(1), h.1)))));
    let (r, d) = job.run(&plan, buf);
    let pl = god(|| plan.borrow().clone());
    let r = match r {
        Ok(r) => r,
        Err(m) => viol!("panic", "{} under {:?} panicked: {}", name, pl.fired, m),
    };
    if !pl.fired.is_empty() || pl.benign > 0 {
        nontrivial();
    }
    let _ = hard;
    match r {
        Ok(()) => {
            probe("succeeded");
            if !pl.fired.is_empty() {
                viol!("false-success", "{} returned success although the writer failed: {:?}", name, pl.fired);
            }
            let p = read_parts("incomplete", name, &d);
            if let Some(x) = diff_parts(&base, &p) {
                viol!("altered", "{}: short or interrupted writes changed the result: {}", name, x);
            }
        }
        Err(e) => {
            probe("failed");
            if pl.fired.is_empty() {
                viol!("benign-failure", "{} failed although every write was only short or interrupted: {}", name, e);
            }
        }
    }
}

pub static P: Prop = Prop {
    id: "P01",
    run,
    rule: "a run counts if at least one write, flush or seek of the writer was failed, shortened or interrupted",
    state_measure: "entry point x writer buffering x (position of the hard fault in fortieths of the call, kind of the fault)",
    stubs: "the caller's writer is the simulated faulty stream; all of ppt-rs, zip and flate2 is real",
    ..BASE
};
