use super::*;
use crate::ctx::*;
use crate::gen;
fn run() {
    let d = gen::deck(&gen::FULL);
    sample(d.describe());
    let b = d.build().unwrap();
    std::fs::write("/work/a.pptx", &b).unwrap();
    set_benign(benign_rates());
    arm();
    let b2 = std::fs::read("/work/a.pptx").unwrap();
    disarm();
    if b != b2 {
        viol!("diff", "read back differs");
    }
    let p = god(|| crate::zipr::read(&b2)).unwrap();
    for e in god(|| crate::pkg::check(&p)) {
        probe(&god(|| e.split(':').next().unwrap().to_string()));
        god(|| crate::rt::note(&e));
    }
    let h: Vec<_> = (0..3)
        .map(|i| std::thread::spawn(move || { let m = std::sync::Arc::new(std::sync::Mutex::new(i)); let v = *m.lock().unwrap(); v }))
        .collect();
    let r: Vec<i32> = h.into_iter().map(|h| h.join().unwrap()).collect();
    assert_eq!(r, [0, 1, 2]);
    nontrivial();
}
pub static P: Prop = Prop { id: "SMOKE", run, secs: 5, ..BASE };
