pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    /// seconds of search in the quick tier
    pub secs: u64,
    pub min_runs: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub state_measure: &'static str,
    pub assumptions: &'static [&'static str],
    pub stubs: &'static str,
    pub warm: Option<fn()>,
}
pub const BASE: Prop = Prop {
    id: "",
    run: || {},
    secs: 45,
    min_runs: 200,
    level: "exploration",
    rule: "",
    state_measure: "",
    assumptions: &[
        "the simulated libc surface behaves like Linux for the calls the library makes",
        "a clean batch of runs is evidence, not proof",
    ],
    stubs: "file system, clock, entropy, thread scheduling (all simulated behind the libc boundary)",
    warm: None,
};
pub mod util;
pub mod web;
mod p13;
mod p14;
mod p15;
mod p16;
mod p17;
mod p18;
mod texts;
mod p21;
mod p22;
mod p23;
mod p24;
pub mod ops;
pub mod edits;
pub mod p06;
mod p07;
mod p08;
mod p01;
mod p02;
mod p03;
mod p04;
pub mod p05;
pub mod converters;
mod p09;
pub mod p10;
mod p11;
mod p12;
mod p19;
mod p20;
mod smoke;
pub static PROPS: &[&Prop] = &[&smoke::P, &p01::P, &p02::P, &p03::P, &p04::P, &p05::P, &p06::P, &p07::P, &p08::P, &p09::P, &p10::P, &p11::P, &p12::P, &p13::P, &p14::P, &p15::P, &p16::P,
    &p17::P, &p18::P, &p19::P, &p20::P, &p21::P, &p22::P, &p23::P, &p24::P];
pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().copied().find(|p| p.id == id)
}
