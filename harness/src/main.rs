//! Runtime monitors for the kofft library (one property per invocation).
//! The `pNN` features select which monitors are compiled in (all by default).
#![allow(dead_code)]
mod engines;
mod fw;
mod oracle;
mod p_err;
mod p_fft;
#[cfg(feature = "std")]
mod p_index;
mod p_misc;
#[cfg(feature = "std")]
mod p_par;
mod p_real;
mod p_stack;
mod p_stft;
mod p_trig;
mod p_ub;
#[cfg(feature = "std")]
mod p_vis;
mod p_wave;

use fw::*;

#[global_allocator]
static GLOBAL: Monitor = Monitor;

fn props() -> Vec<(&'static str, fn(&mut Ctx))> {
    let mut v: Vec<(&'static str, fn(&mut Ctx))> = vec![];
    #[cfg(feature = "p01")]
    v.push(("P01", p_fft::p01));
    #[cfg(feature = "p02")]
    v.push(("P02", p_fft::p02));
    #[cfg(feature = "p03")]
    v.push(("P03", p_fft::p03));
    #[cfg(feature = "p04")]
    v.push(("P04", p_fft::p04));
    #[cfg(feature = "p05")]
    v.push(("P05", p_err::p05));
    #[cfg(feature = "p06")]
    v.push(("P06", p_real::p06));
    #[cfg(feature = "p07")]
    v.push(("P07", p_real::p07));
    #[cfg(feature = "p08")]
    v.push(("P08", p_real::p08));
    #[cfg(feature = "p09")]
    v.push(("P09", p_stft::p09));
    #[cfg(feature = "p10")]
    v.push(("P10", p_stft::p10));
    #[cfg(feature = "p11")]
    v.push(("P11", p_stft::p11));
    #[cfg(feature = "p12")]
    v.push(("P12", p_trig::p12));
    #[cfg(feature = "p13")]
    v.push(("P13", p_trig::p13));
    #[cfg(feature = "p14")]
    v.push(("P14", p_trig::p14));
    #[cfg(feature = "p15")]
    v.push(("P15", p_wave::p15));
    #[cfg(feature = "p16")]
    v.push(("P16", p_misc::p16));
    #[cfg(feature = "p17")]
    v.push(("P17", p_misc::p17));
    #[cfg(feature = "p18")]
    v.push(("P18", p_misc::p18));
    #[cfg(feature = "p19")]
    v.push(("P19", p_misc::p19));
    #[cfg(feature = "p20")]
    v.push(("P20", p_misc::p20));
    #[cfg(all(feature = "std", feature = "p21"))]
    v.push(("P21", p_vis::p21));
    #[cfg(all(feature = "std", feature = "p22"))]
    v.push(("P22", p_index::p22));
    #[cfg(all(feature = "std", feature = "p23"))]
    v.push(("P23", p_par::p23));
    #[cfg(feature = "p24")]
    v.push(("P24", p_ub::p24));
    #[cfg(feature = "p26")]
    v.push(("P26", p_stack::p26));
    #[cfg(feature = "p27")]
    v.push(("P27", p_fft::p27));
    #[cfg(feature = "p28")]
    v.push(("P28", p_fft::p28));
    v
}

fn main() {
    drive(props())
}
