use crate::ctx::Ctx;
#[cfg(any(feature = "p01", feature = "p02", feature = "p03"))]
mod hashes;
#[cfg(any(feature = "p05", feature = "p06", feature = "p07", feature = "p08", feature = "p09"))]
mod sym;
#[cfg(any(feature = "p04", feature = "p14", feature = "p15", feature = "p16", feature = "p19", feature = "p20", feature = "p26", feature = "p27"))]
mod net;
#[cfg(any(feature = "p17", feature = "p18", feature = "p19", feature = "p20", feature = "p26", feature = "p27"))]
mod hello;
#[cfg(any(feature = "p13", feature = "p21", feature = "p22", feature = "p23", feature = "p24", feature = "p25", feature = "p19", feature = "p20", feature = "p26", feature = "p27"))]
mod misc;
#[cfg(any(feature = "p10", feature = "p11", feature = "p12"))]
mod ec;
#[cfg(any(feature = "p19", feature = "p20", feature = "p26", feature = "p27"))]
mod conn;
pub fn run(prop: &str, c: &mut Ctx) {
    match prop {
        #[cfg(feature = "p01")]
        "P01" => hashes::p01(c),
        #[cfg(feature = "p02")]
        "P02" => hashes::p02(c),
        #[cfg(feature = "p03")]
        "P03" => hashes::p03(c),
        #[cfg(feature = "p05")]
        "P05" => sym::p05(c),
        #[cfg(feature = "p06")]
        "P06" => sym::p06(c),
        #[cfg(feature = "p07")]
        "P07" => sym::p07(c),
        #[cfg(feature = "p08")]
        "P08" => sym::p08(c),
        #[cfg(feature = "p09")]
        "P09" => sym::p09(c),
        #[cfg(feature = "p04")]
        "P04" => net::p04(c),
        #[cfg(feature = "p14")]
        "P14" => net::p14(c),
        #[cfg(feature = "p15")]
        "P15" => net::p15(c),
        #[cfg(feature = "p16")]
        "P16" => net::p16(c),
        #[cfg(feature = "p17")]
        "P17" => hello::p17(c),
        #[cfg(feature = "p18")]
        "P18" => hello::p18(c),
        #[cfg(feature = "p13")]
        "P13" => misc::p13(c),
        #[cfg(feature = "p21")]
        "P21" => misc::p21(c),
        #[cfg(feature = "p22")]
        "P22" => misc::p22(c),
        #[cfg(feature = "p23")]
        "P23" => misc::p23(c),
        #[cfg(feature = "p24")]
        "P24" => misc::p24(c),
        #[cfg(feature = "p25")]
        "P25" => misc::p25(c),
        #[cfg(feature = "p10")]
        "P10" => ec::p10(c),
        #[cfg(feature = "p11")]
        "P11" => ec::p11(c),
        #[cfg(feature = "p12")]
        "P12" => ec::p12(c),
        #[cfg(feature = "p19")]
        "P19" => conn::p19(c),
        #[cfg(feature = "p20")]
        "P20" => conn::p20(c),
        #[cfg(feature = "p26")]
        "P26" => conn::p26(c),
        #[cfg(feature = "p27")]
        "P27" => conn::p27(c),
        _ => panic!("no replay for {}", prop),
    }
}
