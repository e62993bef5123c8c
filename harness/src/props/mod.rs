#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c20")]
pub mod c20;

#[cfg(not(kani))]
pub fn table() -> Vec<crate::sym::Entry> {
    #[allow(unused_mut)]
    let mut t = Vec::new();
    #[cfg(feature = "c01")]
    t.extend(c01::table());
    #[cfg(feature = "c02")]
    t.extend(c02::table());
    #[cfg(feature = "c03")]
    t.extend(c03::table());
    #[cfg(feature = "c04")]
    t.extend(c04::table());
    #[cfg(feature = "c05")]
    t.extend(c05::table());
    #[cfg(feature = "c06")]
    t.extend(c06::table());
    #[cfg(feature = "c07")]
    t.extend(c07::table());
    #[cfg(feature = "c08")]
    t.extend(c08::table());
    #[cfg(feature = "c09")]
    t.extend(c09::table());
    #[cfg(feature = "c10")]
    t.extend(c10::table());
    #[cfg(feature = "c11")]
    t.extend(c11::table());
    #[cfg(feature = "c12")]
    t.extend(c12::table());
    #[cfg(feature = "c13")]
    t.extend(c13::table());
    #[cfg(feature = "c14")]
    t.extend(c14::table());
    #[cfg(feature = "c15")]
    t.extend(c15::table());
    #[cfg(feature = "c16")]
    t.extend(c16::table());
    #[cfg(feature = "c17")]
    t.extend(c17::table());
    #[cfg(feature = "c20")]
    t.extend(c20::table());
    t
}
