//! Source of symbolic (Kani) or recorded (native replay) values.

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn usize() -> usize {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    thread_local!(pub static VALS: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new()));

    fn take(n: usize) -> [u8; 8] {
        let v = VALS.with(|q| q.borrow_mut().pop_front()).unwrap_or_default();
        let mut b = [0; 8];
        for i in 0..n.min(v.len()) {
            b[i] = v[i];
        }
        b
    }
    pub fn u8() -> u8 {
        take(1)[0]
    }
    pub fn usize() -> usize {
        usize::from_le_bytes(take(8))
    }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY: assumption not met");
            std::process::exit(4);
        }
    }
}

pub use imp::*;

/// Symbolic value in `0..=max`.
pub fn upto(max: usize) -> usize {
    let x = u8() as usize;
    assume(x <= max);
    x
}

/// Symbolic value in `lo..=hi`.
pub fn within(lo: usize, hi: usize) -> usize {
    let x = u8() as usize;
    assume(lo <= x && x <= hi);
    x
}

/// Symbolic value in `-max..=max`.
pub fn signed(max: isize) -> isize {
    let x = u8() as i8 as isize;
    assume(-max <= x && x <= max);
    x
}

pub fn any_bool() -> bool {
    u8() & 1 == 1
}

/// End of a `holds` harness: witness that the end can be reached.
pub fn done() {
    #[cfg(kani)]
    kani::cover!(true, "REACHED");
}

/// Point just before the call that must panic: witness that it can be reached.
pub fn before() {
    #[cfg(kani)]
    kani::cover!(true, "REACHED");
    #[cfg(not(kani))]
    BEFORE.store(true, std::sync::atomic::Ordering::Relaxed);
}

#[cfg(not(kani))]
pub static BEFORE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Point after the call that must panic: must not be reached.
pub fn returned() {
    #[cfg(kani)]
    assert!(false, "RETURNED");
    #[cfg(not(kani))]
    {
        println!("REPLAY: returned without panicking");
        std::process::exit(3);
    }
}

/// Replaces `std::fmt::format` in C15, where it is used for the text of errors.
pub fn no_text(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}

/// Declares harnesses. `holds`: no panic, no undefined behaviour and all assertions hold for
/// every input. `panics`: for every input that satisfies the assumptions the call panics.
#[macro_export]
macro_rules! harnesses {
    ($($kind:ident $tier:ident $name:ident [$unwind:literal] $body:block)*) => {
        $(
            $crate::harness_fn!($kind $tier $name [$unwind] $body);
        )*
        #[cfg(not(kani))]
        pub fn table() -> Vec<$crate::sym::Entry> {
            vec![$($crate::sym::Entry {
                name: concat!(module_path!(), "::", stringify!($name)),
                kind: stringify!($kind),
                tier: stringify!($tier),
                unwind: $unwind,
                run: || { $crate::harness_body!($kind $body); },
            }),*]
        }
    };
}

#[macro_export]
macro_rules! harness_fn {
    (holds quick $name:ident [$unwind:literal] $body:block) => {
        #[cfg(all(kani, feature = "holds"))]
        #[kani::proof]
        #[cfg_attr(feature = "c15", kani::stub(std::fmt::format, crate::sym::no_text))]
        #[kani::unwind($unwind)]
        pub fn $name() {
            $crate::harness_body!(holds $body);
        }
    };
    (panics quick $name:ident [$unwind:literal] $body:block) => {
        #[cfg(all(kani, feature = "panics"))]
        #[kani::proof]
        #[cfg_attr(feature = "c15", kani::stub(std::fmt::format, crate::sym::no_text))]
        #[kani::unwind($unwind)]
        pub fn $name() {
            $crate::harness_body!(panics $body);
        }
    };
    (holds thorough $name:ident [$unwind:literal] $body:block) => {
        #[cfg(all(kani, feature = "holds", feature = "thorough"))]
        #[kani::proof]
        #[cfg_attr(feature = "c15", kani::stub(std::fmt::format, crate::sym::no_text))]
        #[kani::unwind($unwind)]
        pub fn $name() {
            $crate::harness_body!(holds $body);
        }
    };
    (panics thorough $name:ident [$unwind:literal] $body:block) => {
        #[cfg(all(kani, feature = "panics", feature = "thorough"))]
        #[kani::proof]
        #[cfg_attr(feature = "c15", kani::stub(std::fmt::format, crate::sym::no_text))]
        #[kani::unwind($unwind)]
        pub fn $name() {
            $crate::harness_body!(panics $body);
        }
    };
}

#[macro_export]
macro_rules! harness_body {
    (holds $body:block) => {
        $body
        $crate::sym::done();
    };
    (panics $body:block) => {
        $body
        $crate::sym::returned();
    };
}

pub struct Entry {
    pub name: &'static str,
    pub kind: &'static str,
    pub tier: &'static str,
    pub unwind: u32,
    pub run: fn(),
}

/// Case split: runs `body` with `var` bound to a constant for each value of the range, under
/// the condition that the symbolic value equals that constant.
#[macro_export]
macro_rules! split {
    ($var:ident in $lo:literal ..= $hi:literal, $body:block) => {{
        let sel = $crate::sym::within($lo, $hi);
        for $var in $lo..=$hi {
            if sel == $var $body
        }
    }};
}
