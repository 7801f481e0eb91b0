/// `fn_check!(harness, [function], |arguments| requires precondition; call => |result| specification)`
///
/// With `--cfg kani_contracts`, the harness has the verifier check the contract that is attached to
/// the function, frame condition included. Without it, the harness asserts the same specification
/// after a call: its counterexamples can be replayed.
macro_rules! fn_check {
    ($name:ident, [$($target:tt)*], |$($arg:ident : $ty:ty),*| requires $pre:expr; $call:expr => |$r:ident| $post:expr) => {
        #[cfg(not(kani_contracts))]
        #[kani::proof]
        fn $name() {
            $(#[allow(unused_mut)] let mut $arg: $ty = kani::any();)*
            kani::assume($pre);
            kani::cover!(true, "the precondition is satisfiable");
            #[allow(unused_variables)]
            let $r = $call;
            assert!($post, concat!(stringify!($($target)*), " meets its specification"));
        }
        #[cfg(kani_contracts)]
        #[kani::proof_for_contract($($target)*)]
        fn $name() {
            $(#[allow(unused_mut)] let mut $arg: $ty = kani::any();)*
            let _ = $call;
        }
    };
    ($name:ident, [$($target:tt)*], |$($arg:ident : $ty:ty),*| $call:expr => |$r:ident| $post:expr) => {
        fn_check!($name, [$($target)*], |$($arg: $ty),*| requires true; $call => |$r| $post);
    };
    // The first argument is changed by the call. `old` is its value before.
    ($name:ident, [$($target:tt)*], mut $this:ident : $tty:ty, |$old:ident $(, $arg:ident : $ty:ty)*| requires $pre:expr; $call:expr => |$r:ident| $post:expr) => {
        #[cfg(not(kani_contracts))]
        #[kani::proof]
        fn $name() {
            let mut $this: $tty = kani::any();
            $(let $arg: $ty = kani::any();)*
            kani::assume($pre);
            kani::cover!(true, "the precondition is satisfiable");
            let $old: $tty = unsafe { core::ptr::read(&$this) };
            #[allow(unused_variables)]
            let $r = $call;
            assert!($post, concat!(stringify!($($target)*), " meets its specification"));
        }
        #[cfg(kani_contracts)]
        #[kani::proof_for_contract($($target)*)]
        fn $name() {
            let mut $this: $tty = kani::any();
            $(let $arg: $ty = kani::any();)*
            let _ = $call;
        }
    };
    ($name:ident, [$($target:tt)*], mut $this:ident : $tty:ty, |$old:ident $(, $arg:ident : $ty:ty)*| $call:expr => |$r:ident| $post:expr) => {
        fn_check!($name, [$($target)*], mut $this: $tty, |$old $(, $arg: $ty)*| requires true; $call => |$r| $post);
    };
}

/// A harness of its own: functions that the verifier cannot attach a contract to (generic trait
/// methods, trait impls), and consequences of several contracts.
macro_rules! lemma {
    ($(#[$attr:meta])* $name:ident, $body:block) => {
        #[cfg(not(kani_contracts))]
        #[kani::proof]
        $(#[$attr])*
        fn $name() {
            $body;
            kani::cover!(true, "the end is reachable");
        }
    };
}

/// As `lemma!`, without the question whether the end is reachable (which is expensive here, and is
/// answered by a harness with a concrete input).
macro_rules! lemma_without_cover {
    ($(#[$attr:meta])* $name:ident, $body:block) => {
        #[cfg(not(kani_contracts))]
        #[kani::proof]
        $(#[$attr])*
        fn $name() {
            $body
        }
    };
}

/// One clause of the contract of `make_move`, for an arbitrary consistent position and move.
macro_rules! make_move_clause {
    ($(#[$attr:meta])* $name:ident, $text:literal, |$old:ident, $new:ident, $mv:ident, $ok:ident, $effect:ident| $post:expr) => {
        #[cfg(not(kani_contracts))]
        #[kani::proof]
        $(#[$attr])*
        fn $name() {
            let mut $new: PartialPosition = kani::any();
            let $mv: Move = kani::any();
            kani::assume(spec::make_move_pre(&$new, $mv));
            kani::cover!(true, "the precondition is satisfiable");
            let $old = spec::snapshot(&$new);
            let $effect = spec::effect(&$old, $mv);
            let $ok = $new.make_move($mv).is_some();
            assert!($post, $text);
        }
    };
    (compact $(#[$attr:meta])* $name:ident, $text:literal, |$old:ident, $new:ident, $mv:ident, $ok:ident, $effect:ident| $post:expr) => {
        #[cfg(not(kani_contracts))]
        #[kani::proof]
        $(#[$attr])*
        fn $name() {
            let mut $new: PartialPosition = kani::any();
            let packed: CompactMove = kani::any();
            let $mv: Move = spec::move_of(packed);
            kani::assume(spec::make_move_pre(&$new, $mv));
            kani::cover!(true, "the precondition is satisfiable");
            let $old = spec::snapshot(&$new);
            let $effect = spec::effect(&$old, $mv);
            let $ok = $new.make_compact_move(packed);
            assert!($post, $text);
        }
    };
}
