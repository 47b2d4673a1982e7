//! Vector construction over different storages, and a few generic helpers.
/// Runs `$body` with `$v` bound to a vector holding exactly `$x` (f64 slice) in a storage with `$slack` spare elements behind.
/// Storage kinds: 0 Vec, 1 Box<[T]>, 2 &mut [T]. For kind 1 and 2 the spare storage is what the vector can grow into.
#[macro_export]
macro_rules! over_storage {
    ($T:ty, $kind:expr, $x:expr, $slack:expr, $conv:ident, |$v:ident| $body:expr) => {{
        let __x: &[f64] = $x;
        let mut __a = $crate::fw::Al::<$T>::with(__x, $slack, 1);
        let __r: $crate::fw::R = match $kind {
            0 => { let mut $v = $crate::fw::Mc::mc(__a.r().to_vec().$conv()); $v.resize(__x.len()).map_err(|e| format!("{:?}", e))?; $body }
            1 => { let mut $v = $crate::fw::Mc::mc(__a.r().to_vec().into_boxed_slice().$conv()); $v.resize(__x.len()).map_err(|e| format!("{:?}", e))?; $body }
            _ => { let mut $v = $crate::fw::Mc::mc(__a.s().$conv()); $v.resize(__x.len()).map_err(|e| format!("{:?}", e))?; let r: $crate::fw::R = $body; drop($v); __a.guards_ok()?; r }
        };
        __r
    }};
}
/// groups floats to points
pub fn pts(x: &[f64], cplx: bool) -> Vec<Vec<f64>> { x.chunks(if cplx { 2 } else { 1 }).map(|c| c.to_vec()).collect() }
pub fn flat(p: &[Vec<f64>]) -> Vec<f64> { p.concat() }
pub fn iota(n: usize) -> Vec<f64> { (0..n).map(|i| i as f64 + 1.0).collect() }
/// asserts vector invariants: valid length vs storage, points, parity
#[macro_export]
macro_rules! inv {
    ($v:expr) => {{
        let l = $v.len();
        if l > $v.alloc_len() { return Err(format!("valid length {} exceeds storage {}", l, $v.alloc_len())); }
        let st = if $v.is_complex() { 2 } else { 1 };
        if $v.points() != l / st { return Err(format!("points {} but len {}", $v.points(), l)); }
        if l % st != 0 { return Err(format!("complex vector of odd length {}", l)); }
        if $v.data(..).len() != l { return Err("accessor length".into()); }
    }};
}
#[macro_export]
macro_rules! vec_storage {
    ($T:ty, $x:expr, $slack:expr, $conv:ident, |$v:ident| $body:expr) => {{
        let __x: &[f64] = $x;
        let mut __m = $crate::fw::ts::<$T>(__x);
        __m.extend((0..$slack).map(|i| <$T as $crate::fw::Tt>::of(1000.0 + i as f64)));
        let mut $v = $crate::fw::Mc::mc(__m.$conv()); $v.resize(__x.len()).map_err(|e| format!("{:?}", e))?; $body
    }};
}
#[macro_export]
macro_rules! box_storage {
    ($T:ty, $x:expr, $slack:expr, $conv:ident, |$v:ident| $body:expr) => {{
        let __x: &[f64] = $x;
        let mut __m = $crate::fw::ts::<$T>(__x);
        __m.extend((0..$slack).map(|i| <$T as $crate::fw::Tt>::of(1000.0 + i as f64)));
        let mut $v = $crate::fw::Mc::mc(__m.into_boxed_slice().$conv()); $v.resize(__x.len()).map_err(|e| format!("{:?}", e))?; $body
    }};
}
/// like `over_storage`, the body consumes the vector
#[macro_export]
macro_rules! over_storage_move {
    ($T:ty, $kind:expr, $x:expr, $slack:expr, $conv:ident, |$v:ident| $body:expr) => {{
        let __x: &[f64] = $x;
        let mut __a = $crate::fw::Al::<$T>::with(__x, $slack, 1);
        let __r: $crate::fw::R = match $kind {
            0 => { let mut $v = $crate::fw::Mc::mc(__a.r().to_vec().$conv()); $v.resize(__x.len()).map_err(|e| format!("{:?}", e))?; $body }
            1 => { let mut $v = $crate::fw::Mc::mc(__a.r().to_vec().into_boxed_slice().$conv()); $v.resize(__x.len()).map_err(|e| format!("{:?}", e))?; $body }
            _ => { let mut $v = $crate::fw::Mc::mc(__a.s().$conv()); $v.resize(__x.len()).map_err(|e| format!("{:?}", e))?; let r: $crate::fw::R = $body; __a.guards_ok()?; r }
        };
        __r
    }};
}
