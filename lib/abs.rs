// ===== lib/abs.rs: absolute values of machine integers =====
pub assume_specification[isize::abs](x: isize) -> (r: isize) requires x > isize::MIN, ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification[i8::abs](x: i8) -> (r: i8) requires x > i8::MIN, ensures r == (if x < 0 { -x } else { x as int });
