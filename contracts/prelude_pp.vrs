// ---- values of #if conditions ----
/// what the expression grammar reads from a text (nom; not under contract): the expression at its start
pub uninterp spec fn parsed(t: Seq<char>) -> Option<PreprocessorExpression>;
pub type Value = Option<i64>;
pub open spec fn fits(x: int) -> Value { if i64::MIN <= x <= i64::MAX { Some(x as i64) } else { None } }
/// division as in C, rounding towards zero (`/` on integers leaves a remainder that is never negative)
pub open spec fn tdiv(l: int, r: int) -> int { if l == 0 { 0 } else if l > 0 { l / r } else { -((-l) / r) } }
/// the remainder has the sign of the left operand
pub open spec fn trem(l: int, r: int) -> int { if l == 0 { 0 } else if l > 0 { l % r } else { -((-l) % r) } }
pub proof fn lem_division(l: int, r: int)
    requires r != 0,
    ensures l == r * tdiv(l, r) + trem(l, r), -(if r < 0 { -r } else { r }) < trem(l, r) < (if r < 0 { -r } else { r }), l > 0 ==> trem(l, r) >= 0, l < 0 ==> trem(l, r) <= 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(l, r);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(-l, r);
    vstd::arithmetic::mul::lemma_mul_unary_negation(r, (-l) / r);
    if r < 0 { assert(0 <= l % r < -r && 0 <= (-l) % r < -r) by(nonlinear_arith) requires r < 0; } else { assert(0 <= l % r < r && 0 <= (-l) % r < r) by(nonlinear_arith) requires r > 0; }
}
pub proof fn lem_fits(l: i64, r: i64)
    requires r != 0, !(l == i64::MIN && r == -1),
    ensures i64::MIN <= tdiv(l as int, r as int) <= i64::MAX, fits(trem(l as int, r as int)) is Some,
{
    lem_division(l as int, r as int);
    let (q, m, a, b) = (tdiv(l as int, r as int), trem(l as int, r as int), l as int, r as int);
    assert(-0x8000_0000_0000_0000 <= q <= 0x7fff_ffff_ffff_ffff) by(nonlinear_arith)
        requires a == b * q + m, -(if b < 0 { -b } else { b }) < m < (if b < 0 { -b } else { b }), a > 0 ==> m >= 0, a < 0 ==> m <= 0, b != 0,
            -0x8000_0000_0000_0000 <= a <= 0x7fff_ffff_ffff_ffff, !(a == -0x8000_0000_0000_0000 && b == -1);
}
pub open spec fn truth(b: bool) -> Value { if b { Some(1) } else { Some(0) } }
pub open spec fn op(o: PreprocessorBinOp, l: i64, r: i64) -> Value {
    match o {
        PreprocessorBinOp::Or => Some(l | r),
        PreprocessorBinOp::Xor => Some(l ^ r),
        PreprocessorBinOp::And => Some(l & r),
        PreprocessorBinOp::Plus => fits(l + r),
        PreprocessorBinOp::Minus => fits(l - r),
        PreprocessorBinOp::Times => fits(l * r),
        // -2^63 / -1 does not fit, every other quotient does (lem_fits)
        PreprocessorBinOp::Divide => if r == 0 || (l == i64::MIN && r == -1) { None } else { Some(tdiv(l as int, r as int) as i64) },
        PreprocessorBinOp::Modulo => if r == 0 || (l == i64::MIN && r == -1) { None } else { fits(trem(l as int, r as int)) },
        PreprocessorBinOp::Equals => truth(l == r),
        PreprocessorBinOp::NotEquals => truth(l != r),
        PreprocessorBinOp::LogicalOr => truth(l != 0 || r != 0),
        PreprocessorBinOp::LogicalAnd => truth(l != 0 && r != 0),
        PreprocessorBinOp::LessThan => truth(l < r),
        PreprocessorBinOp::LessOrEqual => truth(l <= r),
        PreprocessorBinOp::GreaterThan => truth(l > r),
        PreprocessorBinOp::GreaterOrEqual => truth(l >= r),
        PreprocessorBinOp::BitwiseShiftLeft => if 0 <= r < 64 { Some(shl(l, r as u32)) } else { None },
        PreprocessorBinOp::BitwiseShiftRight => if 0 <= r < 64 { Some(shr(l, r as u32)) } else { None },
    }
}
pub open spec fn shl(l: i64, n: u32) -> i64 { l << n }
pub open spec fn shr(l: i64, n: u32) -> i64 { l >> n }
/// the value of e under the definitions d, inside the expansion of the macros x
pub open spec fn ev(d: Map<Seq<char>, String>, x: Set<Seq<char>>, e: PreprocessorExpression) -> Value
    decreases d.dom().difference(x).len(), e via ev_terminates
{
    match e {
        PreprocessorExpression::IntLiteral(n) => Some(n),
        PreprocessorExpression::Identifier(n) =>
            if x.contains(n@) || !d.dom().contains(n@) { None }
            else { match parsed(d[n@]@) { None => None, Some(b) => ev(d, x.insert(n@), b) } },
        PreprocessorExpression::BinOp(o, l, r) =>
            match (ev(d, x, *l), ev(d, x, *r)) { (Some(a), Some(b)) => op(o, a, b), _ => None },
        PreprocessorExpression::Not(i) => truth(!holds_v(ev(d, x, *i))),
        PreprocessorExpression::Defined(n) => truth(d.dom().contains(n@)),
    }
}
pub open spec fn holds_v(v: Value) -> bool { v matches Some(n) && n != 0 }
/// the condition e holds
pub open spec fn holds(d: Map<Seq<char>, String>, e: PreprocessorExpression) -> bool { holds_v(ev(d, set![], e)) }

#[via_fn]
proof fn ev_terminates(d: Map<Seq<char>, String>, x: Set<Seq<char>>, e: PreprocessorExpression) {
    match e { PreprocessorExpression::Identifier(n) => { if !x.contains(n@) && d.dom().contains(n@) { lem_more(d, x, n@); } } _ => {} }
}
/// a macro that is being expanded is one macro less to expand
pub proof fn lem_more(d: Map<Seq<char>, String>, x: Set<Seq<char>>, n: Seq<char>)
    requires !x.contains(n), d.dom().contains(n),
    ensures d.dom().difference(x.insert(n)).len() < d.dom().difference(x).len(),
{
    let a = d.dom().difference(x);
    assert(d.dom().difference(x.insert(n)) =~= a.remove(n));
    assert(a.contains(n));
}
