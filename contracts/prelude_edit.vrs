/// the sequence part of the next lemma
pub proof fn lem_edit_seqs(na: Seq<int>, nt: Seq<int>, x: Seq<int>, p: Seq<int>, sb: int, bt: int, eb: int)
    requires x.len() > 0,
    ensures ({
        let s = p + shift(x, eb);
        na + shift(nt + shift(x, bt), sb) == na + shift(nt, sb).push(sb + bt + s[p.len() as int] - eb) + shift(s.skip(p.len() as int + 1), bt - (eb - sb))
    }),
{
    let s = p + shift(x, eb);
    let el = p.len() as int;
    let l = shift(nt + shift(x, bt), sb);
    assert(s[el] == x[0] + eb);
    let r1 = shift(nt, sb).push(sb + bt + s[el] - eb);
    let r2 = shift(s.skip(el + 1), bt - (eb - sb));
    assert(l.len() == (r1 + r2).len());
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] == (r1 + r2)[i] by {
        let y = nt + shift(x, bt);
        assert(l[i] == y[i] + sb);
        if i < nt.len() { assert(r1[i] == shift(nt, sb)[i]); }
        else if i == nt.len() { assert(y[i] == x[0] + bt); }
        else { assert(r2[i - nt.len() - 1] == s.skip(el + 1)[i - nt.len() - 1] + (bt - (eb - sb))); assert(s.skip(el + 1)[i - nt.len() - 1] == s[el + (i - nt.len())]); }
    }
    assert(l =~= r1 + r2);
    assert(na + (r1 + r2) =~= na + r1 + r2);
}
/// the line index of a text with [sb, eb) replaced by t
pub proof fn lem_edit_index(s: Seq<char>, t: Seq<char>, sb: int, eb: int)
    requires is_bnd(s, sb), is_bnd(s, eb), sb <= eb, s.len() > 0,
    ensures ({
        let a = s.take(cidx(s, sb));
        let b = s.skip(cidx(s, eb));
        let el = b2p(s, eb).0;
        let w = a + t + b;
        &&& eb == blen(s) && t.len() > 0 ==> idx(w) == nlb(a) + shift(idx(t), sb)
        &&& eb == blen(s) && t.len() == 0 ==> idx(w) == idx(a) && w == a
        &&& eb < blen(s) ==> el < idx(s).len() && idx(w) == nlb(a) + shift(nlb(t), sb).push(sb + blen(t) + idx(s)[el] - eb)
                + shift(idx(s).skip(el + 1), blen(t) - (eb - sb))
        &&& blen(w) == blen(s) + blen(t) - (eb - sb)
    }),
{
    let a = s.take(cidx(s, sb));
    let b = s.skip(cidx(s, eb));
    let el = b2p(s, eb).0;
    lem_split(s, sb); lem_split(s, eb);
    assert(a + t + b =~= a + (t + b));
    lem_blen_append(a, t + b);
    lem_blen_append(t, b);
    if eb == blen(s) {
        assert(t + b =~= t);
        if t.len() > 0 { lem_idx_append(a, t); } else { assert(a + t + b =~= a); }
    } else {
        lem_idx_append(a, t + b);
        lem_idx_append(t, b);
        let x = s.take(cidx(s, eb));
        let n = nlb(a) + shift(nlb(t), sb).push(sb + blen(t) + idx(s)[el] - eb) + shift(idx(s).skip(el + 1), blen(t) - (eb - sb));
        assert(idx(b).len() > 0) by { lem_idx(b); }
        assert(idx(s) == nlb(x) + shift(idx(b), eb));
        assert(nlb(x).len() == el);
        lem_edit_seqs(nlb(a), nlb(t), idx(b), nlb(x), sb, blen(t), eb);
        assert(idx(a + (t + b)) == n);
    }
}
/// what the replacement text contributes to the index (the rest of the line the edit ends in included)
pub open spec fn edit_add(s: Seq<char>, t: Seq<char>, sb: int, eb: int) -> Seq<int> {
    let el = b2p(s, eb).0;
    if eb < blen(s) { shift(nlb(t), sb).push(sb + blen(t) + idx(s)[el] - eb) }
    else if t.len() > 0 { shift(idx(t), sb) }
    else if b2p(s, sb).1 != 0 { seq![sb - 1] } else { seq![] }
}
/// idx and its elements
pub proof fn lem_idx_len(s: Seq<char>)
    ensures idx(s).len() <= s.len(), nlb(s).len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lem_idx_len(s.drop_last()); }
}
/// appending an element for the rest of the last line / extending the last line
pub proof fn lem_add_shape(t: Seq<char>, sb: int, d: int)
    requires t.len() > 0,
    ensures ({
        let q = shift(idx(t), sb);
        &&& q.len() > 0 && q.last() == sb + blen(t) - 1
        &&& t.last() == '\n' ==> q.push(q.last() + d) == shift(nlb(t), sb).push(sb + blen(t) + d - 1)
        &&& t.last() != '\n' ==> q.drop_last().push(q.last() + d) == shift(nlb(t), sb).push(sb + blen(t) + d - 1)
    }),
{
    lem_idx(t);
    let q = shift(idx(t), sb);
    if t.last() != '\n' { assert(q.drop_last() =~= shift(nlb(t), sb)); }
}
/// the edited index, as lazy_add assembles it
pub proof fn lem_edit_result(s: Seq<char>, t: Seq<char>, sb: int, eb: int)
    requires is_bnd(s, sb), is_bnd(s, eb), sb <= eb, s.len() > 0,
       !(t.len() == 0 && sb == blen(s)),
    ensures ({
        let a = s.take(cidx(s, sb));
        let b = s.skip(cidx(s, eb));
        let el = b2p(s, eb).0;
        let e = imin(el + 1, idx(s).len() as int);
        idx(a + t + b) == nlb(a) + edit_add(s, t, sb, eb) + shift(idx(s).skip(e), blen(t) - (eb - sb))
    }),
{
    lem_edit_index(s, t, sb, eb); lem_edit_facts(s, t, sb, eb);
    let a = s.take(cidx(s, sb));
    let b = s.skip(cidx(s, eb));
    let el = b2p(s, eb).0;
    let e = imin(el + 1, idx(s).len() as int);
    let r = nlb(a) + edit_add(s, t, sb, eb) + shift(idx(s).skip(e), blen(t) - (eb - sb));
    if eb == blen(s) && t.len() == 0 {
        assert(idx(a) =~= r);
    }
    assert(idx(a + t + b) =~= r);
}
/// everything lazy_add needs to know about the text before the edit
pub open spec fn edit_facts(s: Seq<char>, t: Seq<char>, sb: int, eb: int) -> bool {
    let l = idx(s);
    let a = s.take(cidx(s, sb));
    let (sl, sc) = b2p(s, sb);
    let (el, ec) = b2p(s, eb);
    let n = l.len() as int;
    &&& 0 < n <= blen(s) && 0 <= sb <= eb <= blen(s) && l[n - 1] == blen(s) - 1
    &&& 0 <= sl <= el <= n && 0 <= sc && 0 <= ec
    &&& sl == el ==> sc <= ec
    &&& p2b(s, sl, sc) == sb && p2b(s, el, ec) == eb
    &&& (el < n <==> eb < blen(s)) && (sl < n <==> sb < blen(s))
    &&& p2b(s, el + 1, 0) == (if el < n { l[el] + 1 } else { blen(s) })
    &&& el < n ==> eb <= l[el] < blen(s)
    &&& nlb(a).len() == (if sl == n && s.last() != '\n' { sl - 1 } else { sl })
    &&& l.take(nlb(a).len() as int) == nlb(a)
    &&& a.len() > 0 <==> sb > 0
    &&& sb < blen(s) && sc == 0 && sb > 0 ==> a.last() == '\n'
    &&& sc != 0 ==> a.len() > 0 && a.last() != '\n'
    &&& blen(a) == sb
    &&& sb == blen(s) ==> a == s
}
pub proof fn lem_edit_facts(s: Seq<char>, t: Seq<char>, sb: int, eb: int)
    requires is_bnd(s, sb), is_bnd(s, eb), sb <= eb, s.len() > 0,
    ensures edit_facts(s, t, sb, eb),
{
    lem_idx_len(s); lem_blen_pos(s);
    lem_idx(s); lem_split(s, sb); lem_split(s, eb); lem_pos(s, sb); lem_pos(s, eb); lem_b2p_mono(s, sb, eb);
    lem_next_line(s, eb);
}
/// the start of the line after the one that holds byte b
pub proof fn lem_next_line(s: Seq<char>, b: int)
    requires 0 <= b <= blen(s), s.len() > 0,
    ensures ({
        let el = b2p(s, b).0;
        let n = idx(s).len() as int;
        &&& p2b(s, el + 1, 0) == (if el < n { idx(s)[el] + 1 } else { blen(s) })
        &&& el < n ==> b <= idx(s)[el]
        &&& forall|j: int| el < j < n ==> b <= #[trigger] idx(s)[j] < blen(s)
    }),
{
    lem_idx(s);
    let el = b2p(s, b).0;
    let n = idx(s).len() as int;
    if b < blen(s) {
        lem_below(idx(s), b);
        if el + 1 < n {
            assert(p2b(s, el + 1, 0) == lstart(s, el + 1) + blen(content(s, el + 1).take(imin(0, content(s, el + 1).len() as int))));
            assert(content(s, el + 1).take(0) =~= Seq::<char>::empty());
        }
    }
}

/// the line index right after the splice: what the tail still holds
pub proof fn lem_spliced(s: Seq<char>, t: Seq<char>, sb: int, eb: int, old_r: Seq<usize>, add: Seq<usize>, r0: Seq<usize>, p: int, e: int)
    requires is_bnd(s, sb), is_bnd(s, eb), sb <= eb, s.len() > 0, ints(old_r) == idx(s), ints(add) == edit_add(s, t, sb, eb),
        p == nlb(s.take(cidx(s, sb))).len(), e == imin(b2p(s, eb).0 + 1, idx(s).len() as int),
        r0 == old_r.take(p) + add + old_r.skip(e), blen(s) <= isize::MAX, blen(s) + blen(t) - (eb - sb) <= isize::MAX,
    ensures
        p + add.len() <= r0.len(), r0.len() == p + add.len() + idx(s).len() - e, 0 <= e <= idx(s).len(), 0 <= p <= idx(s).len(),
        forall|i: int| p + add.len() <= i < r0.len() ==> (#[trigger] r0[i]) <= isize::MAX && 0 <= r0[i] + (blen(t) - (eb - sb)) <= isize::MAX,
{
    lem_edit_facts(s, t, sb, eb);
    lem_next_line(s, eb);
    lem_blen_pos(t);
    assert(ints(old_r).len() == old_r.len());
    let k = p + add.len();
    assert forall|i: int| k <= i < r0.len() implies (#[trigger] r0[i]) <= isize::MAX && 0 <= r0[i] + (blen(t) - (eb - sb)) <= isize::MAX by {
        assert(r0[i] == old_r[e + (i - k)]);
        assert(ints(old_r)[e + (i - k)] == old_r[e + (i - k)]);
        let j = e + (i - k);
        assert(idx(s)[j] == r0[i]);
    }
}
/// ... and the finished index
pub proof fn lem_finished(s: Seq<char>, t: Seq<char>, sb: int, eb: int, old_r: Seq<usize>, add: Seq<usize>, r0: Seq<usize>, r1: Seq<usize>, p: int, e: int)
    requires is_bnd(s, sb), is_bnd(s, eb), sb <= eb, s.len() > 0, ints(old_r) == idx(s), ints(add) == edit_add(s, t, sb, eb),
        !(t.len() == 0 && sb == blen(s)),
        p == nlb(s.take(cidx(s, sb))).len(), e == imin(b2p(s, eb).0 + 1, idx(s).len() as int),
        r0 == old_r.take(p) + add + old_r.skip(e), 
        r1.len() == r0.len(),
        forall|i: int| 0 <= i < p + add.len() ==> r1[i] == r0[i],
        forall|i: int| p + add.len() <= i < r0.len() ==> r1[i] == r0[i] + (blen(t) - (eb - sb)),
    ensures ints(r1) == idx(s.take(cidx(s, sb)) + t + s.skip(cidx(s, eb))),
{
    lem_edit_result(s, t, sb, eb);
    lem_edit_facts(s, t, sb, eb);
    assert(ints(old_r).len() == old_r.len());
    let a = s.take(cidx(s, sb));
    let d = blen(t) - (eb - sb);
    let want = nlb(a) + edit_add(s, t, sb, eb) + shift(idx(s).skip(e), d);
    assert(ints(r1).len() == want.len());
    assert forall|i: int| 0 <= i < want.len() implies ints(r1)[i] == want[i] by {
        if i < p { assert(r0[i] == old_r[i]); assert(ints(old_r)[i] == old_r[i]); assert(idx(s).take(p)[i] == idx(s)[i]); }
        else if i < p + add.len() { assert(r0[i] == add[i - p]); assert(ints(add)[i - p] == add[i - p]); }
        else { let j = e + (i - (p + add.len())); assert(r0[i] == old_r[j]); assert(ints(old_r)[j] == old_r[j]); }
    }
    assert(ints(r1) =~= want);
}

/// the entries lazy_add computes for the replacement text are the expected ones
pub proof fn lem_additions(s: Seq<char>, t: Seq<char>, sb: int, eb: int, t1: Seq<usize>, add: Seq<usize>)
    requires is_bnd(s, sb), is_bnd(s, eb), sb <= eb, s.len() > 0, ints(t1) == shift(idx(t), sb), blen(s) + blen(t) <= isize::MAX,
        !(t.len() == 0 && sb == blen(s)), ({
            let el = b2p(s, eb).0;
            let n = idx(s).len() as int;
            let tailing = p2b(s, el + 1, 0) - eb;
            if t.len() == 0 { if tailing != 0 || b2p(s, sb).1 != 0 { add == t1.push((idx(s)[imin(el, n - 1)] - eb + sb) as usize) && 0 <= idx(s)[imin(el, n - 1)] - eb + sb } else { add == t1 } }
            else {
                let q = if t.last() == '\n' && el != n { t1.push(t1.last()) } else { t1 };
                add == q.update(q.len() - 1, (q.last() + tailing) as usize)
            }
        }),
    ensures ints(add) == edit_add(s, t, sb, eb),
{
    lem_edit_facts(s, t, sb, eb);
    lem_idx(t); lem_blen_pos(t);
    assert(ints(t1).len() == t1.len());
    let el = b2p(s, eb).0;
    let n = idx(s).len() as int;
    let tailing = p2b(s, el + 1, 0) - eb;
    if t.len() == 0 {
        assert(shift(nlb(t), sb) =~= Seq::<int>::empty());
        assert(ints(add) =~= edit_add(s, t, sb, eb));
    } else {
        assert(ints(t1).last() == t1.last());
        lem_add_shape(t, sb, tailing);
        let q = shift(idx(t), sb);
        if eb < blen(s) {
            if t.last() == '\n' { assert(ints(add) =~= q.push(q.last() + tailing)); } else { assert(ints(add) =~= q.drop_last().push(q.last() + tailing)); }
        } else {
            assert(ints(add) =~= q);
        }
    }
}
