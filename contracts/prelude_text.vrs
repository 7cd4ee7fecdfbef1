// ---- text model: a String/&str is its sequence of chars; byte lengths are UTF-8 ----
pub open spec fn clen(c: char) -> int { vstd::utf8::encode_scalar(c as u32).len() as int }
pub open spec fn blen(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) }
}
/// byte offset b is a char boundary of s
pub open spec fn is_bnd(s: Seq<char>, b: int) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == b }
/// char index of the boundary b
pub open spec fn cidx(s: Seq<char>, b: int) -> int { choose|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == b }
/// char indices of the line feeds of s
pub open spec fn nlc(s: Seq<char>) -> Seq<int> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last() == '\n' { nlc(s.drop_last()).push(s.len() - 1) } else { nlc(s.drop_last()) }
}
/// byte positions of the line feeds of s
pub open spec fn nlb(s: Seq<char>) -> Seq<int> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last() == '\n' { nlb(s.drop_last()).push(blen(s) - 1) } else { nlb(s.drop_last()) }
}
/// the line index: position of the last byte of every line (a line ends at its line feed or at the end of the text)
pub open spec fn idx(s: Seq<char>) -> Seq<int> {
    if s.len() == 0 || s.last() == '\n' { nlb(s) } else { nlb(s).push(blen(s) - 1) }
}
pub open spec fn ints(v: Seq<usize>) -> Seq<int> { v.map_values(|x: usize| x as int) }

pub proof fn lem_clen(c: char)
    ensures 1 <= clen(c) <= 4, c == '\n' ==> clen(c) == 1,
{ }
pub proof fn lem_blen_append(x: Seq<char>, y: Seq<char>)
    ensures blen(x + y) == blen(x) + blen(y),
    decreases y.len(),
{
    if y.len() == 0 { assert(x + y =~= x); }
    else {
        assert((x + y).drop_last() =~= x + y.drop_last());
        lem_blen_append(x, y.drop_last());
    }
}
pub proof fn lem_blen_pos(s: Seq<char>)
    ensures s.len() <= blen(s) <= 4 * s.len(), s.len() > 0 ==> blen(s) > 0,
    decreases s.len(),
{
    if s.len() > 0 { lem_clen(s.last()); lem_blen_pos(s.drop_last()); }
}
pub proof fn lem_blen_sub(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures blen(s.take(j)) == blen(s.take(i)) + blen(s.subrange(i, j)), blen(s.take(i)) <= blen(s.take(j)),
       i < j ==> blen(s.take(i)) < blen(s.take(j)), j - i <= blen(s.take(j)) - blen(s.take(i)),
       blen(s) == blen(s.take(i)) + blen(s.skip(i)),
{
    assert(s.take(j) =~= s.take(i) + s.subrange(i, j));
    lem_blen_append(s.take(i), s.subrange(i, j));
    lem_blen_pos(s.subrange(i, j));
    assert(s =~= s.take(i) + s.skip(i));
    lem_blen_append(s.take(i), s.skip(i));
}
pub proof fn lem_blen_step(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures blen(s.take(i + 1)) == blen(s.take(i)) + clen(s[i]),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
pub proof fn lem_cidx(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures cidx(s, blen(s.take(k))) == k, is_bnd(s, blen(s.take(k))), 0 <= blen(s.take(k)) <= blen(s),
{
    let b = blen(s.take(k));
    assert(is_bnd(s, b));
    let j = cidx(s, b);
    assert(0 <= j <= s.len() && blen(s.take(j)) == b);
    if j < k { lem_blen_sub(s, j, k); }
    if k < j { lem_blen_sub(s, k, j); }
    lem_blen_sub(s, k, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    lem_blen_pos(s.take(k));
}
pub proof fn lem_bnd(s: Seq<char>, b: int)
    requires is_bnd(s, b),
    ensures 0 <= cidx(s, b) <= s.len(), blen(s.take(cidx(s, b))) == b, 0 <= b <= blen(s),
{
    let j = cidx(s, b);
    assert(0 <= j <= s.len() && blen(s.take(j)) == b);
    lem_cidx(s, j);
}
/// nlb is nlc in bytes, both are strictly increasing and point at the line feeds
pub proof fn lem_nl(s: Seq<char>)
    ensures
        nlb(s).len() == nlc(s).len(),
        forall|k: int| 0 <= k < nlc(s).len() ==> {
            &&& 0 <= #[trigger] nlc(s)[k] < s.len()
            &&& s[nlc(s)[k]] == '\n'
            &&& nlb(s)[k] == blen(s.take(nlc(s)[k]))
            &&& nlb(s)[k] + 1 == blen(s.take(nlc(s)[k] + 1))
            &&& 0 <= nlb(s)[k] < blen(s)
        },
        forall|j: int, k: int| 0 <= j < k < nlc(s).len() ==> nlc(s)[j] < nlc(s)[k],
        forall|j: int, k: int| 0 <= j < k < nlb(s).len() ==> nlb(s)[j] < nlb(s)[k],
        forall|k: int| 0 <= k < nlb(s).len() ==> 0 <= #[trigger] nlb(s)[k] < blen(s),
        forall|i: int| 0 <= i < s.len() && s[i] == '\n' ==> nlc(s).contains(i),
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        lem_nl(p);
        lem_clen(s.last());
        lem_blen_pos(p);
        assert forall|k: int| 0 <= k < nlc(s).len() implies {
            &&& 0 <= #[trigger] nlc(s)[k] < s.len()
            &&& s[nlc(s)[k]] == '\n'
            &&& nlb(s)[k] == blen(s.take(nlc(s)[k]))
            &&& nlb(s)[k] + 1 == blen(s.take(nlc(s)[k] + 1))
            &&& 0 <= nlb(s)[k] < blen(s)
        } by {
            if k < nlc(p).len() {
                assert(s.take(nlc(s)[k]) =~= p.take(nlc(p)[k]));
                assert(s.take(nlc(s)[k] + 1) =~= p.take(nlc(p)[k] + 1));
            } else {
                assert(s.take(s.len() - 1) =~= p);
                assert(s.take(s.len() as int) =~= s);
            }
        }
        assert forall|i: int| 0 <= i < s.len() && s[i] == '\n' implies nlc(s).contains(i) by {
            if i < p.len() {
                assert(p[i] == '\n');
                let k = nlc(p).index_of(i);
                assert(nlc(p).contains(i));
                assert(nlc(s)[k] == i);
            } else {
                assert(nlc(s)[nlc(s).len() - 1] == i);
            }
        }
    }
}
pub proof fn lem_nl_append(x: Seq<char>, y: Seq<char>)
    ensures
        nlb(x + y) == nlb(x) + nlb(y).map_values(|b: int| b + blen(x)),
        nlc(x + y) == nlc(x) + nlc(y).map_values(|b: int| b + x.len()),
    decreases y.len(),
{
    if y.len() == 0 {
        assert(x + y =~= x);
        assert(nlb(x + y) =~= nlb(x) + nlb(y).map_values(|b: int| b + blen(x)));
        assert(nlc(x + y) =~= nlc(x) + nlc(y).map_values(|b: int| b + x.len()));
    } else {
        assert((x + y).drop_last() =~= x + y.drop_last());
        lem_nl_append(x, y.drop_last());
        lem_blen_append(x, y);
        assert(nlb(x + y) =~= nlb(x) + nlb(y).map_values(|b: int| b + blen(x)));
        assert(nlc(x + y) =~= nlc(x) + nlc(y).map_values(|b: int| b + x.len()));
    }
}
/// facts about the line index as a whole
pub proof fn lem_idx(s: Seq<char>)
    ensures
        idx(s).len() >= nlb(s).len(), idx(s).len() <= nlb(s).len() + 1,
        s.len() == 0 <==> idx(s).len() == 0,
        s.len() > 0 ==> idx(s).last() + 1 == blen(s),
        forall|j: int, k: int| 0 <= j < k < idx(s).len() ==> idx(s)[j] < idx(s)[k],
        forall|k: int| 0 <= k < idx(s).len() ==> 0 <= #[trigger] idx(s)[k] < blen(s),
        forall|k: int| 0 <= k < nlb(s).len() ==> idx(s)[k] == nlb(s)[k],
        idx(s).len() > nlb(s).len() <==> s.len() > 0 && s.last() != '\n',
{
    lem_nl(s);
    lem_blen_pos(s);
    if s.len() > 0 && s.last() == '\n' {
        assert(nlb(s).last() == blen(s) - 1);
    }
    if s.len() > 0 && s.last() != '\n' {
        assert(nlc(s.drop_last()) == nlc(s));
        lem_nl(s.drop_last());
        lem_clen(s.last());
        lem_blen_pos(s.drop_last());
    }
}

/// last byte of a UTF-8 sequence is 0x0A only for the line feed
pub proof fn lem_last_byte(b: char)
    ensures (vstd::utf8::encode_scalar(b as u32).last() == 10u8) <==> b == '\n'
{
    use vstd::utf8::*;
    let x = b as u32;
    assert((0x80u8 | ((x & 0x3f) as u8)) >= 0x80) by(bit_vector);
    if x >= 0x80 {
        assert(encode_scalar(x).last() == last_continuation_byte(x));
        assert(encode_scalar(x).last() >= 0x80u8);
    } else {
        assert(x < 0x80 ==> (x & 0x7F) as u8 == x as u8) by(bit_vector);
        assert(encode_scalar(x).last() == leading_byte_width_1(x));
        assert(leading_byte_width_1(x) == x as u8);
        assert(x < 0x80 ==> (x as u8 == 10u8 <==> x == 10u32)) by(bit_vector);
    }
}
pub proof fn lem_enc_len(s: Seq<char>)
    ensures vstd::utf8::encode_utf8(s).len() == blen(s),
    decreases s.len(),
{
    if s.len() > 0 {
        lem_enc_len(s.drop_last());
        vstd::utf8::encode_utf8_push(s.drop_last(), s.last());
        assert(s.drop_last().push(s.last()) =~= s);
    } else { assert(s =~= Seq::empty()); }
}
/// the last byte of char k of s
pub proof fn lem_enc_last_byte(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures 0 <= blen(s.take(k + 1)) - 1 < vstd::utf8::encode_utf8(s).len(),
        vstd::utf8::encode_utf8(s)[blen(s.take(k + 1)) - 1] == 10u8 <==> s[k] == '\n',
{
    let p = s.take(k + 1);
    assert(s =~= p + s.skip(k + 1));
    vstd::utf8::encode_utf8_concat(p, s.skip(k + 1));
    assert(p.drop_last().push(p.last()) =~= p);
    vstd::utf8::encode_utf8_push(p.drop_last(), p.last());
    lem_enc_len(p); lem_enc_len(s); lem_enc_len(p.drop_last());
    lem_last_byte(s[k]);
    lem_clen(s[k]);
    lem_blen_pos(p);
}

// ---- lines ----
/// first byte of line k
pub open spec fn lstart(s: Seq<char>, k: int) -> int { if k == 0 { 0 } else { idx(s)[k - 1] + 1 } }
/// byte just past the last character of line k, its line feed excluded
pub open spec fn lend(s: Seq<char>, k: int) -> int { if k < nlb(s).len() { nlb(s)[k] } else { blen(s) } }
/// the characters of line k, its line feed excluded
pub open spec fn content(s: Seq<char>, k: int) -> Seq<char> { s.subrange(cidx(s, lstart(s, k)), cidx(s, lend(s, k))) }
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
/// POSITION -> BYTE: column clamped to the line's length, line past the end -> end of text
pub open spec fn p2b(s: Seq<char>, line: int, ch: int) -> int {
    if s.len() == 0 { 0 } else if line >= idx(s).len() { blen(s) }
    else { lstart(s, line) + blen(content(s, line).take(imin(ch, content(s, line).len() as int))) }
}
/// number of leading chars of s that fit into b bytes
pub open spec fn fit(s: Seq<char>, b: int) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if blen(s) <= b { s.len() as int } else { fit(s.drop_last(), b) }
}
/// number of entries of a sorted q below b
pub open spec fn below(q: Seq<int>, b: int) -> int decreases q.len() {
    if q.len() == 0 { 0 } else if q.last() < b { q.len() as int } else { below(q.drop_last(), b) }
}
/// BYTE -> POSITION: the line holding the byte and the column of the char holding it
pub open spec fn b2p(s: Seq<char>, b: int) -> (int, int) {
    if s.len() == 0 { (0, 0) } else if b >= blen(s) { (idx(s).len() as int, 0) }
    else { let l = below(idx(s), b); (l, fit(content(s, l), b - lstart(s, l))) }
}
pub proof fn lem_below(q: Seq<int>, b: int)
    requires forall|j: int, k: int| 0 <= j < k < q.len() ==> q[j] < q[k],
    ensures 0 <= below(q, b) <= q.len(),
        forall|j: int| 0 <= j < below(q, b) ==> q[j] < b,
        forall|j: int| below(q, b) <= j < q.len() ==> q[j] >= b,
    decreases q.len(),
{
    if q.len() > 0 { lem_below(q.drop_last(), b); 
        if q.last() < b { } else {
            assert forall|j: int| below(q, b) <= j < q.len() implies q[j] >= b by { if j < q.len() - 1 { assert(q.drop_last()[j] == q[j]); } }
            assert forall|j: int| 0 <= j < below(q, b) implies q[j] < b by { assert(q.drop_last()[j] == q[j]); }
        } }
}
pub proof fn lem_fit(s: Seq<char>, b: int)
    requires b >= 0,
    ensures 0 <= fit(s, b) <= s.len(), blen(s.take(fit(s, b))) <= b, fit(s, b) < s.len() ==> blen(s.take(fit(s, b) + 1)) > b,
    decreases s.len(),
{
    if s.len() == 0 { assert(s.take(0) =~= s); }
    else if blen(s) <= b { assert(s.take(s.len() as int) =~= s); }
    else {
        let p = s.drop_last();
        lem_fit(p, b);
        let f = fit(p, b);
        assert(s.take(f) =~= p.take(f));
        if f < p.len() { assert(s.take(f + 1) =~= p.take(f + 1)); } else { assert(s.take(f + 1) =~= s); }
    }
}
pub proof fn lem_fit_unique(s: Seq<char>, b: int, k: int)
    requires b >= 0, 0 <= k <= s.len(), blen(s.take(k)) <= b, k < s.len() ==> blen(s.take(k + 1)) > b,
    ensures fit(s, b) == k,
{
    lem_fit(s, b);
    let f = fit(s, b);
    if f < k { lem_blen_sub(s, f + 1, k); }
    if k < f { lem_blen_sub(s, k + 1, f); }
}
pub proof fn lem_below_unique(q: Seq<int>, b: int, k: int)
    requires forall|j: int, k: int| 0 <= j < k < q.len() ==> q[j] < q[k], 0 <= k <= q.len(),
        k > 0 ==> q[k - 1] < b, k < q.len() ==> q[k] >= b,
    ensures below(q, b) == k,
{
    lem_below(q, b);
    let f = below(q, b);
    if f < k { assert(q[f] >= b); }
    if k < f { assert(q[k] < b); }
}
/// line k of s: both ends are boundaries, and what lies between them
pub proof fn lem_line(s: Seq<char>, k: int)
    requires 0 <= k < idx(s).len(),
    ensures
        is_bnd(s, lstart(s, k)), is_bnd(s, lend(s, k)), is_bnd(s, idx(s)[k] + 1),
        0 <= lstart(s, k) <= lend(s, k) <= blen(s),
        lstart(s, k) <= idx(s)[k], idx(s)[k] <= lend(s, k) <= idx(s)[k] + 1,
        0 <= cidx(s, lstart(s, k)) <= cidx(s, lend(s, k)) <= s.len(),
        blen(content(s, k)) == lend(s, k) - lstart(s, k),
        k < nlb(s).len() <==> lend(s, k) == idx(s)[k],
        k < nlb(s).len() ==> s[cidx(s, lend(s, k))] == '\n' && cidx(s, lend(s, k)) < s.len() && cidx(s, idx(s)[k] + 1) == cidx(s, lend(s, k)) + 1,
        k >= nlb(s).len() ==> lend(s, k) == idx(s)[k] + 1 && cidx(s, lend(s, k)) == s.len() && k == idx(s).len() - 1,
{
    lem_idx(s); lem_nl(s); lem_blen_pos(s);
    assert(s.take(0) =~= Seq::<char>::empty());
    assert(s.take(s.len() as int) =~= s);
    lem_cidx(s, 0); lem_cidx(s, s.len() as int);
    if k > 0 {
        let c = nlc(s)[k - 1];
        lem_cidx(s, c + 1);
        assert(idx(s)[k - 1] == nlb(s)[k - 1]);
    }
    if k < nlb(s).len() { lem_cidx(s, nlc(s)[k]); lem_cidx(s, nlc(s)[k] + 1); }
    let a = cidx(s, lstart(s, k));
    let b = cidx(s, lend(s, k));
    lem_bnd(s, lstart(s, k)); lem_bnd(s, lend(s, k));
    if a > b { lem_blen_sub(s, b, a); }
    lem_blen_sub(s, a, b);
}

pub proof fn lem_p2b(s: Seq<char>, line: int, ch: int)
    requires line >= 0, ch >= 0,
    ensures is_bnd(s, p2b(s, line, ch)), 0 <= p2b(s, line, ch) <= blen(s),
{
    lem_idx(s);
    assert(s.take(s.len() as int) =~= s);
    lem_cidx(s, s.len() as int); lem_cidx(s, 0);
    assert(s.take(0) =~= Seq::<char>::empty());
    if s.len() > 0 && line < idx(s).len() {
        lem_line(s, line);
        let c = content(s, line);
        let n = imin(ch, c.len() as int);
        let a = cidx(s, lstart(s, line));
        lem_bnd(s, lstart(s, line));
        assert(s.subrange(a, a + n) =~= c.take(n));
        lem_blen_sub(s, a, a + n);
        lem_cidx(s, a + n);
    }
}

pub open spec fn shift(q: Seq<int>, d: int) -> Seq<int> { q.map_values(|v: int| v + d) }
/// the line index of a concatenation
pub proof fn lem_idx_append(x: Seq<char>, y: Seq<char>)
    requires y.len() > 0,
    ensures idx(x + y) == nlb(x) + shift(idx(y), blen(x)), nlb(x + y) == nlb(x) + shift(nlb(y), blen(x)),
        blen(x + y) == blen(x) + blen(y),
{
    lem_nl_append(x, y);
    lem_blen_append(x, y);
    assert((x + y).last() == y.last());
    assert(nlb(x + y) =~= nlb(x) + shift(nlb(y), blen(x)));
    assert(idx(x + y) =~= nlb(x) + shift(idx(y), blen(x)));
}
/// the prefix and the suffix of s at a boundary
pub open spec fn split_facts(s: Seq<char>, b: int) -> bool {
    let x = s.take(cidx(s, b));
    let y = s.skip(cidx(s, b));
    &&& 0 <= b <= blen(s) && 0 <= cidx(s, b) <= s.len()
    &&& s == x + y && blen(x) == b && blen(y) == blen(s) - b
    &&& (y.len() > 0 <==> b < blen(s))
    &&& (x.len() > 0 <==> b > 0)
    &&& nlb(x).len() <= idx(s).len()
    &&& idx(s).take(nlb(x).len() as int) == nlb(x)
    &&& b < blen(s) ==> idx(s) == nlb(x) + shift(idx(y), b) && nlb(x).len() < idx(s).len() && b2p(s, b).0 == nlb(x).len()
    &&& b == blen(s) ==> b2p(s, b) == (idx(s).len() as int, 0int) && x == s && y == Seq::<char>::empty()
}
pub proof fn lem_split(s: Seq<char>, b: int)
    requires is_bnd(s, b), s.len() > 0,
    ensures split_facts(s, b),
{
    let c = cidx(s, b);
    let x = s.take(c);
    let y = s.skip(c);
    lem_bnd(s, b);
    assert(s =~= x + y);
    lem_blen_append(x, y);
    lem_blen_pos(x); lem_blen_pos(y); lem_blen_pos(s);
    lem_idx(s); lem_nl(x);
    if y.len() > 0 {
        lem_idx_append(x, y);
        lem_idx(y);
        let l = nlb(x).len() as int;
        assert(idx(s).take(l) =~= nlb(x));
        assert(idx(s)[l] == idx(y)[0] + b);
        if l > 0 { assert(idx(s)[l - 1] == nlb(x)[l - 1]); }
        lem_below_unique(idx(s), b, l);
    } else {
        assert(x =~= s);
        assert(y =~= Seq::<char>::empty());
        assert(idx(s).take(nlb(x).len() as int) =~= nlb(x));
    }
}
/// the column of a boundary: converting its position back gives the boundary, and column 0 is the start of a line
pub open spec fn pos_facts(s: Seq<char>, b: int) -> bool {
    let x = s.take(cidx(s, b));
    &&& b2p(s, b).0 >= 0 && b2p(s, b).1 >= 0
    &&& p2b(s, b2p(s, b).0, b2p(s, b).1) == b
    &&& b < blen(s) && b2p(s, b).1 == 0 && b > 0 ==> x.last() == '\n'
    &&& b2p(s, b).1 != 0 ==> x.len() > 0 && x.last() != '\n'
}
pub proof fn lem_pos(s: Seq<char>, b: int)
    requires is_bnd(s, b), s.len() > 0,
    ensures pos_facts(s, b),
{
    let c = cidx(s, b);
    let x = s.take(c);
    lem_split(s, b);
    lem_bnd(s, b);
    lem_blen_pos(x);
    lem_idx(s);
    if b < blen(s) {
        let l = nlb(x).len() as int;
        lem_line(s, l);
        let cs = content(s, l);
        let a = cidx(s, lstart(s, l));
        let e = cidx(s, lend(s, l));
        lem_bnd(s, lstart(s, l)); lem_bnd(s, lend(s, l));
        lem_below(idx(s), b);
        assert(lstart(s, l) <= b <= lend(s, l));
        if c < a { lem_blen_sub(s, c, a); }
        if e < c { lem_blen_sub(s, e, c); }
        assert(s.subrange(a, c) =~= cs.take(c - a));
        lem_blen_sub(s, a, c);
        if c - a < cs.len() { lem_blen_step(cs, c - a); lem_clen(cs[c - a]); }
        lem_fit_unique(cs, b - lstart(s, l), c - a);
        assert(b2p(s, b) == (l, c - a));
        assert(p2b(s, l, c - a) == b);
        if b > 0 { lem_col0(s, b, a, l); }
    }
}
proof fn lem_col0(s: Seq<char>, b: int, a: int, l: int)
    requires is_bnd(s, b), s.len() > 0, 0 < b < blen(s), l == nlb(s.take(cidx(s, b))).len(), l < idx(s).len(), a == cidx(s, lstart(s, l)),
        a <= cidx(s, b) <= s.len(), cidx(s, b) > 0, idx(s).take(l) == nlb(s.take(cidx(s, b))), is_bnd(s, lstart(s, l)), blen(s.take(cidx(s, b))) == b,
    ensures a == cidx(s, b) <==> s.take(cidx(s, b)).last() == '\n',
{
    let c = cidx(s, b);
    let x = s.take(c);
    lem_nl(x);
    lem_bnd(s, lstart(s, l));
    assert(x.take(x.len() as int) =~= x);
    lem_blen_pos(x);
    if l > 0 {
        assert(idx(s).take(l)[l - 1] == idx(s)[l - 1]);
        let i = nlc(x)[l - 1] + 1;
        assert(nlb(x)[l - 1] + 1 == blen(x.take(i)));
        assert(x.take(i) =~= s.take(i));
        lem_cidx(s, i);
        assert(a == i);
        if x.last() == '\n' {
            assert(nlc(x).contains(x.len() - 1));
            let k = nlc(x).index_of(x.len() - 1);
            assert(nlc(x)[k] == x.len() - 1);
            if k < l - 1 { assert(nlc(x)[k] < nlc(x)[l - 1]); }
        }
    } else {
        assert(s.take(0) =~= Seq::<char>::empty());
        lem_cidx(s, 0);
        assert(a == 0);
        if x.last() == '\n' { assert(nlc(x).contains(x.len() - 1)); }
    }
}
/// positions grow with the byte offset
pub proof fn lem_b2p_mono(s: Seq<char>, b0: int, b1: int)
    requires 0 <= b0 <= b1, s.len() > 0,
    ensures b2p(s, b0).0 < b2p(s, b1).0 || b2p(s, b0).0 == b2p(s, b1).0 && b2p(s, b0).1 <= b2p(s, b1).1,
{
    lem_idx(s);
    lem_below(idx(s), b0); lem_below(idx(s), b1);
    if b1 < blen(s) {
        let l0 = below(idx(s), b0);
        let l1 = below(idx(s), b1);
        if l0 > l1 { assert(idx(s)[l1] < b0); assert(idx(s)[l1] >= b1); }
        if l0 == l1 {
            assert(l0 < idx(s).len()) by { if l0 == idx(s).len() { assert(idx(s)[l0 - 1] < b0); } }
            if l0 > 0 { assert(idx(s)[l0 - 1] < b0); }
            let cs = content(s, l0);
            lem_fit(cs, b0 - lstart(s, l0)); lem_fit(cs, b1 - lstart(s, l0));
            let f0 = fit(cs, b0 - lstart(s, l0));
            let f1 = fit(cs, b1 - lstart(s, l0));
            if f1 < f0 { lem_blen_sub(cs, f1 + 1, f0); }
        }
    } else if b0 < blen(s) {
        if below(idx(s), b0) == idx(s).len() { assert(idx(s)[idx(s).len() - 1] < b0); }
    }
}
