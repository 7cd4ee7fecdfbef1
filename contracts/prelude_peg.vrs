// ---- meaning of a grammar: parsing expression grammars on the remaining tokens, with fuel ----
pub enum SCst<T> { Terminal(Seq<T>), Choice(Seq<char>, Box<SCst<T>>), Sequence(Seq<SCst<T>>), Repetition(Seq<SCst<T>>), Not(Seq<char>) }
pub enum Out<T> { Fail, Match(SCst<T>, int) }
pub open spec fn cv<T: Clone>(c: Cst<T>) -> SCst<T> decreases c {
    match c {
        Cst::Terminal(v) => SCst::Terminal(v@),
        Cst::Choice(n, c) => SCst::Choice(n@, Box::new(cv(*c))),
        Cst::Sequence(v) => SCst::Sequence(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { cv(*v@[i]) } else { arbitrary() })),
        Cst::Repetition(v) => SCst::Repetition(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { cv(*v@[i]) } else { arbitrary() })),
        Cst::Not(n) => SCst::Not(n@),
    }
}
pub open spec fn cvs<T: Clone>(v: Seq<Rc<Cst<T>>>) -> Seq<SCst<T>> { Seq::new(v.len(), |i: int| cv(*v[i])) }
pub open spec fn cvr<T: Clone>(c: &Rc<Cst<T>>) -> SCst<T> { cv(**c) }
pub open spec fn out_of<T: Clone>(c: &Option<Rc<Cst<T>>>, len: int) -> Out<T> { match c { Some(c) => Out::Match(cv(**c), len), None => Out::Fail } }
pub proof fn lem_cvs<T: Clone>(v: Vec<Rc<Cst<T>>>)
    ensures cv(Cst::Sequence(v)) == SCst::Sequence(cvs(v@)), cv(Cst::Repetition(v)) == SCst::Repetition(cvs(v@)),
{
    reveal_with_fuel(cv, 2);
    if let SCst::Sequence(x) = cv(Cst::Sequence(v)) { assert(x =~= cvs(v@)); }
    if let SCst::Repetition(x) = cv(Cst::Repetition(v)) { assert(x =~= cvs(v@)); }
}
pub open spec fn prefix<T: PartialEq>(s: Seq<T>, v: Seq<T>) -> bool { v.len() <= s.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] s[i]).eq_spec(&v[i]) }
pub type Rules<T> = Map<Seq<char>, Rule<T>>;
pub open spec fn ev<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, name: Seq<char>, fuel: nat) -> Option<Out<T>>
    decreases fuel, 0int
{
    if fuel == 0 { None } else {
        let f = (fuel - 1) as nat;
        match g[name] {
            Rule::Terminal(v) => Some(if prefix(s, v@) { Out::Match(SCst::Terminal(v@), v@.len() as int) } else { Out::Fail }),
            Rule::Choice(o) => ev_choice(g, s, o@, 0, f),
            Rule::Sequence(p) => ev_seq(g, s, p@, 0, Seq::empty(), 0, f),
            Rule::Repetition(r) => ev_rep(g, s, r@, Seq::empty(), 0, f),
            Rule::Not(r) => match ev(g, s, r@, f) {
                None => None,
                Some(Out::Fail) => Some(Out::Match(SCst::Not(r@), 0)),
                Some(Out::Match(_, _)) => Some(Out::Fail),
            },
        }
    }
}
pub open spec fn ev_choice<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, o: Seq<&'static str>, i: int, fuel: nat) -> Option<Out<T>>
    decreases fuel, o.len() - i
{
    if i < 0 || i >= o.len() { Some(Out::Fail) } else {
        match ev(g, s, o[i]@, fuel) {
            None => None,
            Some(Out::Match(c, l)) => Some(Out::Match(SCst::Choice(o[i]@, Box::new(c)), l)),
            Some(Out::Fail) => ev_choice(g, s, o, i + 1, fuel),
        }
    }
}
pub open spec fn ev_seq<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, p: Seq<&'static str>, i: int, acc: Seq<SCst<T>>, len: int, fuel: nat) -> Option<Out<T>>
    decreases fuel, p.len() - i
{
    if i < 0 || i >= p.len() { Some(Out::Match(SCst::Sequence(acc), len)) } else {
        match ev(g, s.skip(len), p[i]@, fuel) {
            None => None,
            Some(Out::Fail) => Some(Out::Fail),
            Some(Out::Match(c, l)) => ev_seq(g, s, p, i + 1, acc.push(c), len + l, fuel),
        }
    }
}
pub open spec fn ev_rep<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, r: Seq<char>, acc: Seq<SCst<T>>, len: int, fuel: nat) -> Option<Out<T>>
    decreases fuel, 0int
{
    if fuel == 0 { None } else {
        let f = (fuel - 1) as nat;
        match ev(g, s.skip(len), r, f) {
            None => None,
            Some(Out::Fail) => Some(Out::Match(SCst::Repetition(acc), len)),
            Some(Out::Match(c, l)) => ev_rep(g, s, r, acc.push(c), len + l, f),
        }
    }
}
pub open spec fn holds<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, name: Seq<char>, o: Out<T>) -> bool { exists|f: nat| #[trigger] ev(g, s, name, f) == Some(o) }
pub open spec fn h_choice<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, p: Seq<&'static str>, i: int, o: Out<T>) -> bool { exists|f: nat| #[trigger] ev_choice(g, s, p, i, f) == Some(o) }
pub open spec fn h_seq<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, p: Seq<&'static str>, i: int, acc: Seq<SCst<T>>, len: int, o: Out<T>) -> bool { exists|f: nat| #[trigger] ev_seq(g, s, p, i, acc, len, f) == Some(o) }
pub open spec fn h_rep<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, r: Seq<char>, acc: Seq<SCst<T>>, len: int, o: Out<T>) -> bool { exists|f: nat| #[trigger] ev_rep(g, s, r, acc, len, f) == Some(o) }

// more fuel gives the same result
pub proof fn lem_mono<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, name: Seq<char>, f: nat, h: nat)
    requires f <= h, ev(g, s, name, f) is Some,
    ensures ev(g, s, name, h) == ev(g, s, name, f),
    decreases f, 0int
{
    let f1 = (f - 1) as nat;
    let h1 = (h - 1) as nat;
    match g[name] {
        Rule::Terminal(v) => {}
        Rule::Choice(o) => { lem_mono_choice(g, s, o@, 0, f1, h1); }
        Rule::Sequence(p) => { lem_mono_seq(g, s, p@, 0, Seq::empty(), 0, f1, h1); }
        Rule::Repetition(r) => { lem_mono_rep(g, s, r@, Seq::empty(), 0, f1, h1); }
        Rule::Not(r) => { lem_mono(g, s, r@, f1, h1); }
    }
}
pub proof fn lem_mono_choice<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, o: Seq<&'static str>, i: int, f: nat, h: nat)
    requires f <= h, ev_choice(g, s, o, i, f) is Some,
    ensures ev_choice(g, s, o, i, h) == ev_choice(g, s, o, i, f),
    decreases f, o.len() - i
{
    if i < 0 || i >= o.len() {} else {
        lem_mono(g, s, o[i]@, f, h);
        if ev(g, s, o[i]@, f) == Some(Out::<T>::Fail) { lem_mono_choice(g, s, o, i + 1, f, h); }
    }
}
pub proof fn lem_mono_seq<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, p: Seq<&'static str>, i: int, acc: Seq<SCst<T>>, len: int, f: nat, h: nat)
    requires f <= h, ev_seq(g, s, p, i, acc, len, f) is Some,
    ensures ev_seq(g, s, p, i, acc, len, h) == ev_seq(g, s, p, i, acc, len, f),
    decreases f, p.len() - i
{
    if i < 0 || i >= p.len() {} else {
        lem_mono(g, s.skip(len), p[i]@, f, h);
        if let Some(Out::Match(c, l)) = ev(g, s.skip(len), p[i]@, f) { lem_mono_seq(g, s, p, i + 1, acc.push(c), len + l, f, h); }
    }
}
pub proof fn lem_mono_rep<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, r: Seq<char>, acc: Seq<SCst<T>>, len: int, f: nat, h: nat)
    requires f <= h, ev_rep(g, s, r, acc, len, f) is Some,
    ensures ev_rep(g, s, r, acc, len, h) == ev_rep(g, s, r, acc, len, f),
    decreases f, 0int
{
    let f1 = (f - 1) as nat;
    let h1 = (h - 1) as nat;
    lem_mono(g, s.skip(len), r, f1, h1);
    if let Some(Out::Match(c, l)) = ev(g, s.skip(len), r, f1) { lem_mono_rep(g, s, r, acc.push(c), len + l, f1, h1); }
}
/// a grammar gives a text at most one result
pub proof fn lem_unique<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, name: Seq<char>, a: Out<T>, b: Out<T>)
    requires holds(g, s, name, a), holds(g, s, name, b),
    ensures a == b,
{
    let f = choose|f: nat| #[trigger] ev(g, s, name, f) == Some(a);
    let h = choose|f: nat| #[trigger] ev(g, s, name, f) == Some(b);
    if f <= h { lem_mono(g, s, name, f, h); } else { lem_mono(g, s, name, h, f); }
}
// ---- dependence of a result on the first n tokens (looking past the end counts) ----
pub open spec fn agree<T>(a: Seq<T>, b: Seq<T>, n: int) -> bool {
    a == b || (n <= a.len() && n <= b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < n ==> a[i] == b[i])
}
pub open spec fn out_len<T>(o: Out<T>) -> int { match o { Out::Fail => 0, Out::Match(_, l) => l } }
/// rule `name` gives `o` on s, and on every text that agrees with s on the first n tokens
pub open spec fn stable<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, name: Seq<char>, o: Out<T>, n: int) -> bool {
    &&& 0 <= out_len(o) <= n
    &&& out_len(o) <= s.len()
    &&& forall|t: Seq<T>| #[trigger] agree(s, t, n) ==> holds(g, t, name, o)
}
pub proof fn lem_stable_more<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, name: Seq<char>, o: Out<T>, n: int, m: int)
    requires stable(g, s, name, o, n), n <= m,
    ensures stable(g, s, name, o, m), holds(g, s, name, o),
{
    assert forall|t: Seq<T>| #[trigger] agree(s, t, m) implies holds(g, t, name, o) by { assert(agree(s, t, n)); }
    assert(agree(s, s, n));
}
pub proof fn lem_stable_all<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, name: Seq<char>, o: Out<T>, n: int)
    requires stable(g, s, name, o, n),
    ensures forall|m: int| m >= n ==> #[trigger] stable(g, s, name, o, m),
{
    assert forall|m: int| m >= n implies #[trigger] stable(g, s, name, o, m) by { lem_stable_more(g, s, name, o, n, m); }
}
/// a result survives a change of the text beyond what it examined
pub proof fn lem_stable_move<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, s2: Seq<T>, name: Seq<char>, o: Out<T>, n: int)
    requires stable(g, s, name, o, n), agree(s, s2, n),
    ensures stable(g, s2, name, o, n),
{
    assert forall|t: Seq<T>| #[trigger] agree(s2, t, n) implies holds(g, t, name, o) by {
        assert(agree(s, t, n));
    }
}
// ---- terminal ----
pub proof fn lem_terminal<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, name: Seq<char>, v: Seq<T>, k: int, ok: bool)
    requires g[name] matches Rule::Terminal(x) && x@ == v, 0 <= k <= v.len(),
        prefix(s, v.take(k)),
        ok ==> k == v.len(),
        !ok ==> k < v.len() && !(k < s.len() && s[k].eq_spec(&v[k])),
    ensures stable(g, s, name, if ok { Out::Match(SCst::Terminal(v), v.len() as int) } else { Out::Fail }, if ok { k } else { k + 1 }),
{
    let o = if ok { Out::Match(SCst::Terminal(v), v.len() as int) } else { Out::Fail };
    let n = if ok { k } else { k + 1 };
    assert forall|t: Seq<T>| #[trigger] agree(s, t, n) implies holds(g, t, name, o) by {
        if ok {
            assert forall|i: int| 0 <= i < v.len() implies (#[trigger] t[i]).eq_spec(&v[i]) by { assert(s[i] == t[i]); assert(v.take(k)[i] == v[i]); }
            if v.len() > 0 { assert(s[v.len() - 1] == t[v.len() - 1]); }
            assert(prefix(t, v));
        } else if prefix(t, v) {
            assert(t[k].eq_spec(&v[k]));
            assert(k < t.len());
            assert(s[k] == t[k]);
        }
        assert(ev(g, t, name, 1) == Some(o));
    }
}
// ---- choice ----
pub open spec fn choice_inv<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, p: Seq<&'static str>, i: int, n: int) -> bool {
    forall|t: Seq<T>, o: Out<T>| #[trigger] agree(s, t, n) && #[trigger] h_choice(g, t, p, i, o) ==> h_choice(g, t, p, 0, o)
}
pub proof fn lem_choice_step<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, p: Seq<&'static str>, i: int, n: int, m: int)
    requires choice_inv(g, s, p, i, n), 0 <= i < p.len(), n <= m, stable(g, s, p[i]@, Out::Fail, m),
    ensures choice_inv(g, s, p, i + 1, m),
{
    assert forall|t: Seq<T>, o: Out<T>| #[trigger] agree(s, t, m) && #[trigger] h_choice(g, t, p, i + 1, o) implies h_choice(g, t, p, 0, o) by {
        let f = choose|f: nat| #[trigger] ev_choice(g, t, p, i + 1, f) == Some(o);
        assert(holds(g, t, p[i]@, Out::<T>::Fail));
        let h = choose|h: nat| #[trigger] ev(g, t, p[i]@, h) == Some(Out::<T>::Fail);
        let k = if f > h { f } else { h };
        lem_mono_choice(g, t, p, i + 1, f, k);
        lem_mono(g, t, p[i]@, h, k);
        assert(ev_choice(g, t, p, i, k) == Some(o));
        assert(agree(s, t, n));
        assert(h_choice(g, t, p, i, o));
    }
}
pub proof fn lem_choice_hit<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, name: Seq<char>, p: Seq<&'static str>, i: int, n: int, c: SCst<T>, l: int, m: int)
    requires g[name] matches Rule::Choice(x) && x@ == p, choice_inv(g, s, p, i, n), 0 <= i < p.len(), n <= m, stable(g, s, p[i]@, Out::Match(c, l), m),
    ensures stable(g, s, name, Out::Match(SCst::Choice(p[i]@, Box::new(c)), l), m),
{
    let o = Out::Match(SCst::Choice(p[i]@, Box::new(c)), l);
    assert forall|t: Seq<T>| #[trigger] agree(s, t, m) implies holds(g, t, name, o) by {
        assert(holds(g, t, p[i]@, Out::Match(c, l)));
        let h = choose|h: nat| #[trigger] ev(g, t, p[i]@, h) == Some(Out::Match(c, l));
        assert(ev_choice(g, t, p, i, h) == Some(o));
        assert(agree(s, t, n));
        assert(h_choice(g, t, p, i, o));
        let f = choose|f: nat| #[trigger] ev_choice(g, t, p, 0, f) == Some(o);
        assert(ev(g, t, name, f + 1) == Some(o));
    }
}
pub proof fn lem_choice_end<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, name: Seq<char>, p: Seq<&'static str>, n: int)
    requires g[name] matches Rule::Choice(x) && x@ == p, choice_inv(g, s, p, p.len() as int, n), 0 <= n,
    ensures stable(g, s, name, Out::Fail, n),
{
    assert forall|t: Seq<T>| #[trigger] agree(s, t, n) implies holds(g, t, name, Out::<T>::Fail) by {
        assert(ev_choice(g, t, p, p.len() as int, 0) == Some(Out::<T>::Fail));
        assert(h_choice(g, t, p, p.len() as int, Out::<T>::Fail));
        let f = choose|f: nat| #[trigger] ev_choice(g, t, p, 0, f) == Some(Out::<T>::Fail);
        assert(ev(g, t, name, f + 1) == Some(Out::<T>::Fail));
    }
}
// ---- sequence ----
pub open spec fn seq_inv<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, p: Seq<&'static str>, i: int, acc: Seq<SCst<T>>, len: int, n: int) -> bool {
    &&& 0 <= len <= n && len <= s.len()
    &&& forall|t: Seq<T>, o: Out<T>| #[trigger] agree(s, t, n) && #[trigger] h_seq(g, t, p, i, acc, len, o) ==> h_seq(g, t, p, 0, Seq::empty(), 0, o)
}
/// agreement of the texts after skipping len tokens
pub proof fn lem_agree_skip<T>(s: Seq<T>, t: Seq<T>, len: int, k: int, m: int)
    requires agree(s, t, m), 0 <= len <= s.len(), len <= m, 0 <= k, k > 0 ==> len + k <= m,
    ensures agree(s.skip(len), t.skip(len), k), len <= t.len(),
{
    if s != t {
        assert forall|i: int| 0 <= i < k implies s.skip(len)[i] == #[trigger] t.skip(len)[i] by { assert(s[len + i] == t[len + i]); }
        assert forall|i: int| 0 <= i < k implies #[trigger] s.skip(len)[i] == t.skip(len)[i] by { assert(s[len + i] == t[len + i]); }
    }
}
pub proof fn lem_seq_step<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, p: Seq<&'static str>, i: int, acc: Seq<SCst<T>>, len: int, n: int, c: SCst<T>, l: int, k: int, m: int)
    requires seq_inv(g, s, p, i, acc, len, n), 0 <= i < p.len(), n <= m, 0 <= k, k > 0 ==> len + k <= m,
        stable(g, s.skip(len), p[i]@, Out::Match(c, l), k),
    ensures seq_inv(g, s, p, i + 1, acc.push(c), len + l, m),
{
    let a2 = acc.push(c);
    assert forall|t: Seq<T>, o: Out<T>| #[trigger] agree(s, t, m) && #[trigger] h_seq(g, t, p, i + 1, a2, len + l, o) implies h_seq(g, t, p, 0, Seq::empty(), 0, o) by {
        let f = choose|f: nat| #[trigger] ev_seq(g, t, p, i + 1, a2, len + l, f) == Some(o);
        lem_agree_skip(s, t, len, k, m);
        assert(holds(g, t.skip(len), p[i]@, Out::Match(c, l)));
        let h = choose|h: nat| #[trigger] ev(g, t.skip(len), p[i]@, h) == Some(Out::Match(c, l));
        let x = if f > h { f } else { h };
        lem_mono_seq(g, t, p, i + 1, a2, len + l, f, x);
        lem_mono(g, t.skip(len), p[i]@, h, x);
        assert(ev_seq(g, t, p, i, acc, len, x) == Some(o));
        assert(agree(s, t, n));
        assert(h_seq(g, t, p, i, acc, len, o));
    }
}
pub proof fn lem_seq_fail<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, name: Seq<char>, p: Seq<&'static str>, i: int, acc: Seq<SCst<T>>, len: int, n: int, k: int, m: int)
    requires g[name] matches Rule::Sequence(x) && x@ == p, seq_inv(g, s, p, i, acc, len, n), 0 <= i < p.len(), n <= m, 0 <= k, k > 0 ==> len + k <= m,
        stable(g, s.skip(len), p[i]@, Out::Fail, k),
    ensures stable(g, s, name, Out::Fail, m),
{
    assert forall|t: Seq<T>| #[trigger] agree(s, t, m) implies holds(g, t, name, Out::<T>::Fail) by {
        lem_agree_skip(s, t, len, k, m);
        assert(holds(g, t.skip(len), p[i]@, Out::<T>::Fail));
        let h = choose|h: nat| #[trigger] ev(g, t.skip(len), p[i]@, h) == Some(Out::<T>::Fail);
        assert(ev_seq(g, t, p, i, acc, len, h) == Some(Out::<T>::Fail));
        assert(agree(s, t, n));
        assert(h_seq(g, t, p, i, acc, len, Out::<T>::Fail));
        let f = choose|f: nat| #[trigger] ev_seq(g, t, p, 0, Seq::empty(), 0, f) == Some(Out::<T>::Fail);
        assert(ev(g, t, name, f + 1) == Some(Out::<T>::Fail));
    }
}
pub proof fn lem_seq_end<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, name: Seq<char>, p: Seq<&'static str>, acc: Seq<SCst<T>>, len: int, n: int)
    requires g[name] matches Rule::Sequence(x) && x@ == p, seq_inv(g, s, p, p.len() as int, acc, len, n),
    ensures stable(g, s, name, Out::Match(SCst::Sequence(acc), len), n),
{
    let o = Out::Match(SCst::Sequence(acc), len);
    assert forall|t: Seq<T>| #[trigger] agree(s, t, n) implies holds(g, t, name, o) by {
        assert(ev_seq(g, t, p, p.len() as int, acc, len, 0) == Some(o));
        assert(h_seq(g, t, p, p.len() as int, acc, len, o));
        let f = choose|f: nat| #[trigger] ev_seq(g, t, p, 0, Seq::empty(), 0, f) == Some(o);
        assert(ev(g, t, name, f + 1) == Some(o));
    }
}
// ---- repetition ----
pub open spec fn rep_inv<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, r: Seq<char>, acc: Seq<SCst<T>>, len: int, n: int) -> bool {
    &&& 0 <= len <= n && len <= s.len()
    &&& forall|t: Seq<T>, o: Out<T>| #[trigger] agree(s, t, n) && #[trigger] h_rep(g, t, r, acc, len, o) ==> h_rep(g, t, r, Seq::empty(), 0, o)
}
pub proof fn lem_rep_step<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, r: Seq<char>, acc: Seq<SCst<T>>, len: int, n: int, c: SCst<T>, l: int, k: int, m: int)
    requires rep_inv(g, s, r, acc, len, n), n <= m, 0 <= k, k > 0 ==> len + k <= m,
        stable(g, s.skip(len), r, Out::Match(c, l), k),
    ensures rep_inv(g, s, r, acc.push(c), len + l, m),
{
    let a2 = acc.push(c);
    assert forall|t: Seq<T>, o: Out<T>| #[trigger] agree(s, t, m) && #[trigger] h_rep(g, t, r, a2, len + l, o) implies h_rep(g, t, r, Seq::empty(), 0, o) by {
        let f = choose|f: nat| #[trigger] ev_rep(g, t, r, a2, len + l, f) == Some(o);
        lem_agree_skip(s, t, len, k, m);
        assert(holds(g, t.skip(len), r, Out::Match(c, l)));
        let h = choose|h: nat| #[trigger] ev(g, t.skip(len), r, h) == Some(Out::Match(c, l));
        let x = if f > h { f } else { h };
        lem_mono_rep(g, t, r, a2, len + l, f, x);
        lem_mono(g, t.skip(len), r, h, x);
        assert(ev_rep(g, t, r, acc, len, x + 1) == Some(o));
        assert(agree(s, t, n));
        assert(h_rep(g, t, r, acc, len, o));
    }
}
pub proof fn lem_rep_end<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, name: Seq<char>, r: Seq<char>, acc: Seq<SCst<T>>, len: int, n: int, k: int, m: int)
    requires g[name] matches Rule::Repetition(x) && x@ == r, rep_inv(g, s, r, acc, len, n), n <= m, 0 <= k, k > 0 ==> len + k <= m,
        stable(g, s.skip(len), r, Out::Fail, k),
    ensures stable(g, s, name, Out::Match(SCst::Repetition(acc), len), m),
{
    let o = Out::Match(SCst::Repetition(acc), len);
    assert forall|t: Seq<T>| #[trigger] agree(s, t, m) implies holds(g, t, name, o) by {
        lem_agree_skip(s, t, len, k, m);
        assert(holds(g, t.skip(len), r, Out::<T>::Fail));
        let h = choose|h: nat| #[trigger] ev(g, t.skip(len), r, h) == Some(Out::<T>::Fail);
        assert(ev_rep(g, t, r, acc, len, h + 1) == Some(o));
        assert(agree(s, t, n));
        assert(h_rep(g, t, r, acc, len, o));
        let f = choose|f: nat| #[trigger] ev_rep(g, t, r, Seq::empty(), 0, f) == Some(o);
        assert(ev(g, t, name, f + 1) == Some(o));
    }
}
// ---- negative lookahead ----
pub proof fn lem_not<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, name: Seq<char>, r: Seq<char>, inner: Out<T>, n: int)
    requires g[name] matches Rule::Not(x) && x@ == r, stable(g, s, r, inner, n),
    ensures stable(g, s, name, if inner is Fail { Out::Match(SCst::Not(r), 0) } else { Out::Fail }, n),
{
    let o = if inner is Fail { Out::Match(SCst::Not(r), 0) } else { Out::Fail };
    assert forall|t: Seq<T>| #[trigger] agree(s, t, n) implies holds(g, t, name, o) by {
        assert(holds(g, t, r, inner));
        let h = choose|h: nat| #[trigger] ev(g, t, r, h) == Some(inner);
        assert(ev(g, t, name, h + 1) == Some(o));
    }
}
pub proof fn lem_not_all<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, name: Seq<char>, r: Seq<char>)
    requires g[name] matches Rule::Not(x) && x@ == r,
    ensures forall|inner: Out<T>, n: int| #[trigger] stable(g, s, r, inner, n) ==> stable(g, s, name, if inner is Fail { Out::Match(SCst::Not(r), 0) } else { Out::Fail }, n),
{
    assert forall|inner: Out<T>, n: int| #[trigger] stable(g, s, r, inner, n) implies stable(g, s, name, if inner is Fail { Out::Match(SCst::Not(r), 0) } else { Out::Fail }, n) by { lem_not(g, s, name, r, inner, n); }
}
pub proof fn lem_stable_holds<T: Clone + PartialEq>(g: Rules<T>, s: Seq<T>, name: Seq<char>)
    ensures forall|o: Out<T>, n: int| #[trigger] stable(g, s.skip(0), name, o, n) ==> holds(g, s, name, o),
{
    assert(s.skip(0) =~= s);
    assert forall|o: Out<T>, n: int| #[trigger] stable(g, s.skip(0), name, o, n) implies holds(g, s, name, o) by { assert(agree(s, s, n)); }
}
