#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::ops::Range as StdRange;
//@file lsp crates/analyzer-core/src/lsp_file.rs
//@method lsp enumerate v_enumerate
//@method lsp skip v_skip
//@method lsp splice v_splice
//@method lsp replace_range v_replace_range
//@method lsp binary_search v_binary_search
verus! {
global size_of usize == 8;
//@include prelude_iter.vrs
//@include prelude_text.vrs
//@include prelude_edit.vrs

//@item lsp struct Position [derive=Debug,Copy,Clone lexord open]
//@item lsp struct Range [derive=Copy,Clone open]
//@item lsp struct ChangeEvent [open]
//@item lsp struct LspFile [open]

// ---------------- trusted contracts of std / logos functions used by the code ----------------
pub assume_specification<'a>[ <std::str::Chars<'a> as Iterator>::count ](it: std::str::Chars<'a>) -> (r: usize)
    ensures r == it.remaining().len();
pub assume_specification<'a>[ <std::str::Chars<'a> as Clone>::clone ](it: &std::str::Chars<'a>) -> (r: std::str::Chars<'a>)
    ensures r == *it;
pub assume_specification<'a>[ <std::str::Chars<'a> as Iterator>::last ](it: std::str::Chars<'a>) -> (r: Option<char>)
    ensures r == (if it.remaining().len() == 0 { None } else { Some(it.remaining().last()) });
pub assume_specification[ std::string::String::as_bytes ](s: &std::string::String) -> (r: &[u8])
    ensures r@ == vstd::utf8::encode_utf8(s@);
pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else ](x: Result<T, E>, f: F) -> (r: T)
    requires x matches Err(e) ==> f.requires((e,)),
    ensures x matches Ok(v) ==> r == v, x matches Err(e) ==> f.ensures((e,), r);
pub broadcast axiom fn axiom_string_max(s: String)
    ensures #[trigger] blen(s@) <= isize::MAX;
/// logos::Source::slice on text (str::get)
pub trait Source {
    spec fn text(&self) -> Seq<char>;
    fn slice(&self, r: std::ops::Range<usize>) -> (o: Option<&str>)
        ensures match o {
            Some(t) => r.start <= r.end && is_bnd(self.text(), r.start as int) && is_bnd(self.text(), r.end as int)
                && t@ == self.text().subrange(cidx(self.text(), r.start as int), cidx(self.text(), r.end as int)),
            None => !(r.start <= r.end && is_bnd(self.text(), r.start as int) && is_bnd(self.text(), r.end as int)),
        };
}
impl Source for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn slice(&self, r: std::ops::Range<usize>) -> (o: Option<&str>) { self.get(r) }
}
impl Source for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn slice(&self, r: std::ops::Range<usize>) -> (o: Option<&str>) { self.get(r) }
}
/// <[usize]>::binary_search
pub trait VSliceExt { 
    spec fn elems(&self) -> Seq<int>;
    fn v_binary_search(&self, x: &usize) -> (r: Result<usize, usize>)
    ensures (forall|j: int, k: int| 0 <= j < k < self.elems().len() ==> self.elems()[j] <= self.elems()[k]) ==> match r {
        Ok(i) => i < self.elems().len() && self.elems()[i as int] == *x,
        Err(i) => i <= self.elems().len() && (forall|j: int| 0 <= j < i ==> self.elems()[j] < *x)
            && (forall|j: int| i <= j < self.elems().len() ==> self.elems()[j] > *x),
    };
}
impl VSliceExt for Vec<usize> {
    open spec fn elems(&self) -> Seq<int> { ints(self@) }
    #[verifier::external_body]
    fn v_binary_search(&self, x: &usize) -> (r: Result<usize, usize>) { self.binary_search(x) }
}

pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](x: Option<T>, d: U, f: F) -> (r: U)
    requires x matches Some(v) ==> f.requires((v,)),
    ensures x matches Some(v) ==> f.ensures((v,), r), x is None ==> r == d;
/// String::replace_range
pub trait VStringExt {
    spec fn text(&self) -> Seq<char>;
    fn v_replace_range(&mut self, r: std::ops::Range<usize>, with: &str)
        requires r.start <= r.end, is_bnd(old(self).text(), r.start as int), is_bnd(old(self).text(), r.end as int),
        ensures final(self).text() == old(self).text().take(cidx(old(self).text(), r.start as int)) + with@ + old(self).text().skip(cidx(old(self).text(), r.end as int));
}
impl VStringExt for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_replace_range(&mut self, r: std::ops::Range<usize>, with: &str) { self.replace_range(r, with) }
}
/// Vec::splice used as a statement: replaces the range
pub trait VVecExt<T>: Sized {
    spec fn vv(&self) -> Seq<T>;
    fn v_splice(&mut self, r: std::ops::Range<usize>, with: Vec<T>)
        requires r.start <= r.end <= old(self).vv().len(),
        ensures final(self).vv() == old(self).vv().take(r.start as int) + with@ + old(self).vv().skip(r.end as int);
}
impl<T> VVecExt<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_splice(&mut self, r: std::ops::Range<usize>, with: Vec<T>) { self.splice(r, with); }
}

/// &mut Vec as IntoIterator: yields one mutable reference per element; element i ends up as the reference's final value
pub assume_specification<'a, T, A: std::alloc::Allocator>[ <&'a mut Vec<T, A> as IntoIterator>::into_iter ](v: &'a mut Vec<T, A>) -> (r: <&'a mut Vec<T, A> as IntoIterator>::IntoIter)
    ensures
        IteratorSpec::remaining(&r).len() == old(v)@.len(), final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < old(v)@.len() ==> *(#[trigger] IteratorSpec::remaining(&r)[i]) == old(v)@[i],
        forall|i: int| #![trigger final(v)@[i]] #![trigger IteratorSpec::remaining(&r)[i]]
            0 <= i < old(v)@.len() ==> final(v)@[i] == *final(IteratorSpec::remaining(&r)[i]),
        IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::will_return_none(&r), IteratorSpec::decrease(&r) is Some;
/// IterMut::skip: the skipped elements keep their value
pub trait VIterMutExt<'a, T>: Sized {
    #[verifier::prophetic]
    spec fn rem(&self) -> Seq<&'a mut T>;
    fn v_skip(self, n: usize) -> (r: std::iter::Skip<std::slice::IterMut<'a, T>>)
        ensures
            n <= self.rem().len() ==> IteratorSpec::remaining(&r) == self.rem().skip(n as int),
            forall|i: int| n <= i < self.rem().len() ==> #[trigger] IteratorSpec::remaining(&r)[i - n] == self.rem()[i],
            forall|i: int| n <= i < self.rem().len() ==> IteratorSpec::remaining(&r)[i - n] == #[trigger] self.rem()[i],
            n > self.rem().len() ==> IteratorSpec::remaining(&r).len() == 0,
            forall|i: int| 0 <= i < n && i < self.rem().len() ==> *final(#[trigger] self.rem()[i]) == *self.rem()[i],
            IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::will_return_none(&r), IteratorSpec::decrease(&r) is Some;
}
impl<'a, T> VIterMutExt<'a, T> for std::slice::IterMut<'a, T> {
    #[verifier::prophetic]
    open spec fn rem(&self) -> Seq<&'a mut T> { IteratorSpec::remaining(self) }
    #[verifier::external_body]
    fn v_skip(self, n: usize) -> (r: std::iter::Skip<std::slice::IterMut<'a, T>>) { self.skip(n) }
}

impl LspFile {
    /// representation invariant: the line index describes the text
    pub open spec fn wf(&self) -> bool { ints(self.ranges@) == idx(self.file@) }
    pub proof fn lem_wf(&self)
        requires self.wf(),
        ensures self.ranges@.len() == idx(self.file@).len(), 
           forall|k: int| 0 <= k < self.ranges@.len() ==> (#[trigger] self.ranges@[k]) as int == idx(self.file@)[k],
           blen(self.file@) <= isize::MAX,
    {
        assert(ints(self.ranges@).len() == self.ranges@.len());
        assert forall|k: int| 0 <= k < self.ranges@.len() implies (#[trigger] self.ranges@[k]) as int == idx(self.file@)[k] by {
            assert(ints(self.ranges@)[k] == self.ranges@[k]);
        }
        axiom_string_max(self.file);
    }
}

impl LspFile {
//@fn lsp LspFile::parse_string
//@ret r
//@requires
    blen(string@) <= isize::MAX
//@ensures
    ints(r@) == idx(string@)
//@loop 0 iter it
        invariant
            string@.len() > 0,
            blen(string@) <= isize::MAX,
            it.seq().len() == string@.len(),
            forall|k: int| 0 <= k < string@.len() ==> (#[trigger] it.seq()[k]).1 == string@[k],
            byte_count == blen(string@.take(it.index())),
            ints(result@) == nlb(string@.take(it.index())),
//@loopstart 0
    proof {
        lem_blen_step(string@, it.index());
        lem_blen_sub(string@, it.index(), string@.len() as int);
        lem_clen(c);
        lem_blen_sub(string@, it.index() + 1, string@.len() as int);
        assert(string@.take(it.index() + 1).drop_last() =~= string@.take(it.index()));
        assert(string@.take(string@.len() as int) =~= string@);
        assert(forall|v: Seq<usize>, x: usize| #[trigger] ints(v.push(x)) =~= ints(v).push(x as int));
    }
//@afterloop 0
    proof {
        assert(string@.take(string@.len() as int) =~= string@);
        lem_idx(string@); lem_nl(string@); lem_blen_pos(string@);
        assert(forall|v: Seq<usize>, x: usize| #[trigger] ints(v.push(x)) =~= ints(v).push(x as int));
        assert(ints(result@).len() == result@.len());
        if string@.last() == '\n' { assert(ints(result@).last() == result@.last()); }
        if result@.len() > 0 { assert(ints(result@).last() == result@.last());
            if string@.last() != '\n' { lem_nl(string@.drop_last()); lem_clen(string@.last()); }
        }
    }
//@endfn

//@fn lsp LspFile::line_end
//@ret r
//@requires
    self.wf(), line < idx(self.file@).len(),
//@ensures
    r == lend(self.file@, line as int)
//@start
    proof {
        self.lem_wf(); lem_idx(self.file@); lem_nl(self.file@); lem_line(self.file@, line as int);
        lem_enc_len(self.file@);
        let c = cidx(self.file@, idx(self.file@)[line as int] + 1);
        lem_bnd(self.file@, idx(self.file@)[line as int] + 1);
        assert(c > 0) by { if c == 0 { assert(self.file@.take(0) =~= Seq::<char>::empty()); } }
        lem_enc_last_byte(self.file@, c - 1);
        if line >= nlb(self.file@).len() { assert(self.file@.last() != '\n'); assert(c == self.file@.len()); }
    }
//@endfn

//@fn lsp LspFile::line_char
//@ret r
//@requires
    self.wf(),
//@ensures
    line >= idx(self.file@).len() ==> r == 0,
    line < idx(self.file@).len() ==> r == cidx(self.file@, idx(self.file@)[line as int] + 1) - cidx(self.file@, lstart(self.file@, line as int)),
//@start
    proof {
        self.lem_wf(); lem_idx(self.file@);
        if line < idx(self.file@).len() {
            lem_line(self.file@, line as int);
            lem_bnd(self.file@, idx(self.file@)[line as int] + 1);
            lem_bnd(self.file@, lstart(self.file@, line as int));
            let a = cidx(self.file@, lstart(self.file@, line as int));
            let b = cidx(self.file@, idx(self.file@)[line as int] + 1);
            if a > b { lem_blen_sub(self.file@, b, a); }
        }
    }
//@endfn

//@fn lsp LspFile::lsp_to_byte
//@ret r
//@requires
    self.wf(),
//@ensures
    r == p2b(self.file@, lsp_pos.line as int, lsp_pos.character as int),
    is_bnd(self.file@, r as int), r <= blen(self.file@),
//@start
    let ghost s = self.file@;
    let ghost cs = content(s, lsp_pos.line as int);
    proof {
        self.lem_wf(); lem_idx(s); lem_blen_pos(s); lem_p2b(s, lsp_pos.line as int, lsp_pos.character as int);
        if lsp_pos.line < idx(s).len() { lem_line(s, lsp_pos.line as int); }
    }
//@loop 0 iter it
        invariant_except_break
            byte_count == blen(cs.take(it.index())),
            it.index() <= lsp_pos.character,
        invariant
            it.seq().len() == cs.len(),
            forall|k: int| 0 <= k < cs.len() ==> (#[trigger] it.seq()[k]) == (k as usize, cs[k]),
            cs.len() <= blen(cs) <= isize::MAX,
        ensures
            byte_count == blen(cs.take(imin(lsp_pos.character as int, cs.len() as int))),
//@beforeloop 0
    proof { lem_blen_pos(cs); assert(cs.take(0) =~= Seq::<char>::empty()); assert(cs == slice.remaining());}
//@loopstart 0
    proof { lem_blen_step(cs, it.index()); lem_blen_sub(cs, it.index() + 1, cs.len() as int); assert(cs.take(cs.len() as int) =~= cs); }
//@endfn

//@fn lsp LspFile::byte_to_lsp
//@ret r
//@requires
    self.wf(),
//@ensures
    (r.line as int, r.character as int) == b2p(self.file@, byte_pos as int),
//@start
    let ghost s = self.file@;
    let ghost l = below(idx(s), byte_pos as int);
    let ghost cs = content(s, l);
    proof {
        self.lem_wf(); lem_idx(s); lem_blen_pos(s); lem_below(idx(s), byte_pos as int);
        if byte_pos < blen(s) && s.len() > 0 { lem_line(s, l); assert(lstart(s, l) <= byte_pos); }
    }
//@closure 0 |x: usize| -> (y: usize) ensures y == x
//@beforeloop 0
    proof { lem_below_unique(idx(s), byte_pos as int, line as int); lem_blen_pos(cs); assert(cs.take(0) =~= Seq::<char>::empty()); 
       assert(cs.take(cs.len() as int) =~= cs); assert(cs == slice.remaining()); if cs.len() == 0 { lem_fit_unique(cs, byte_pos - lstart(s, l), 0); } }
//@loop 0 iter it
        invariant_except_break
            char == cs.len(),
            byte_count == lstart(s, l) + blen(cs.take(it.index())),
            byte_count <= byte_pos,
            it.index() == cs.len() ==> fit(cs, byte_pos - lstart(s, l)) == cs.len(),
        invariant
            it.seq().len() == cs.len(),
            forall|k: int| 0 <= k < cs.len() ==> (#[trigger] it.seq()[k]) == (k as usize, cs[k]),
            cs.len() <= blen(cs), lstart(s, l) + blen(cs) <= isize::MAX,
        ensures
            char == fit(cs, byte_pos - lstart(s, l)),
//@loopstart 0
    proof { lem_blen_step(cs, it.index()); lem_blen_sub(cs, it.index() + 1, cs.len() as int); assert(cs.take(cs.len() as int) =~= cs);
        lem_blen_pos(cs.take(it.index()));
        if lstart(s, l) + blen(cs.take(it.index() + 1)) > byte_pos { lem_fit_unique(cs, byte_pos - lstart(s, l), it.index()); }
        else if it.index() + 1 == cs.len() { lem_fit_unique(cs, byte_pos - lstart(s, l), cs.len() as int); } }
//@endfn

//@fn lsp LspFile::lsp_to_lsp
//@ret r
//@requires
    self.wf(),
//@ensures
    (r.line as int, r.character as int) == b2p(self.file@, p2b(self.file@, lsp_pos.line as int, lsp_pos.character as int)),
//@endfn

//@fn lsp LspFile::lsp_range_to_byte_range
//@ret r
//@requires
    self.wf(),
//@ensures
    r.start == p2b(self.file@, lsp_range.start.line as int, lsp_range.start.character as int),
    r.end == p2b(self.file@, lsp_range.end.line as int, lsp_range.end.character as int),
//@endfn

//@fn lsp LspFile::byte_range_to_lsp_range
//@ret r
//@requires
    self.wf(),
//@ensures
    (r.start.line as int, r.start.character as int) == b2p(self.file@, byte_range.start as int),
    (r.end.line as int, r.end.character as int) == b2p(self.file@, byte_range.end as int),
//@endfn

//@fn lsp LspFile::new
//@ret r
//@ensures
    r.wf(), r.file@ == file@,
//@start
    proof { axiom_string_max(*file); }
//@endfn

//@fn lsp LspFile::get_file_content
//@ret r
//@ensures
    r@ == self.file@,
//@endfn

//@fn lsp LspFile::get_ranges
//@ret r
//@ensures
    r@ == self.ranges@,
//@endfn

//@fn lsp LspFile::lazy_add
//@requires
    old(self).wf(),
    blen(old(self).file@) + blen(changes.text@) <= isize::MAX,
    changes.range matches Some(r) ==>
        p2b(old(self).file@, r.start.line as int, r.start.character as int) <= p2b(old(self).file@, r.end.line as int, r.end.character as int),
//@ensures
    final(self).wf(),
    changes.range is None ==> final(self).file@ == changes.text@,
    changes.range matches Some(r) ==> final(self).file@ ==
        old(self).file@.take(cidx(old(self).file@, p2b(old(self).file@, r.start.line as int, r.start.character as int)))
        + changes.text@
        + old(self).file@.skip(cidx(old(self).file@, p2b(old(self).file@, r.end.line as int, r.end.character as int))),
//@closure 0 |value: &usize| -> (y: i64) ensures y == *value as i64
//@start
    let ghost gs = self.file@;
    let ghost gt = changes.text@;
    let ghost sb = if changes.range is Some { p2b(gs, changes.range->0.start.line as int, changes.range->0.start.character as int) } else { 0 };
    let ghost eb = if changes.range is Some { p2b(gs, changes.range->0.end.line as int, changes.range->0.end.character as int) } else { 0 };
    let ghost ga = gs.take(cidx(gs, sb));
    let ghost gb = gs.skip(cidx(gs, eb));
    let ghost gl = idx(gs);
    let ghost el = b2p(gs, eb).0;
    let ghost tailing_spec = p2b(gs, b2p(gs, eb).0 + 1, 0) - eb;
    proof {
        self.lem_wf(); axiom_string_max(changes.text);
        assert(ints(self.ranges@).len() == gl.len());
        assert(gs.len() == 0 <==> gl.len() == 0) by { lem_idx(gs); }
        assert(gt.len() == 0 <==> idx(gt).len() == 0) by { lem_idx(gt); }
        assert(gt.len() > 0 ==> idx(gt).last() == blen(gt) - 1) by { lem_idx(gt); }
        assert(blen(gt) >= 0 && (gt.len() == 0 ==> blen(gt) == 0)) by { lem_blen_pos(gt); }
        if gs.len() == 0 { assert(gs.take(0) =~= gs); lem_cidx(gs, 0); assert(ga + gt + gb =~= gt); }
        assert(ints(Seq::<usize>::empty()) =~= Seq::<int>::empty());
        assert(0xffff_ffff_ffff_ffffusize as i64 == -1i64) by (bit_vector);
        if changes.range is Some && gs.len() > 0 {
            let r = changes.range->0;
            lem_p2b(gs, r.start.line as int, r.start.character as int);
            lem_p2b(gs, r.end.line as int, r.end.character as int);
            lem_edit_facts(gs, gt, sb, eb);
            if gt.len() == 0 && eb == blen(gs) { lem_edit_index(gs, gt, sb, eb); }
            if ga.len() == 0 { assert(ga =~= Seq::<char>::empty()); }
        }
    }
//@loop 0 iter it
        invariant
            it.seq().len() == t0.len(), t0.len() == idx(gt).len(),
            forall|i: int| 0 <= i < t0.len() ==> (#[trigger] t0[i]) as int == idx(gt)[i],
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == t0[i],
            forall|i: int| 0 <= i < it.index() ==> *final(#[trigger] it.seq()[i]) == t0[i] + start_byte,
            forall|i: int| 0 <= i < idx(gt).len() ==> 0 <= #[trigger] idx(gt)[i] < blen(gt),
            blen(gt) <= isize::MAX, start_byte <= isize::MAX,
//@beforeloop 0
    let ghost t0 = additional_ranges@;
    proof {
        lem_idx(gt);
        assert(ints(t0).len() == t0.len());
        assert forall|i: int| 0 <= i < t0.len() implies (#[trigger] t0[i]) as int == idx(gt)[i] by { assert(ints(t0)[i] == t0[i]); }
        assert(start_byte == sb && end_byte == eb);
    }
//@afterloop 0
    proof {
        assert(ints(additional_ranges@) =~= shift(idx(gt), sb));
        assert(ints(additional_ranges@).len() == additional_ranges@.len());
        if gt.len() > 0 { assert(ints(additional_ranges@).last() == additional_ranges@.last()); }
    }
    let ghost t1 = additional_ranges@;
//@before /if start_line == range_size && self.file/
    let ghost add = additional_ranges@;
    proof {
        lem_additions(gs, gt, sb, eb, t1, add);
    }
//@before /let range = start_byte/
    let ghost old_r = self.ranges@;
    let ghost p = start_line as int;
    proof {
        assert(p == nlb(ga).len());
        lem_blen_append(ga + gt, gb); lem_blen_append(ga, gt);
    }
//@loop 1 iter it
        invariant
            kk == p + add.len(), kk <= r0.len(), start_line == p, len == add.len(),
            it.seq().len() == r0.len() - kk,
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == r0[i + kk],
            forall|i: int| 0 <= i < it.index() ==> *final(#[trigger] it.seq()[i]) == r0[i + kk] + diff,
            forall|i: int| kk <= i < r0.len() ==> (#[trigger] r0[i]) <= isize::MAX && 0 <= r0[i] + diff <= isize::MAX,
            -isize::MAX <= diff <= isize::MAX,
//@beforeloop 1
    let ghost r0 = self.ranges@;
    let ghost kk = p + add.len();
    proof {
        assert(r0.len() == self.ranges.len());
        assert(self.file@ == ga + gt + gb);
        assert(s == p);
        assert(r0 == old_r.take(p) + add + old_r.skip(e as int));
        lem_spliced(gs, gt, sb, eb, old_r, add, r0, p, e as int);
    }
//@afterloop 1
    proof {
        lem_finished(gs, gt, sb, eb, old_r, add, r0, self.ranges@, p, e as int);
    }
//@endfn
}
}
fn main() {}
