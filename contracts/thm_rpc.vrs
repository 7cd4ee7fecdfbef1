// ---- theorems over the framing ----
verus! {
proof fn lem_crlf()
    ensures enc(CRLF()) == seq![13u8, 10u8],
{ lem_ascii(CRLF()); assert(enc(CRLF()) =~= seq![13u8, 10u8]); }
/// the bytes of a line that ends in CRLF: no line feed before the last byte
proof fn lem_line(s: Seq<char>, rest: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != '\n',
    ensures ({
        let l = enc(s + CRLF());
        let b = l + rest;
        line_len(b) == l.len() && b.take(l.len() as int) == l && b.skip(l.len() as int) == rest && valid(l) && dec(l) == s + CRLF() && l.len() >= 2
            && l == enc(s) + seq![13u8, 10u8]
    }),
{
    let l = enc(s + CRLF());
    let b = l + rest;
    vstd::utf8::encode_utf8_concat(s, CRLF());
    lem_crlf();
    lem_no_lf(s);
    assert forall|i: int| 0 <= i < l.len() - 1 implies b[i] != 10u8 by {
        if i < enc(s).len() { assert(enc(s)[i] != 10u8); assert(b[i] == enc(s)[i]); }
    }
    assert(b[l.len() - 1] == 10u8);
    lem_first_line(b, (l.len() - 1) as nat);
    assert(b.take(l.len() as int) =~= l);
    assert(b.skip(l.len() as int) =~= rest);
    vstd::utf8::encode_utf8_valid_utf8(s + CRLF());
    vstd::utf8::encode_utf8_decode_utf8(s + CRLF());
}
proof fn lem_find_sep(name: Seq<char>, value: Seq<char>, i: int)
    requires forall|j: int| 0 <= j < name.len() ==> name[j] != ':', 0 <= i <= name.len(),
    ensures find_from(name + SEP() + value, SEP(), i) == Some(name.len() as int),
    decreases name.len() - i,
{
    let s = name + SEP() + value;
    if i == name.len() { assert(s.subrange(i, i + 2) =~= SEP()); }
    else {
        assert(s.subrange(i, i + 2)[0] == name[i]);
        assert(SEP()[0] == ':');
        lem_find_sep(name, value, i + 1);
    }
}
/// a header line is read as its name and value
pub proof fn lem_hdr(name: Seq<char>, value: Seq<char>, rest: Seq<u8>, size: Option<nat>)
    requires hdr_ok(name, value),
    ensures rd_hdr(hdr(name, value) + rest, size) == rd_hdr(rest, if name == CLEN() { parse_usize(value) } else { size }),
{
    let h = name + SEP() + value;
    assert forall|i: int| 0 <= i < h.len() implies h[i] != '\n' by {
        if i < name.len() { assert(h[i] == name[i]); } else if i >= name.len() + 2 { assert(h[i] == value[i - name.len() - 2]); }
    }
    lem_line(h, rest);
    let b = hdr(name, value) + rest;
    let l = h + CRLF();
    assert(l.skip(l.len() - 2) =~= CRLF());
    assert(l.take(l.len() - 2) =~= h);
    lem_find_sep(name, value, 0);
    assert(h.take(name.len() as int) =~= name);
    assert(h.skip(name.len() as int + 2) =~= value);
}
/// the empty line ends the header
pub proof fn lem_blank(rest: Seq<u8>, n: nat)
    ensures rd_hdr(enc(CRLF()) + rest, Some(n)) == rd_body(rest, n),
{
    let s = Seq::<char>::empty();
    assert(s + CRLF() =~= CRLF());
    lem_line(s, rest);
    assert(CRLF().skip(0) =~= CRLF());
    assert(CRLF().take(0).len() == 0);
}
pub open spec fn hdrs(hs: Seq<(Seq<char>, Seq<char>)>) -> Seq<u8> decreases hs.len() {
    if hs.len() == 0 { Seq::empty() } else { hdr(hs[0].0, hs[0].1) + hdrs(hs.skip(1)) }
}
/// other headers
pub open spec fn others(hs: Seq<(Seq<char>, Seq<char>)>) -> bool { forall|i: int| 0 <= i < hs.len() ==> hdr_ok(#[trigger] hs[i].0, hs[i].1) && hs[i].0 != CLEN() }
pub proof fn lem_hdrs(hs: Seq<(Seq<char>, Seq<char>)>, rest: Seq<u8>, size: Option<nat>)
    requires others(hs),
    ensures rd_hdr(hdrs(hs) + rest, size) == rd_hdr(rest, size),
    decreases hs.len(),
{
    if hs.len() == 0 { assert(hdrs(hs) + rest =~= rest); }
    else {
        assert(hdrs(hs) + rest =~= hdr(hs[0].0, hs[0].1) + (hdrs(hs.skip(1)) + rest));
        lem_hdr(hs[0].0, hs[0].1, hdrs(hs.skip(1)) + rest, size);
        assert forall|i: int| 0 <= i < hs.skip(1).len() implies hdr_ok(#[trigger] hs.skip(1)[i].0, hs.skip(1)[i].1) && hs.skip(1)[i].0 != CLEN() by { assert(hs[i + 1].0 == hs.skip(1)[i].0); }
        lem_hdrs(hs.skip(1), rest, size);
    }
}
proof fn lem_clen_hdr(t: Seq<char>)
    requires enc(t).len() <= usize::MAX,
    ensures hdr_ok(CLEN(), dec_str(enc(t).len())), parse_usize(dec_str(enc(t).len())) == Some(enc(t).len()),
{ lem_dec_str(enc(t).len()); let d = dec_str(enc(t).len()); assert(forall|i: int| 0 <= i < d.len() ==> digit(d[i])); }
proof fn lem_body(t: Seq<char>, rest: Seq<u8>)
    ensures rd_body(enc(t) + rest, enc(t).len()) == Rd::Text(t, rest),
{
    assert((enc(t) + rest).take(enc(t).len() as int) =~= enc(t));
    assert((enc(t) + rest).skip(enc(t).len() as int) =~= rest);
    vstd::utf8::encode_utf8_valid_utf8(t);
    vstd::utf8::encode_utf8_decode_utf8(t);
}
/// THEOREM: a text framed with its length, with any other headers before and after, is read back, and what follows it is left
pub proof fn thm_read_back(pre: Seq<(Seq<char>, Seq<char>)>, post: Seq<(Seq<char>, Seq<char>)>, t: Seq<char>, rest: Seq<u8>)
    requires others(pre), others(post), enc(t).len() <= usize::MAX,
    ensures rd_msg(hdrs(pre) + hdr(CLEN(), dec_str(enc(t).len())) + hdrs(post) + enc(CRLF()) + enc(t) + rest) == Rd::Text(t, rest),
{
    let n = enc(t).len();
    let x4 = enc(t) + rest;
    let x3 = enc(CRLF()) + x4;
    let x2 = hdrs(post) + x3;
    let x1 = hdr(CLEN(), dec_str(n)) + x2;
    assert(hdrs(pre) + hdr(CLEN(), dec_str(n)) + hdrs(post) + enc(CRLF()) + enc(t) + rest =~= hdrs(pre) + x1);
    lem_hdrs(pre, x1, None);
    lem_clen_hdr(t);
    lem_hdr(CLEN(), dec_str(n), x2, None);
    lem_hdrs(post, x3, Some(n));
    lem_blank(x4, n);
    lem_body(t, rest);
}
/// THEOREM: a framed text is read back
pub proof fn thm_frame(t: Seq<char>, rest: Seq<u8>)
    requires enc(t).len() <= usize::MAX,
    ensures rd_msg(frame(t) + rest) == Rd::Text(t, rest),
{
    let e = Seq::<(Seq<char>, Seq<char>)>::empty();
    thm_read_back(e, e, t, rest);
    assert(frame(t) + rest =~= hdrs(e) + hdr(CLEN(), dec_str(enc(t).len())) + hdrs(e) + enc(CRLF()) + enc(t) + rest);
}
pub open spec fn frames(ts: Seq<Seq<char>>) -> Seq<u8> decreases ts.len() {
    if ts.len() == 0 { Seq::empty() } else { frame(ts[0]) + frames(ts.skip(1)) }
}
/// the texts of a stream, up to its end
pub open spec fn rd_all(b: Seq<u8>, fuel: nat) -> Option<Seq<Seq<char>>> decreases fuel {
    match rd_msg(b) {
        Rd::Eof => Some(Seq::empty()),
        Rd::Bad => None,
        Rd::Text(t, rest) => if fuel == 0 { None } else { match rd_all(rest, (fuel - 1) as nat) { Some(ts) => Some(seq![t] + ts), None => None } },
    }
}
/// THEOREM: the stream of several framed texts is read as these texts, in order, then its end
pub proof fn thm_stream(ts: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ts.len() ==> enc(#[trigger] ts[i]).len() <= usize::MAX,
    ensures rd_all(frames(ts), ts.len()) == Some(ts),
    decreases ts.len(),
{
    if ts.len() == 0 { assert(ts =~= Seq::empty()); }
    else {
        thm_frame(ts[0], frames(ts.skip(1)));
        assert(forall|i: int| 0 <= i < ts.skip(1).len() ==> #[trigger] ts.skip(1)[i] == ts[i + 1]);
        thm_stream(ts.skip(1));
        assert(seq![ts[0]] + ts.skip(1) =~= ts);
        assert((ts.len() - 1) as nat == ts.skip(1).len());
    }
}
/// a line without its line feed
proof fn lem_cut_line(s: Seq<char>, k: int)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != '\n', 0 < k < enc(s + CRLF()).len(),
    ensures ({
        let c = enc(s + CRLF()).take(k);
        line_len(c) == k && c.take(k) == c && (valid(c) ==> !ends(dec(c), CRLF()))
    }),
{
    let l = enc(s + CRLF());
    let c = l.take(k);
    lem_line(s, Seq::empty());
    lem_no_lf(s);
    assert forall|i: int| 0 <= i < k implies c[i] != 10u8 by { if i < enc(s).len() { assert(c[i] == enc(s)[i]); } }
    lem_no_line(c);
    assert(c.take(k) =~= c);
    if valid(c) && ends(dec(c), CRLF()) {
        let d = dec(c);
        vstd::utf8::decode_utf8_encode_utf8(c);
        let p = d.take(d.len() - 2);
        assert(d =~= p + CRLF());
        vstd::utf8::encode_utf8_concat(p, CRLF());
        lem_crlf();
        assert(c[c.len() - 1] == 10u8);
    }
}
proof fn lem_no_line(c: Seq<u8>)
    requires forall|i: int| 0 <= i < c.len() ==> c[i] != 10u8,
    ensures line_len(c) == c.len(),
    decreases c.len(),
{
    if c.len() > 0 {
        assert forall|i: int| 0 <= i < c.len() - 1 implies c.skip(1)[i] != 10u8 by { assert(c[i + 1] != 10u8); }
        lem_no_line(c.skip(1));
    }
}
/// THEOREM: no text is read from a frame that is cut short
pub proof fn thm_cut(t: Seq<char>, k: int)
    requires enc(t).len() <= usize::MAX, 0 <= k < frame(t).len(),
    ensures !(rd_msg(frame(t).take(k)) is Text),
{
    let n = enc(t).len();
    let h = hdr(CLEN(), dec_str(n));
    let hs = CLEN() + SEP() + dec_str(n);
    lem_clen_hdr(t);
    lem_crlf();
    let f = frame(t);
    let c = f.take(k);
    assert forall|i: int| 0 <= i < hs.len() implies hs[i] != '\n' by {
        if i < CLEN().len() { assert(hs[i] == CLEN()[i]); } else if i >= CLEN().len() + 2 { assert(hs[i] == dec_str(n)[i - CLEN().len() - 2]); }
    }
    if k == 0 { assert(line_len(c) == 0); }
    else if k < h.len() {
        assert(c =~= h.take(k));
        lem_cut_line(hs, k);
    } else {
        let c1 = c.skip(h.len() as int);
        assert(c =~= h + c1);
        lem_hdr(CLEN(), dec_str(n), c1, None);
        assert(parse_usize(dec_str(n)) == Some(n));
        if c1.len() == 0 { assert(line_len(c1) == 0); }
        else if c1.len() < 2 {
            assert(c1 =~= enc(CRLF()).take(1));
            let e = Seq::<char>::empty();
            assert(e + CRLF() =~= CRLF());
            lem_cut_line(e, 1);
        } else {
            let c2 = c1.skip(2);
            assert(c1 =~= enc(CRLF()) + c2);
            lem_blank(c2, n);
            assert(c2.len() < n);
        }
    }
}
}
verus! {
/// the literals of the code
proof fn lem_strlits()
    ensures "\r\n"@ == CRLF(), ": "@ == SEP(), "Content-Length"@ == CLEN(), "Content-Length: "@ == CLEN() + SEP(), "\r\n\r\n"@ == CRLF() + CRLF(),
        ""@ == Seq::<char>::empty(), "2.0"@ == seq!['2', '.', '0'],
{
    reveal_strlit("\r\n"); reveal_strlit(": "); reveal_strlit("Content-Length"); reveal_strlit("Content-Length: "); reveal_strlit("\r\n\r\n"); reveal_strlit(""); reveal_strlit("2.0");
    assert("\r\n"@ =~= CRLF()); assert(": "@ =~= SEP()); assert("Content-Length"@ =~= CLEN()); assert("Content-Length: "@ =~= CLEN() + SEP()); assert("\r\n\r\n"@ =~= CRLF() + CRLF());
    assert(""@ =~= Seq::<char>::empty()); assert("2.0"@ =~= seq!['2', '.', '0']);
}
proof fn lem_empty_text() ensures dec(Seq::<u8>::empty()) == Seq::<char>::empty() {
    let e = Seq::<char>::empty();
    lem_ascii(e);
    assert(enc(e) =~= Seq::<u8>::empty());
    vstd::utf8::encode_utf8_decode_utf8(e);
}
/// a frame is the encoding of one text
proof fn lem_frame_text(t: Seq<char>)
    ensures frame(t) == enc(CLEN() + SEP() + dec_str(enc(t).len()) + (CRLF() + CRLF())) + enc(t),
{
    let h = CLEN() + SEP() + dec_str(enc(t).len());
    vstd::utf8::encode_utf8_concat(h + CRLF(), CRLF());
    assert(h + (CRLF() + CRLF()) =~= h + CRLF() + CRLF());
}
}
