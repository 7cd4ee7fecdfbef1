// ---- byte streams, header text, and the framing of messages ----
verus! {
pub open spec fn enc(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub open spec fn dec(b: Seq<u8>) -> Seq<char> { vstd::utf8::decode_utf8(b) }
pub open spec fn valid(b: Seq<u8>) -> bool { vstd::utf8::valid_utf8(b) }
/// number of bytes of the first line of b, its line feed included
pub open spec fn line_len(b: Seq<u8>) -> nat decreases b.len() {
    if b.len() == 0 { 0 } else if b[0] == 10u8 { 1 } else { 1 + line_len(b.skip(1)) }
}
pub open spec fn digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn digits_val(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { digits_val(s.drop_last()) * 10 + (s.last() as nat - '0' as nat) as nat }
}
pub open spec fn all_digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
/// usize::from_str
pub open spec fn parse_usize(s: Seq<char>) -> Option<nat> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if all_digits(d) && digits_val(d) <= usize::MAX { Some(digits_val(d)) } else { None }
}
/// Display of an unsigned integer
pub open spec fn dec_str(n: nat) -> Seq<char> decreases n {
    let d = ('0' as nat + n % 10) as u8 as char;
    if n < 10 { seq![d] } else { dec_str(n / 10).push(d) }
}
pub open spec fn starts_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
/// first occurrence of p in s at or after i
pub open spec fn find_from(s: Seq<char>, p: Seq<char>, i: int) -> Option<int> decreases s.len() + 1 - i {
    if i < 0 || i + p.len() > s.len() { None } else if starts_at(s, p, i) { Some(i) } else { find_from(s, p, i + 1) }
}
pub open spec fn find_str(s: Seq<char>, p: Seq<char>) -> Option<int> { find_from(s, p, 0) }
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }

pub open spec fn CRLF() -> Seq<char> { seq!['\r', '\n'] }
pub open spec fn SEP() -> Seq<char> { seq![':', ' '] }
pub open spec fn CLEN() -> Seq<char> { seq!['C', 'o', 'n', 't', 'e', 'n', 't', '-', 'L', 'e', 'n', 'g', 't', 'h'] }

/// what a stream of bytes holds: its end, no message, or a text and what follows it
pub enum Rd { Eof, Bad, Text(Seq<char>, Seq<u8>) }
pub open spec fn rd_body(b: Seq<u8>, n: nat) -> Rd {
    if b.len() < n || !valid(b.take(n as int)) { Rd::Bad } else { Rd::Text(dec(b.take(n as int)), b.skip(n as int)) }
}
pub open spec fn rd_hdr(b: Seq<u8>, size: Option<nat>) -> Rd decreases b.len() {
    let k = line_len(b) as int;
    let l = dec(b.take(k));
    if k <= 0 || k > b.len() { Rd::Eof }
    else if !valid(b.take(k)) || !ends(l, CRLF()) { Rd::Bad }
    else {
        let h = l.take(l.len() - 2);
        let rest = b.skip(k);
        if h.len() == 0 { match size { Some(n) => rd_body(rest, n), None => Rd::Bad } }
        else { match find_str(h, SEP()) {
            None => Rd::Bad,
            Some(i) =>
                if h.take(i) == CLEN() { match parse_usize(h.skip(i + 2)) { Some(n) => rd_hdr(rest, Some(n)), None => Rd::Bad } }
                else { rd_hdr(rest, size) },
        } }
    }
}
/// the next message text of a stream
pub open spec fn rd_msg(b: Seq<u8>) -> Rd { rd_hdr(b, None) }
/// a header line
pub open spec fn hdr(name: Seq<char>, value: Seq<char>) -> Seq<u8> { enc(name + SEP() + value + CRLF()) }
/// the framing of a text
pub open spec fn frame(t: Seq<char>) -> Seq<u8> { hdr(CLEN(), dec_str(enc(t).len())) + enc(CRLF()) + enc(t) }

pub proof fn lem_line_len(b: Seq<u8>)
    ensures line_len(b) <= b.len(), b.len() > 0 ==> line_len(b) >= 1,
    decreases b.len(),
{ if b.len() > 0 && b[0] != 10u8 { lem_line_len(b.skip(1)); } }
/// the first line of x + "\n" + y, when x has no line feed
pub proof fn lem_first_line(b: Seq<u8>, n: nat)
    requires n < b.len(), b[n as int] == 10u8, forall|i: int| 0 <= i < n ==> b[i] != 10u8,
    ensures line_len(b) == n + 1,
    decreases n,
{
    if n > 0 {
        assert forall|i: int| 0 <= i < n - 1 implies b.skip(1)[i] != 10u8 by { assert(b[i + 1] != 10u8); }
        lem_first_line(b.skip(1), (n - 1) as nat);
    }
}
pub proof fn lem_dec_str(n: nat)
    ensures all_digits(dec_str(n)), digits_val(dec_str(n)) == n, dec_str(n)[0] != '+',
    decreases n,
{
    let d = ('0' as nat + n % 10) as u8 as char;
    assert(digit(d) && d as nat - '0' as nat == n % 10);
    if n < 10 {
        assert(seq![d].drop_last() =~= Seq::<char>::empty());
        assert(digits_val(seq![d].drop_last()) == 0);
    } else {
        lem_dec_str(n / 10);
        assert(dec_str(n).drop_last() =~= dec_str(n / 10));
        assert(n == (n / 10) * 10 + n % 10);
    }
}
/// bytes of ASCII text
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 127 }
pub proof fn lem_ascii(s: Seq<char>)
    requires ascii(s),
    ensures enc(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] enc(s)[i] == s[i] as u8,
{
    vstd::utf8::is_ascii_chars_encode_utf8(s);
}
/// what a header line adds: its name is not Content-Length or its value is a number; no line feed in it, no ": " in the name
pub open spec fn hdr_ok(name: Seq<char>, value: Seq<char>) -> bool {
    &&& forall|i: int| 0 <= i < name.len() ==> name[i] != '\n' && name[i] != ':'
    &&& forall|i: int| 0 <= i < value.len() ==> value[i] != '\n'
    &&& name == CLEN() ==> parse_usize(value) is Some
}
/// no byte of the encoding of a text without line feeds is a line feed
pub proof fn lem_no_lf(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != '\n',
    ensures forall|i: int| 0 <= i < enc(s).len() ==> #[trigger] enc(s)[i] != 10u8,
    decreases s.len(),
{
    if s.len() == 0 { assert(s =~= Seq::<char>::empty()); lem_ascii(s); }
    else {
        let p = s.drop_last();
        assert(s =~= p + seq![s.last()]);
        lem_no_lf(p);
        vstd::utf8::encode_utf8_concat(p, seq![s.last()]);
        lem_char_lf(s.last());
        assert forall|i: int| 0 <= i < enc(s).len() implies #[trigger] enc(s)[i] != 10u8 by {
            if i < enc(p).len() { assert(enc(p)[i] != 10u8); } else { assert(enc(seq![s.last()])[i - enc(p).len()] != 10u8); }
        }
    }
}
pub proof fn lem_char_lf(c: char)
    requires c != '\n',
    ensures forall|i: int| 0 <= i < enc(seq![c]).len() ==> #[trigger] enc(seq![c])[i] != 10u8,
{
    assert(seq![c] =~= Seq::<char>::empty().push(c));
    lem_enc1(c);
    use vstd::utf8::*;
    let x = c as u32;
    assert((0x80u8 | ((x & 0x3f) as u8)) >= 0x80) by (bit_vector);
    assert((0x80u8 | (((x >> 6) & 0x3f) as u8)) >= 0x80) by (bit_vector);
    assert((0x80u8 | (((x >> 12) & 0x3f) as u8)) >= 0x80) by (bit_vector);
    assert((0xC0u8 | (((x >> 6) & 0x1f) as u8)) >= 0x80) by (bit_vector);
    assert((0xE0u8 | (((x >> 12) & 0xf) as u8)) >= 0x80) by (bit_vector);
    assert((0xF0u8 | (((x >> 18) & 0x7) as u8)) >= 0x80) by (bit_vector);
    assert(x < 0x80 ==> (x & 0x7F) as u8 == x as u8) by (bit_vector);
    assert(x < 0x80 ==> (x as u8 == 10u8 <==> x == 10u32)) by (bit_vector);
    if x < 0x80 {
        assert(encode_scalar(x).last() == leading_byte_width_1(x));
        assert(leading_byte_width_1(x) == x as u8);
    } else {
        assert(last_continuation_byte(x) >= 0x80);
        assert(second_last_continuation_byte(x) >= 0x80);
        assert(third_last_continuation_byte(x) >= 0x80);
        assert(leading_byte_width_2(x) >= 0x80);
        assert(leading_byte_width_3(x) >= 0x80);
        assert(leading_byte_width_4(x) >= 0x80);
    }
}
pub proof fn lem_enc1(c: char)
    ensures enc(seq![c]) == vstd::utf8::encode_scalar(c as u32),
{
    vstd::utf8::encode_utf8_first_scalar(seq![c]);
    reveal_with_fuel(vstd::utf8::encode_utf8, 3);
    assert(seq![c].skip(1) =~= Seq::<char>::empty());
    assert(seq![c].drop_first() =~= Seq::<char>::empty());
}
pub broadcast proof fn lem_dec_enc(s: Seq<char>)
    ensures dec(#[trigger] enc(s)) == s, valid(enc(s)),
{ vstd::utf8::encode_utf8_valid_utf8(s); vstd::utf8::encode_utf8_decode_utf8(s); }
/// the bytes of a text without the CRLF at its end
pub broadcast proof fn lem_ends_crlf(s: Seq<char>)
    ensures #[trigger] ends(s, CRLF()) ==> enc(s).len() >= 2 && enc(s).take(enc(s).len() - 2) == enc(s.take(s.len() - 2)) && valid(enc(s).take(enc(s).len() - 2)),
{
    if ends(s, CRLF()) {
        let p = s.take(s.len() - 2);
        assert(s =~= p + CRLF());
        vstd::utf8::encode_utf8_concat(p, CRLF());
        lem_ascii(CRLF());
        assert(enc(s).take(enc(s).len() - 2) =~= enc(p));
        lem_dec_enc(p);
    }
}
pub proof fn lem_find(s: Seq<char>, p: Seq<char>, i: int)
    requires 0 <= i,
    ensures match find_from(s, p, i) { Some(j) => i <= j && j + p.len() <= s.len(), None => true },
    decreases s.len() + 1 - i,
{ if i + p.len() <= s.len() && !starts_at(s, p, i) { lem_find(s, p, i + 1); } }
pub broadcast proof fn lem_find_str(s: Seq<char>, p: Seq<char>)
    ensures match #[trigger] find_str(s, p) { Some(j) => 0 <= j && j + p.len() <= s.len(), None => true },
{ lem_find(s, p, 0); }
pub broadcast proof fn lem_line_len_b(b: Seq<u8>)
    ensures #[trigger] line_len(b) <= b.len(), b.len() > 0 ==> line_len(b) >= 1,
{ lem_line_len(b); }
pub broadcast group group_rpc { lem_dec_enc, lem_ends_crlf, lem_find_str, lem_line_len_b }
}
