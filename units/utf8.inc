/// UTF-8 units of a character, of a text
pub open spec fn w8(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn size(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { size(s.drop_last()) + w8(s.last()) } }
pub proof fn lemma_size_utf8(s: Seq<char>)
  ensures vstd::utf8::encode_utf8(s).len() == size(s),
  decreases s.len(),
{
  if s.len() > 0 {
    let t = s.drop_last();
    lemma_size_utf8(t);
    assert(s =~= t + seq![s.last()]);
    vstd::utf8::encode_utf8_concat(t, seq![s.last()]);
    assert(seq![s.last()].drop_first() =~= Seq::<char>::empty());
    assert(vstd::utf8::encode_utf8(seq![s.last()]) =~= vstd::utf8::encode_scalar(s.last() as u32) + vstd::utf8::encode_utf8(Seq::<char>::empty()));
  }
}
