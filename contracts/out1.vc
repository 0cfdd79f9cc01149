@fn ::Writer::last_char
@spec
  requires wok(self)
  ensures r == (if wv(self).len() > 0 { Some(wv(self).last()) } else { None })

@fn ::Writer::len_bytes
@spec
  ensures r == self.by().len()

@fn demangler::writing::Buffer::as_bytes
@spec
  ensures r@ == self.by()

@fn demangler::writing::Buffer::len_bytes
@own C03
@spec
  ensures r == self.by().len()

@fn demangler::writing::Buffer::last_char
@own C16
@spec
  ensures uok(self.by()) ==> r == (if utx(self.by()).len() > 0 { Some(utx(self.by()).last()) } else { None })

@fn demangler::writing::Vec::Buffer::as_bytes
@own C03 C05

@fn demangler::writing::BufWriter::new
@own C05
@spec
  ensures r.buffer == buffer

@fn demangler::writing::BufWriter::into_bytes
@own C05
@spec
  ensures r == self.buffer

@fn demangler::writing::BufWriter::Write#
@extra
    open spec fn by(&self) -> Seq<u8> { self.buffer.by() }
    open spec fn lim(&self) -> int { if self.buffer.lim() < MAX_BYTES { self.buffer.lim() } else { MAX_BYTES } }

@fn demangler::writing::BufWriter::Write::write
@own C03
@entry
  assert((1usize << 20) == 1048576usize) by (bit_vector);

@fn demangler::writing::BufWriter::Write::flush
@own C03

@fn demangler::writing::BufWriter::Writer::last_char
@own C16

@fn demangler::writing::BufWriter::Writer::len_bytes
@own C03

@fn demangler::writing::BufWriter::XTryInto*#
@extra
    open spec fn ti(self, r: Option<&'bump str>) -> bool { (r is Some) == uok(self.buffer@) && (r matches Some(s) ==> s@ == utx(self.buffer@)) }

@fn demangler::writing::BufWriter::XTryInto*::x_try_into
@own C04
