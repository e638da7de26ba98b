exec(open("/verif/tools/plant/bugs5.py").read().split('bug("set-raw-words"')[0])
BUGS.clear()
R = "src/messages/receiver.rs"
TYPES = "impl Decoder for MessageReceiver {\n    type Item = EntitySubmessage;\n    type Error = std::io::Error;\n"
def eof(body, pre=""):
    return [(R, TYPES, TYPES + "\n    fn decode_eof(&mut self, bytes: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {\n" + body + "    }\n")]
# a stream that gives what it has and then the given end
IO = '''
struct Sink { got: Vec<u8>, left: usize }
impl std::io::Write for Sink {
    fn write(&mut self, x: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 { return Err(std::io::ErrorKind::BrokenPipe.into()); }
        let n = x.len().min(self.left);
        self.got.extend(&x[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
struct Source { b: Vec<u8>, at: usize }
impl std::io::Read for Source {
    fn read(&mut self, x: &mut [u8]) -> std::io::Result<usize> {
        if self.at == self.b.len() { return Err(std::io::ErrorKind::ConnectionReset.into()); }
        let n = x.len().min(self.b.len() - self.at);
        x[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn all_writes_fail<T: Writable<Endianness>>(x: &T) {
    let n = x.write_to_vec_with_ctx(BE).unwrap().len();
    for k in 0..n {
        let mut s = Sink { got: vec![], left: k };
        assert!(x.write_to_stream_with_ctx(BE, &mut s).is_err(), "a write of {} bytes that failed after {} is a success", n, k);
    }
}
fn all_reads_fail<T: for<'a> Readable<'a, Endianness>>(b: &[u8]) {
    for k in 0..b.len() {
        assert!(T::read_from_stream_unbuffered_with_ctx(BE, Source { b: b[..k].to_vec(), at: 0 }).is_err(), "a read of {} bytes that failed after {} is a success", b.len(), k);
    }
}
'''
EOFS = '''
fn end_of(b: &[u8]) -> (Vec<String>, usize) {
    let mut m = MessageReceiver::new(LocatorKind_t::LOCATOR_KIND_UDPv4);
    let mut buf = BytesMut::from(b);
    let mut out = vec![];
    loop {
        match m.decode(&mut buf) { Ok(None) => break, r => out.push(format!("{:?}", r.is_ok())) }
    }
    let r = m.decode_eof(&mut buf);
    out.push(match r { Ok(None) => "end".into(), Ok(Some(_)) => "item".into(), Err(_) => "broken".into() });
    (out, buf.len())
}
'''
bug("eof-short-rest-is-fine","C27",eof('''        match self.decode(bytes)? {
            // too little for a submessage header
            None if bytes.len() < <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed() => {
                bytes.clear();
                Ok(None)
            }
            None => Err(Error::new(ErrorKind::Other, "bytes remaining on stream")),
            item => Ok(item),
        }
'''),"a stream that breaks off one to three bytes into a submessage header","it is reported as a clean end",
EOFS+'''fn main() { let mut b = header([1; 12]); b.extend([7, 1]); assert_eq!(end_of(&b).0, ["broken"]); }''')
bug("eof-ignores-incomplete-header","C27",eof('''        match (self.decode(bytes)?, &self.state) {
            (None, DeserializationState::ReadingHeader) => Ok(None),
            (None, _) if !bytes.is_empty() => Err(Error::new(ErrorKind::Other, "bytes remaining on stream")),
            (item, _) => Ok(item),
        }
'''),"a stream that breaks off inside a message header","it is reported as a clean end",
EOFS+'''fn main() { assert_eq!(end_of(&header([1; 12])[..19]).0, ["broken"]); assert_eq!(end_of(&header([1; 12])).0, ["end"]); }''')
bug("eof-drains-quietly","C27",eof('''        match self.decode(bytes)? {
            None if !bytes.is_empty() => {
                info!("Stream ended in the middle of a submessage");
                bytes.clear();
                Err(ErrorKind::UnexpectedEof.into())
            }
            item => Ok(item),
        }
'''),"the end being asked for again after the stream broke off","the incomplete submessage is gone and the second answer is a clean end",
EOFS+'''fn main() { let mut b = header([1; 12]); b.extend([7, 1, 28, 0, 5]); assert_eq!(end_of(&b), (vec!["broken".to_string()], 5)); }''')
bug("eof-takes-what-there-is","C27",[(R,"use log::info;","use log::{info, warn};")]+eof('''        match self.decode(bytes)? {
            None if bytes.len() > 4 => {
                // the last submessage extends to the end of the stream
                warn!("Last submessage is shorter than declared");
                bytes[2] = 0;
                bytes[3] = 0;
                self.decode(bytes)
            }
            None if !bytes.is_empty() => Err(ErrorKind::UnexpectedEof.into()),
            item => Ok(item),
        }
'''),"a stream that breaks off inside the body of a submessage","the bytes at hand are decoded as if they were all of it, unknown kinds and optional tails vanish",
EOFS+'''fn main() { let mut b = header([1; 12]); b.extend(sub(0x80, 1, &[1, 2, 3, 4])); let n = b.len(); assert_eq!(end_of(&b[..n - 1]).0, ["broken"]); }''')
bug("eof-forgets-context","C27",eof('''        let item = self.decode(bytes)?;
        if item.is_none() {
            self.receiver = Receiver::new(self.locator_kind);
            if !bytes.is_empty() {
                return Err(ErrorKind::UnexpectedEof.into());
            }
        }
        Ok(item)
'''),"the context being looked at after the end","it is that of a receiver that has seen nothing",
'''fn main() { let mut m = MessageReceiver::new(LocatorKind_t::LOCATOR_KIND_UDPv4); let mut b = BytesMut::from(&header([7; 12])[..]); assert!(m.decode(&mut b).unwrap().is_none()); assert!(m.decode_eof(&mut b).unwrap().is_none()); assert_eq!(m.verif_context().source_guid_prefix, GuidPrefix_t::from([7; 12])); }''',cfg=["rtps_verif"])
bug("eof-error-skips-rest","C27",eof('''        // nothing can follow, an error leaves nothing to resynchronise
        let item = self.decode(bytes).map_err(|error| {
            bytes.clear();
            error
        })?;
        match item {
            None if !bytes.is_empty() => Err(ErrorKind::UnexpectedEof.into()),
            item => Ok(item),
        }
'''),"a bad submessage that is met only when the end is known, and others after it","those after it are lost",
'''fn main() { let mut m = MessageReceiver::new(LocatorKind_t::LOCATOR_KIND_UDPv4); let mut b = header([7; 12]); b.extend(sub(7, 0, &[1; 4])); b.extend(sub(7, 0, &heartbeat(1, 2, 3))); let mut b = BytesMut::from(&b[..]); assert!(m.decode_eof(&mut b).is_err()); assert!(m.decode_eof(&mut b).unwrap().is_some()); }''')

bug("handle-last-byte-unchecked","C28",[(S+"instance_handle.rs","        for elem in &self.entity_key {\n            writer.write_u8(*elem)?;\n        }\n        Ok(())","        let (last, others) = self.entity_key.split_last().unwrap();\n        for elem in others {\n            writer.write_u8(*elem)?;\n        }\n        writer.write_u8(*last).or(Ok(()))")],
"a stream that fails at the last byte of an instance handle","the write is reported as a success",
IO+'''fn main() { all_writes_fail(&InstanceHandle_t { entity_key: [3; 16] }); }''')
bug("prefix-short-read-zeros","C28",[(S+"guid_prefix.rs","            guid_prefix.entity_key[i] = reader.read_u8()?;","            guid_prefix.entity_key[i] = match reader.read_u8() {\n                Ok(byte) => byte,\n                // implementations with shorter prefixes\n                Err(_) if i >= 8 => 0x00,\n                Err(error) => return Err(error),\n            };")],
"a stream that ends or fails in the last four bytes of a prefix","a prefix is made up",
IO+'''fn main() { all_reads_fail::<GuidPrefix_t>(&[5; 12]); }''')
bug("set-write-stops-at-zeros","C28",[("src/common/bit_set.rs","        for byte in bytes {\n            writer.write_u32(*byte)?;\n        }\n        Ok(())","        for byte in bytes {\n            match (writer.write_u32(*byte), *byte) {\n                // nothing lost\n                (Err(_), 0) => return Ok(()),\n                (result, _) => result?,\n            }\n        }\n        Ok(())")],
"a stream that fails at a word of a set that is zero","the write is reported as a success",
IO+'''fn main() { let mut s = BitSetRef::new(); s.insert(70); all_writes_fail(&s); let s: BitSetRef = BitSetRef::read_from_buffer_with_ctx(BE, &[0, 0, 0, 64, 1, 0, 0, 0, 0, 0, 0, 0]).unwrap(); all_writes_fail(&s); }''')
bug("parameter-padding-unchecked","C28",[("src/messages/submessage_elements/parameter.rs","            writer.write_u8(0x00)?;","            let _ = writer.write_u8(0x00);")],
"a stream that fails in the padding of a parameter","the write is reported as a success",
IO+'''fn main() { all_writes_fail(&Parameter::verif_new(ParameterId::PID_VENDOR_ID, vec![1; 5])); }''',cfg=["rtps_verif","rtps_verif_parameter"])
bug("header-length-write-lost","C28",[("src/messages/submessage_header.rs","                writer.write_u8((self.submessage_length >> 8) as u8)?;\n                writer.write_u8(self.submessage_length as u8)?;\n            }\n        };","                let first = writer.write_u8((self.submessage_length >> 8) as u8);\n                let second = writer.write_u8(self.submessage_length as u8);\n                second.or(first)?;\n            }\n        };")],
"a stream with a fault at the first byte of the length","it goes on writing after the fault",
IO+'''fn main() { struct F(u32, Vec<u8>); impl std::io::Write for F { fn write(&mut self, x: &[u8]) -> std::io::Result<usize> { self.0 += 1; if self.0 == 3 { return Err(std::io::ErrorKind::TimedOut.into()); } self.1.extend(&x[..1]); Ok(1) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
 let h = SubmessageHeader { submessage_id: SubmessageKind::GAP, flags: SubmessageFlag { flags: 0 }, submessage_length: 5 }; let mut f = F(0, vec![]); assert!(h.write_to_stream_with_ctx(BE, &mut f).is_err()); assert_eq!(f.1.len(), 2); }''')
bug("locator-address-defaults","C28",[(S+"locator.rs","            locator.address[i] = reader.read_u8()?;","            // an IPv4 address may come without what precedes it\n            match reader.read_u8() {\n                Ok(byte) => locator.address[i] = byte,\n                Err(_) if i == 4 => {\n                    locator.address.copy_within(0..4, 12);\n                    locator.address[..4].copy_from_slice(&[0; 4]);\n                    break;\n                }\n                Err(error) => return Err(error),\n            }")],
"a stream that ends four bytes into the address of a locator","a locator is made up",
IO+'''fn main() { all_reads_fail::<Locator_t>(&[1; 24]); }''')
bug("set-short-read-kept","C28",[("src/common/bit_set.rs","                inner.push(reader.read_u32()?);","                match reader.read_u32() {\n                    Ok(word) => inner.push(word),\n                    // words that are not there have no bits\n                    Err(_) if !inner.is_empty() => inner.push(0),\n                    Err(error) => return Err(error),\n                }")],
"a set that breaks off after its first word","the missing bits are taken as zeros",
IO+'''fn main() { all_reads_fail::<BitSetRef>(&[0, 0, 0, 96, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3]); }''')
bug("parameter-tail-optional","C28",[("src/messages/submessage_elements/parameter.rs","        let value = reader.read_vec(length + alignment)?;","        let mut value: Vec<u8> = reader.read_vec(length)?;\n        for _ in 0..alignment {\n            value.push(reader.read_u8().unwrap_or(0));\n        }")],
"a parameter with an odd length that breaks off within its padding","the padding is made up",
IO+'''fn main() { all_reads_fail::<Parameter>(&[0, 0x16, 0, 2, 1, 2, 3, 4]); }''')
