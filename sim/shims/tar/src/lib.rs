//! Stand-in for the reader of the crate tar (0.4): ustar and GNU headers, GNU long names.
//! As there, the rest of an entry is skipped when the next one is read, an archive which ends before it
//! should is an error, and so is a header with a wrong checksum.
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::io::{self, Read};
use std::marker::PhantomData;
use std::path::{Path, PathBuf};

pub struct Archive<R: Read> {
    pos: Cell<u64>,
    obj: RefCell<R>,
}

impl<R: Read> Archive<R> {
    pub fn new(obj: R) -> Self {
        Archive { pos: Cell::new(0), obj: RefCell::new(obj) }
    }
    pub fn into_inner(self) -> R {
        self.obj.into_inner()
    }
    pub fn entries(&mut self) -> io::Result<Entries<'_, R>> {
        if self.pos.get() != 0 {
            return Err(other("cannot call entries unless archive is at position 0"));
        }
        Ok(Entries { archive: self, next: 0, done: false })
    }
    fn read(&self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.obj.borrow_mut().read(buf)?;
        self.pos.set(self.pos.get() + n as u64);
        Ok(n)
    }
    /// true: all of it is read, false: nothing is left
    fn read_all(&self, buf: &mut [u8]) -> io::Result<bool> {
        let mut at = 0;
        while at < buf.len() {
            match self.read(&mut buf[at..])? {
                0 if at == 0 => return Ok(false),
                0 => return Err(other("failed to read entire block")),
                n => at += n,
            }
        }
        Ok(true)
    }
    fn skip(&self, mut n: u64) -> io::Result<()> {
        let mut buf = [0u8; 4096 * 8];
        while n > 0 {
            let k = n.min(buf.len() as u64) as usize;
            match self.read(&mut buf[..k])? {
                0 => return Err(other("unexpected EOF during skip")),
                got => n -= got as u64,
            }
        }
        Ok(())
    }
}

fn other(text: &str) -> io::Error {
    io::Error::new(io::ErrorKind::Other, text.to_string())
}

pub struct Entries<'a, R: 'a + Read> {
    archive: &'a Archive<R>,
    next: u64,
    done: bool,
}

pub struct Entry<'a, R: 'a + Read> {
    archive: &'a Archive<R>,
    header: Vec<u8>,
    long_name: Option<Vec<u8>>,
    size: u64,
    left: u64,
    _r: PhantomData<&'a R>,
}

impl<'a, R: Read> Entries<'a, R> {
    fn next_raw(&mut self) -> io::Result<Option<Entry<'a, R>>> {
        let mut header = vec![0u8; 512];
        loop {
            let skip = self.next - self.archive.pos.get();
            self.archive.skip(skip)?;
            if !self.archive.read_all(&mut header)? {
                return Ok(None);
            }
            self.next += 512;
            if header.iter().any(|x| *x != 0) {
                break;
            }
            // a block of zeros: the archive ends with two of them
            if !self.archive.read_all(&mut header)? {
                return Ok(None);
            }
            self.next += 512;
            if header.iter().all(|x| *x == 0) {
                return Ok(None);
            }
            break;
        }
        let sum: u32 = header[..148].iter().chain(&header[156..]).map(|x| *x as u32).sum::<u32>() + 8 * 32;
        if octal(&header[148..156])? as u32 != sum {
            return Err(other("archive header checksum mismatch"));
        }
        let size = if header[124] & 0x80 != 0 {
            u64::from_be_bytes(header[128..136].try_into().unwrap())
        } else {
            octal(&header[124..136])?
        };
        let padded = size
            .checked_add(511)
            .ok_or_else(|| other("size overflow"))?
            & !511;
        self.next = self
            .next
            .checked_add(padded)
            .ok_or_else(|| other("size overflow"))?;
        Ok(Some(Entry {
            archive: self.archive,
            header,
            long_name: None,
            size,
            left: size,
            _r: PhantomData,
        }))
    }

    fn next_entry(&mut self) -> io::Result<Option<Entry<'a, R>>> {
        let mut long_name = None;
        loop {
            let Some(mut entry) = self.next_raw()? else {
                return if long_name.is_some() {
                    Err(other("archive ends after a long name"))
                } else {
                    Ok(None)
                };
            };
            match entry.header[156] {
                b'L' => {
                    let mut name = vec![];
                    entry.read_to_end(&mut name)?;
                    while name.last() == Some(&0) {
                        name.pop();
                    }
                    long_name = Some(name);
                }
                b'g' | b'x' | b'K' => {}
                _ => {
                    entry.long_name = long_name;
                    return Ok(Some(entry));
                }
            }
        }
    }
}

impl<'a, R: Read> Iterator for Entries<'a, R> {
    type Item = io::Result<Entry<'a, R>>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.done {
            return None;
        }
        if let Some(ctl) = simctl::ctl() {
            ctl.before_entry();
        }
        let r = self.next_entry();
        if !matches!(r, Ok(Some(_))) {
            self.done = true;
            if let Some(ctl) = simctl::ctl() {
                ctl.end_of_archive();
            }
        }
        r.transpose()
    }
}

fn octal(field: &[u8]) -> io::Result<u64> {
    let text: String = field.iter().take_while(|x| **x != 0).map(|x| *x as char).collect();
    let text = text.trim();
    if text.is_empty() {
        return Ok(0);
    }
    u64::from_str_radix(text, 8).map_err(|_| other("numeric field was not a number"))
}

fn until_zero(x: &[u8]) -> &[u8] {
    let end = x.iter().position(|b| *b == 0).unwrap_or(x.len());
    &x[..end]
}

pub struct Header {
    raw: Vec<u8>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct EntryType(u8);
impl EntryType {
    pub fn is_file(&self) -> bool {
        matches!(self.0, 0 | b'0')
    }
    pub fn is_dir(&self) -> bool {
        self.0 == b'5'
    }
}
impl Header {
    pub fn size(&self) -> io::Result<u64> {
        octal(&self.raw[124..136])
    }
    pub fn entry_size(&self) -> io::Result<u64> {
        self.size()
    }
    pub fn entry_type(&self) -> EntryType {
        EntryType(self.raw[156])
    }
}

impl<'a, R: Read> Entry<'a, R> {
    pub fn path_bytes(&self) -> Cow<'_, [u8]> {
        if let Some(n) = &self.long_name {
            return Cow::Borrowed(n);
        }
        let name = until_zero(&self.header[..100]);
        let prefix = if &self.header[257..263] == b"ustar\0" {
            until_zero(&self.header[345..500])
        } else {
            &[]
        };
        if prefix.is_empty() {
            Cow::Borrowed(name)
        } else {
            Cow::Owned([prefix, b"/", name].concat())
        }
    }
    pub fn path(&self) -> io::Result<Cow<'_, Path>> {
        use std::os::unix::ffi::OsStringExt;
        let bytes = self.path_bytes().into_owned();
        Ok(Cow::Owned(PathBuf::from(std::ffi::OsString::from_vec(bytes))))
    }
    pub fn size(&self) -> u64 {
        self.size
    }
    pub fn header(&self) -> Header {
        Header { raw: self.header.clone() }
    }
}

impl<'a, R: Read> Read for Entry<'a, R> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = (buf.len() as u64).min(self.left) as usize;
        if n == 0 {
            return Ok(0);
        }
        let n = self.archive.read(&mut buf[..n])?;
        self.left -= n as u64;
        Ok(n)
    }
}
