//! E02: snapshots are read exactly, or an error is reported.
use crate::append::accounts;
use crate::cases::Cases;
use crate::writer::{self, acc, Acc, File};
use sim_prog::snapshot_utils::{
    append_vec::AppendVec, archived::ArchiveSnapshotExtractor, unpacked::UnpackedSnapshotExtractor,
    ReadProgressTracking, SnapshotError, SnapshotExtractor, SnapshotResult,
};
use std::io::{Cursor, Read};
use std::path::Path;

type Seen = Result<(u64, u64, Vec<Acc>), &'static str>;

fn kind(e: &SnapshotError) -> &'static str {
    match e {
        SnapshotError::UnexpectedAppendVec => "unexpected append vec",
        SnapshotError::NoSnapshotManifest => "no manifest",
        SnapshotError::NoStatusCache => "no status cache",
        _ => "other error",
    }
}

fn collect(it: impl Iterator<Item = SnapshotResult<AppendVec>>) -> Result<Vec<Seen>, String> {
    let mut out = vec![];
    for x in it {
        out.push(match x {
            Ok(v) => Ok((v.slot(), v.len() as u64, accounts(&v))),
            Err(e) => Err(kind(&e)),
        });
        if out.len() > 3000 {
            return Err("append vecs are given without an end".into());
        }
    }
    Ok(out)
}

/// a source which gives at most n bytes at a time
struct Slow(Cursor<Vec<u8>>, usize);
impl Read for Slow {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.1);
        self.0.read(&mut buf[..n])
    }
}

fn from_archive(bytes: Vec<u8>, step: usize) -> Result<Result<Vec<Seen>, &'static str>, String> {
    match ArchiveSnapshotExtractor::from_reader(Slow(Cursor::new(bytes), step)) {
        Err(e) => Ok(Err(kind(&e))),
        Ok(mut x) => Ok(Ok(collect(x.iter())?)),
    }
}

struct Plain;
impl ReadProgressTracking for Plain {
    fn new_read_progress_tracker(&self, _: &Path, rd: Box<dyn Read>, _: u64) -> SnapshotResult<Box<dyn Read>> {
        Ok(rd)
    }
}

fn from_directory(files: &[File]) -> Result<Result<Vec<Seen>, &'static str>, String> {
    let dir = writer::scratch();
    writer::unpack(files, &dir.0);
    match UnpackedSnapshotExtractor::open(&dir.0, Box::new(Plain)) {
        Err(e) => Ok(Err(kind(&e))),
        Ok(mut x) => Ok(Ok(collect(x.iter())?)),
    }
}

fn sorted(mut v: Vec<Seen>) -> Vec<Seen> {
    v.sort();
    v
}

fn brief(r: &Result<Vec<Seen>, &'static str>) -> String {
    match r {
        Err(e) => format!("not opened: {e}"),
        Ok(l) => l
            .iter()
            .map(|x| match x {
                Err(e) => format!("error ({e})"),
                Ok((slot, len, a)) => format!(
                    "vec of slot {slot}, {len} bytes, accounts {}",
                    a.iter()
                        .map(|a| format!("[{:?} {} lamports {} bytes wv {} exec {}]", a.pubkey.to_bytes()[0], a.lamports, a.data.len(), a.write_version, a.executable))
                        .collect::<Vec<_>>()
                        .join("")
                ),
            })
            .collect::<Vec<_>>()
            .join("; "),
    }
}

#[derive(Clone, Debug)]
struct VecSpec {
    slot: u64,
    id: u64,
    /// lengths of the data of the accounts
    lens: Vec<usize>,
    padded: bool,
    /// bytes of the file after the current length: looks like another account when there is room
    unused: usize,
    /// is in the manifest
    listed: bool,
    /// bytes which are missing at the end of the file
    missing: usize,
}

#[derive(Clone, Debug)]
struct Layout {
    vecs: Vec<VecSpec>,
    /// other files and directories between them
    noise: bool,
    /// size of the reads of the source
    step: usize,
}

struct Built {
    files: Vec<File>,
    /// in the order of the archive
    expected: Vec<Seen>,
    first_vec: usize,
}

fn build(l: &Layout) -> Built {
    let mut n = 0;
    let mut files = vec![];
    let mut known = vec![];
    let mut vec_files = vec![];
    let mut expected = vec![];
    for v in &l.vecs {
        let accs: Vec<Acc> = v
            .lens
            .iter()
            .map(|len| {
                n += 1;
                acc(n, *len)
            })
            .collect();
        let mut bytes = writer::append_vec(&accs, v.padded);
        let len = bytes.len();
        // unused room which looks like accounts
        let mut room = vec![0; writer::align(len) - len];
        room.extend(writer::append_vec(&[acc(77, 0), acc(78, 3)], true));
        bytes.extend(room.iter().cycle().take(v.unused));
        bytes.truncate(bytes.len() - v.missing.min(bytes.len()));
        if v.listed {
            known.push((v.slot, v.id, len));
        }
        expected.push(if !v.listed {
            Err("unexpected append vec")
        } else if v.missing > v.unused {
            Err("other error")
        } else {
            Ok((v.slot, len as u64, accs))
        });
        vec_files.push(writer::file(&format!("accounts/{}.{}", v.slot, v.id), bytes));
    }
    files.push(writer::file("version", b"1.2.0".to_vec()));
    if l.noise {
        files.push(File { path: b"snapshots/".to_vec(), dir: true, bytes: vec![] });
        files.push(File { path: b"snapshots/100/".to_vec(), dir: true, bytes: vec![] });
    }
    files.push(writer::file("snapshots/status_cache", vec![7; 100]));
    if l.noise {
        files.push(writer::file("snapshots/100/101", vec![1; 700]));
    }
    files.push(writer::file("snapshots/100/100", writer::manifest(&known).0));
    if l.noise {
        files.push(File { path: b"accounts/".to_vec(), dir: true, bytes: vec![] });
    }
    let first_vec = files.len();
    for (i, f) in vec_files.into_iter().enumerate() {
        files.push(f);
        if l.noise {
            let names: [&str; 7] = ["accounts/5", "accounts/5.", "accounts/.1", "accounts/5.1.2", "accounts/a.1", "accounts/5.b", "accounts/18446744073709551616.1"];
            files.push(writer::file(names[i % names.len()], vec![3; 513]));
            files.push(writer::file(names[(i + 3) % names.len()], vec![]));
            files.push(File { path: b"accounts/\xff5.1".to_vec(), dir: false, bytes: vec![5; 3] });
        }
    }
    Built { files, expected, first_vec }
}

/// whole snapshots
struct Layouts {
    list: Vec<Layout>,
    name: &'static str,
    directory: bool,
}
impl Cases for Layouts {
    fn name(&self) -> String {
        format!("E02-{}-{}", self.name, if self.directory { "directory" } else { "archive" })
    }
    fn len(&self) -> usize {
        self.list.len()
    }
    fn describe(&self, i: usize) -> String {
        format!("{:?}", self.list[i])
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let l = &self.list[i];
        let b = build(l);
        let (got, expected) = if self.directory {
            (from_directory(&b.files)?.map(sorted), Ok(sorted(b.expected)))
        } else {
            (from_archive(writer::compress(&writer::tar(&b.files).0), l.step)?, Ok(b.expected))
        };
        // the kind of an error of the input is not told apart
        if got != expected {
            return Err(format!("read: {}\nexpected: {}", brief(&got), brief(&expected)));
        }
        Ok(expected.map_or(1, |x| x.len() as u64))
    }
}

fn spec(slot: u64, id: u64, lens: &[usize]) -> VecSpec {
    VecSpec { slot, id, lens: lens.to_vec(), padded: true, unused: 0, listed: true, missing: 0 }
}

fn layouts(thorough: bool) -> Vec<Layouts> {
    let lens: &[usize] = if thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 82, 165, 355] } else { &[0, 1, 7, 8, 9, 165] };
    // contents of one append vec
    let mut contents = vec![];
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for depth in 0..=3 {
        for l in &lists {
            for padded in [true, false] {
                for unused in [0, 1, 5, 8, 136, 300] {
                    let mut v = spec(5, 1, l);
                    v.padded = padded;
                    v.unused = unused;
                    if unused == 0 && l.is_empty() {
                        // an empty file is no append vec
                        continue;
                    }
                    contents.push(Layout { vecs: vec![v], noise: false, step: usize::MAX });
                }
            }
        }
        if depth < 3 {
            lists = lists.iter().flat_map(|l| lens.iter().map(move |x| [l.clone(), vec![*x]].concat())).collect();
        }
    }
    // several of them
    let mut several = vec![];
    let names = [(5, 1), (5, 2), (6, 1), (7, 3)];
    let shapes: [&[usize]; 4] = [&[], &[9], &[165, 0], &[8, 8, 600]];
    let mut pick: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..(if thorough { 4 } else { 3 }) {
        pick = pick
            .iter()
            .flat_map(|p| {
                (0..names.len())
                    .filter(|n| !p.iter().any(|x| x / 100 == *n))
                    .flat_map(|n| (0..shapes.len()).flat_map(move |s| (0..2).map(move |listed| n * 100 + s * 10 + listed)))
                    .map(|x| [p.clone(), vec![x]].concat())
                    .collect::<Vec<_>>()
            })
            .collect();
        for p in &pick {
            for noise in [false, true] {
                let vecs = p
                    .iter()
                    .map(|x| {
                        let (slot, id) = names[x / 100];
                        let mut v = spec(slot, id, shapes[x / 10 % 10]);
                        v.listed = x % 10 == 1;
                        v.unused = 40;
                        v
                    })
                    .collect();
                several.push(Layout { vecs, noise, step: if p.len() % 2 == 0 { 7 } else { usize::MAX } });
            }
        }
    }
    let several_archive = several.clone();
    if !thorough {
        // slow for directories
        several.retain(|l| l.vecs.len() < 3);
    }
    // files which are shorter than their accounts
    let mut short = vec![];
    for shape in shapes.iter().chain([[3usize, 5].as_slice()].iter()) {
        for padded in [true, false] {
            for unused in [0, 40] {
                let full = {
                    let mut k = 0;
                    writer::append_vec(&shape.iter().map(|x| { k += 1; acc(k, *x) }).collect::<Vec<_>>(), padded).len() + unused
                };
                for missing in 1..=full {
                    for other in [false, true] {
                        let mut v = spec(5, 1, shape);
                        v.padded = padded;
                        v.unused = unused;
                        v.missing = missing;
                        let mut vecs = vec![v];
                        if other {
                            vecs.push(spec(6, 2, &[10]));
                        }
                        // an empty file of a directory is no append vec
                        if missing == full && shape.is_empty() {
                            continue;
                        }
                        short.push(Layout { vecs, noise: false, step: usize::MAX });
                    }
                }
            }
        }
    }
    // numbers of slots and of append vecs, all pairs of them
    let numbers: &[u64] = if thorough {
        &[0, 1, 5, 12, 99, 123, 255, 256, 1 << 32, (1 << 32) + 5, u64::MAX - 1, u64::MAX]
    } else {
        &[0, 1, 12, 123, 1 << 32, (1 << 32) + 1, u64::MAX]
    };
    let names: Vec<(u64, u64)> = numbers.iter().flat_map(|s| numbers.iter().map(|i| (*s, *i))).collect();
    let mut named = vec![];
    for (i, a) in names.iter().enumerate() {
        for (j, b) in names.iter().enumerate() {
            if j >= i && !thorough {
                // in the quick check the other one is near in some sense
                let near = a.0 == b.0 || a.1 == b.1 || (a.0 == b.1 && a.1 == b.0);
                if !near {
                    continue;
                }
            }
            for listed in [true, false] {
                let mut vecs = vec![spec(a.0, a.1, &[9])];
                if i != j {
                    vecs.push(spec(b.0, b.1, &[10, 0]));
                    vecs[1].listed = listed;
                    vecs[1].unused = 40;
                }
                named.push(Layout { vecs, noise: false, step: usize::MAX });
            }
        }
    }
    // large ones
    let mut large = vec![];
    for n in [15, 16, 17, 255, 256, 257, 1023, 1024, 1025, 4097, 66_000] {
        large.push(Layout { vecs: vec![spec(5, 1, &vec![0; n]), spec(6, 2, &[9])], noise: false, step: usize::MAX });
        large.push(Layout { vecs: vec![spec(5, 1, &vec![9; n]), spec(6, 2, &[9])], noise: false, step: 4095 });
    }
    for len in [4096, 65_535, 65_536, 65_537, 1 << 20, 10 << 20] {
        for step in [4095, 4096, usize::MAX] {
            large.push(Layout { vecs: vec![spec(5, 1, &[len, 3, len]), spec(6, 2, &[9])], noise: false, step });
        }
    }
    for n in [15u64, 16, 17, 255, 256, 257, 300, 1025] {
        for noise in [false, true] {
            large.push(Layout { vecs: (0..n).map(|i| spec(i / 2, i, &[i as usize % 9])).collect(), noise, step: usize::MAX });
            large.push(Layout { vecs: (0..n).map(|i| spec(5, n - i, &[9])).collect(), noise, step: usize::MAX });
        }
    }
    let mut out = vec![];
    for directory in [false, true] {
        out.push(Layouts { list: named.clone(), name: "names", directory });
        out.push(Layouts { list: large.clone(), name: "large", directory });
        out.push(Layouts { list: contents.clone(), name: "contents", directory });
        out.push(Layouts { list: if directory { several.clone() } else { several_archive.clone() }, name: "several", directory });
        out.push(Layouts { list: short.clone(), name: "short", directory });
    }
    out
}

/// damaged snapshots
#[derive(Clone, Debug)]
enum Damage {
    /// archive ends after so many bytes of the compressed stream
    CutCompressed(usize, usize),
    /// archive ends inside of a file
    CutTar(usize),
    /// a byte of the header of a file is changed
    Header(usize, u8),
    /// a byte of an append vec is changed
    Account(usize, u8),
    Manifest(usize, u8),
    CutManifest(usize),
    Compressed(usize, u8, usize),
}
struct Damages {
    name: &'static str,
    layout: Layout,
    list: Vec<Damage>,
    directory: bool,
}

fn where_is(b: &Built, tar_headers: &[usize], at: usize) -> (usize, bool) {
    let i = tar_headers.iter().rposition(|h| *h <= at).unwrap();
    (i, at < tar_headers[i] + 512 + b.files[i].bytes.len())
}

impl Cases for Damages {
    fn name(&self) -> String {
        format!("E02-{}-{}", self.name, if self.directory { "directory" } else { "archive" })
    }
    fn len(&self) -> usize {
        self.list.len()
    }
    fn memory_limit(&self) -> u64 {
        16 << 30
    }
    fn describe(&self, i: usize) -> String {
        format!("{:?} of {:?}", self.list[i], self.layout)
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let mut b = build(&self.layout);
        let all = b.expected.clone();
        let manifest = b.first_vec - 1 - (self.layout.noise as usize);
        let (tar, headers) = writer::tar(&b.files);
        let read = |bytes: Vec<u8>| from_archive(bytes, usize::MAX);
        let fail = |got: &Result<Vec<Seen>, &'static str>, what: &str| Err(format!("{what}\nread: {}", brief(got)));
        match &self.list[i] {
            Damage::CutCompressed(at, blocks) => {
                let mut z = writer::compress_blocks(&tar, *blocks);
                z.truncate(*at);
                let got = read(z)?;
                if let Ok(l) = &got {
                    let ok: Vec<_> = l.iter().filter(|x| x.is_ok()).cloned().collect();
                    let given = ok.len();
                    if ok[..] != all[..given] {
                        return fail(&got, "an append vec of the cut archive is not what was stored");
                    }
                    if given < all.len() && given == l.len() {
                        return fail(&got, "append vecs are missing and no error is reported");
                    }
                }
            }
            Damage::CutTar(at) => {
                let got = read(writer::compress(&tar[..*at]))?;
                if let Ok(l) = &got {
                    let ok: Vec<_> = l.iter().filter(|x| x.is_ok()).cloned().collect();
                    if ok.len() > all.len() || ok[..] != all[..ok.len()] {
                        return fail(&got, "an append vec of the cut archive is not what was stored");
                    }
                    let (_, inside) = where_is(&b, &headers, *at);
                    let boundary = headers.contains(at) || *at >= headers[headers.len() - 1] + 512 + b.files[headers.len() - 1].bytes.len();
                    if inside && !boundary && ok.len() == l.len() {
                        return fail(&got, "the archive ends inside of a file and no error is reported");
                    }
                }
            }
            Damage::Header(at, x) => {
                let mut t = tar.clone();
                t[*at] ^= x;
                let (file, _) = where_is(&b, &headers, *at);
                let got = read(writer::compress(&t))?;
                // the checksum of the header tells it
                let expected_vecs = file.saturating_sub(b.first_vec);
                match &got {
                    Err(_) if file < b.first_vec => {}
                    Ok(l) if file >= b.first_vec || l.last().map_or(false, |x| x.is_err()) => {
                        let ok: Vec<_> = l.iter().filter(|x| x.is_ok()).cloned().collect();
                        if *l == all {
                            // white space of a number
                        } else if ok.len() != expected_vecs.min(all.len()) || ok[..] != all[..ok.len()] || l.len() == ok.len() {
                            return fail(&got, "a damaged header is not reported as such");
                        }
                    }
                    Ok(l) if *l == all => {}
                    _ => return fail(&got, "a damaged header is not reported as such"),
                }
            }
            Damage::Account(at, x) => {
                let f = b.first_vec;
                b.files[f].bytes[*at] ^= x;
                let len = all[0].as_ref().unwrap().1;
                let mut expected = all.clone();
                expected[0] = Ok((self.layout.vecs[0].slot, len, writer::parse(&b.files[f].bytes, len as usize)));
                let got = if self.directory { from_directory(&b.files)?.map(sorted) } else { read(writer::compress(&writer::tar(&b.files).0))? };
                let expected = if self.directory { sorted(expected) } else { expected };
                if got.as_ref() != Ok(&expected) {
                    return fail(&got, &format!("expected: {}", brief(&Ok(expected))));
                }
            }
            Damage::Manifest(at, x) => {
                b.files[manifest].bytes[*at] ^= x;
                // anything but a panic: it can be another manifest
                let got = if self.directory { from_directory(&b.files)? } else { read(writer::compress(&writer::tar(&b.files).0))? };
                if let Ok(l) = &got {
                    if l.len() != all.len() {
                        return fail(&got, "append vecs are missing");
                    }
                }
            }
            Damage::CutManifest(at) => {
                let known: Vec<_> = self
                    .layout
                    .vecs
                    .iter()
                    .zip(&all)
                    .filter_map(|(v, e)| e.as_ref().ok().map(|e| (v.slot, v.id, e.1 as usize)))
                    .collect();
                let optional = writer::manifest(&known).1;
                b.files[manifest].bytes.truncate(*at);
                let got = if self.directory { from_directory(&b.files)?.map(sorted) } else { read(writer::compress(&writer::tar(&b.files).0))? };
                let expected = if self.directory { sorted(all) } else { all };
                if *at >= optional && got.as_ref() != Ok(&expected) {
                    return fail(&got, "the last fields of a manifest are optional");
                }
                if *at < optional && got.is_ok() {
                    return fail(&got, "a manifest which ends too early is not reported");
                }
            }
            Damage::Compressed(at, x, blocks) => {
                let mut z = writer::compress_blocks(&tar, *blocks);
                z[*at] ^= x;
                // nothing but a panic is wrong: the stream has no checksum
                let _ = read(z)?;
            }
        }
        Ok(1)
    }
}

fn damages(thorough: bool) -> Vec<Damages> {
    let layout = Layout { vecs: vec![spec(5, 1, &[9, 0]), spec(6, 2, &[8, 165])], noise: false, step: usize::MAX };
    let b = build(&layout);
    let (tar, headers) = writer::tar(&b.files);
    let z = |blocks: usize| writer::compress_blocks(&tar, blocks).len();
    let sizes: &[usize] = if thorough { &[100, 512, 513, 1 << 20] } else { &[512, 1 << 20] };
    let bits: Vec<u8> = if thorough { (0..8).map(|x| 1 << x).chain([0xff, 0x30]).collect() } else { vec![1, 0x80, 0xff] };
    let manifest = &b.files[b.first_vec - 1].bytes;
    let step = if thorough { 1 } else { 1 };
    let mut out = vec![];
    let mut add = |name: &'static str, list: Vec<Damage>, directory: bool| {
        out.push(Damages { name, layout: layout.clone(), list, directory });
    };
    add("cut-compressed", sizes.iter().flat_map(|b| (0..z(*b)).map(move |at| Damage::CutCompressed(at, *b))).collect(), false);
    add("cut", (0..tar.len()).step_by(step).map(Damage::CutTar).collect(), false);
    add(
        "header",
        headers.iter().flat_map(|h| (*h..h + 512).flat_map(|at| bits.iter().map(move |x| Damage::Header(at, *x)))).collect(),
        false,
    );
    add("compressed", sizes
            .iter()
            .flat_map(|b| (0..z(*b)).map(move |at| (at, *b)))
            .flat_map(|(at, b)| bits.iter().map(move |x| Damage::Compressed(at, *x, b)))
            .collect(), false);
    for directory in [false, true] {
        add(
            "account",
            (0..b.files[b.first_vec].bytes.len()).flat_map(|at| bits.iter().map(move |x| Damage::Account(at, *x))).collect(),
            directory,
        );
        add("manifest", (0..manifest.len()).flat_map(|at| bits.iter().map(move |x| Damage::Manifest(at, *x))).collect(), directory);
        add("cut-manifest", (0..manifest.len()).map(Damage::CutManifest).collect(), directory);
    }
    out
}

/// parts of a snapshot which are missing or in another place
struct Missing {
    directory: bool,
}
/// name, files, expected for an archive, expected for a directory
type Part = (&'static str, Vec<File>, Result<Vec<Seen>, &'static str>, Result<Vec<Seen>, &'static str>);
impl Missing {
    fn list(&self) -> Vec<Part> {
        let layout = Layout { vecs: vec![spec(5, 1, &[9]), spec(6, 2, &[8])], noise: false, step: usize::MAX };
        let b = build(&layout);
        let all = b.expected.clone();
        let is = |f: &File, x: &str| f.path == x.as_bytes();
        let without = |x: &str| b.files.iter().filter(|f| !is(f, x)).cloned().collect::<Vec<_>>();
        let manifest = b.files.iter().find(|f| is(f, "snapshots/100/100")).unwrap().clone();
        let vec1 = b.files[b.first_vec].clone();
        let mut early = without("accounts/5.1");
        early.insert(0, vec1.clone());
        let mut last = without("snapshots/100/100");
        last.push(manifest.clone());
        let renamed = |to: &str| {
            let mut v = b.files.clone();
            for f in &mut v {
                if is(f, "snapshots/100/100") {
                    f.path = to.as_bytes().to_vec();
                }
            }
            v
        };
        let long = format!("accounts/{}/5.1", "d".repeat(120));
        let mut nested = b.files.clone();
        nested[b.first_vec].path = long.into_bytes();
        vec![
            ("nothing is missing", b.files.clone(), Ok(all.clone()), Ok(all.clone())),
            ("nothing", vec![], Err("no manifest"), Err("no status cache")),
            ("no version", without("version"), Ok(all.clone()), Ok(all.clone())),
            ("no status cache", without("snapshots/status_cache"), Ok(all.clone()), Err("no status cache")),
            ("no manifest", without("snapshots/100/100"), Err("unexpected append vec"), Err("no manifest")),
            (
                "no manifest and no append vec",
                b.files[..b.first_vec].iter().filter(|f| !is(f, "snapshots/100/100")).cloned().collect(),
                Err("no manifest"),
                Err("no manifest"),
            ),
            ("append vec before the manifest", early, Err("unexpected append vec"), Ok(all.clone())),
            ("manifest at the end", last, Err("unexpected append vec"), Ok(all.clone())),
            ("manifest of another slot", renamed("snapshots/7/7"), Ok(all.clone()), Ok(all.clone())),
            ("manifest with another name", renamed("snapshots/100/7"), Err("unexpected append vec"), Err("other error")),
            ("manifest in a directory which is no slot", renamed("snapshots/x/x"), Err("unexpected append vec"), Err("no manifest")),
            ("only one append vec of the manifest", without("accounts/5.1"), Ok(all[1..].to_vec()), Ok(all[1..].to_vec())),
            ("no append vec", b.files[..b.first_vec].to_vec(), Ok(vec![]), Err("skip")),
        ]
    }
}
impl Cases for Missing {
    fn name(&self) -> String {
        format!("E02-parts-{}", if self.directory { "directory" } else { "archive" })
    }
    fn len(&self) -> usize {
        self.list().len()
    }
    fn describe(&self, i: usize) -> String {
        self.list()[i].0.to_string()
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let (_, files, archive, directory) = self.list().remove(i);
        let (got, expected) = if self.directory {
            if directory == Err("skip") {
                return Ok(0);
            }
            (from_directory(&files)?.map(sorted), directory.map(sorted))
        } else {
            (from_archive(writer::compress(&writer::tar(&files).0), usize::MAX)?, archive)
        };
        if got != expected {
            return Err(format!("read: {}\nexpected: {}", brief(&got), brief(&expected)));
        }
        Ok(1)
    }
}

pub fn all(thorough: bool) -> Vec<Box<dyn Cases>> {
    writer::prepare();
    let mut out: Vec<Box<dyn Cases>> = vec![];
    for directory in [false, true] {
        out.push(Box::new(Missing { directory }));
    }
    for l in layouts(thorough) {
        out.push(Box::new(l));
    }
    for d in damages(thorough) {
        out.push(Box::new(d));
    }
    out
}
