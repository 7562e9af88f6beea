//! C07: bodies made from files, over a simulated disk.
use super::body::*;
use crate::engine::*;
use crate::exec;
use crate::io::*;
use crate::sys::{self, DiskFault, DiskOp, Inode};
use futures_lite::io::{AsyncBufRead, AsyncBufReadExt, AsyncReadExt, AsyncSeekExt};
use http_types::Body;
use std::cell::{Cell, RefCell};
use std::io;
use std::path::Path;
use std::rc::Rc;

/// The documented extension table, as full media types.
const EXT: &[(&str, &str)] = &[
    ("", ""),
    ("qqq", ""),
    ("css", "text/css;charset=utf-8"),
    ("html", "text/html;charset=utf-8"),
    ("js", "text/javascript;charset=utf-8"),
    ("mjs", "text/javascript;charset=utf-8"),
    ("jsonp", "text/javascript;charset=utf-8"),
    ("txt", "text/plain;charset=utf-8"),
    ("json", "application/json"),
    ("svg", "image/svg+xml"),
    ("svgz", "image/svg+xml"),
    ("wasm", "application/wasm"),
    ("zip", "application/zip"),
    ("7z", "application/x-7z-compressed"),
    ("mp3", "audio/mpeg"),
    ("mp4", "video/mp4"),
    ("bin", "application/octet-stream"),
    ("rss", "application/rss+xml;charset=utf-8"),
    ("atom", "application/atom+xml;charset=utf-8"),
    ("ico", "image/x-icon"),
    ("otf", "font/otf"),
    ("ttf", "font/ttf"),
    ("woff", "font/woff"),
    ("woff2", "font/woff2"),
    ("webm", "video/webm"),
    ("webp", "image/webp"),
    ("ogg", "audio/ogg"),
    ("midi", "audio/midi"),
    ("avi", "video/x-msvideo"),
];
fn signature() -> Vec<u8> {
    let mut v = match choose(14) {
        0 => b"\x89PNG\r\n\x1a\n".to_vec(),
        1 => b"GIF89a".to_vec(),
        2 => b"\xff\xd8\xff\xe0\x00\x10JFIF".to_vec(),
        3 => b"%PDF-1.7\n".to_vec(),
        4 => b"PK\x03\x04".to_vec(),
        5 => b"\0asm\x01\0\0\0".to_vec(),
        6 => b"\0\0\0\x20ftypisom\0\0\x02\0isomiso2avc1mp41".to_vec(),
        7 => {
            let mut t = vec![0u8; 257];
            t[..8].copy_from_slice(b"file.txt");
            t.extend_from_slice(b"ustar\x0000");
            t
        }
        8 => b"RIFF\x24\0\0\0WEBPVP8 ".to_vec(),
        9 => b"OggS\0\x02".to_vec(),
        10 => b"\x1f\x8b\x08\0".to_vec(),
        11 => b"7z\xbc\xaf\x27\x1c".to_vec(),
        12 => b"<!DOCTYPE html><html>".to_vec(),
        _ => b"BM\x36\0\x0c\0".to_vec(),
    };
    // sometimes only the beginning of a signature is there
    if chance(1, 6) {
        let k = choose_usize(v.len());
        v.truncate(k);
    }
    v
}
fn gen_file() -> Vec<u8> {
    let mut v = if chance(2, 3) { signature() } else { Vec::new() };
    let n = match weighted(if chance(1, 100) { &[0, 0, 0, 0, 1] } else { &[4, 4, 3, 1, 0] }) {
        4 => {
            probe("large_content");
            range(30_000, 300_000)
        }
        0 => choose(40),
        1 => choose(400),
        2 => choose(2000),
        _ => 7000 + choose(4000),
    } as usize;
    match weighted(&[4, 2, 2]) {
        0 => v.extend(gen_bytes(n)),
        1 => v.extend(std::iter::repeat(0).take(n.min(600))),
        _ => v.extend(b"plain text, nothing special. ".iter().cycle().take(n)),
    }
    v
}
fn sniff(data: &[u8]) -> Option<&'static str> {
    infer::Infer::new().get(data).map(|t| t.mime_type())
}
/// What the signature says, when looking at the leading 300 bytes and at the
/// whole file give the same answer (otherwise: unspecified).
fn by_signature(data: &[u8]) -> Option<Option<&'static str>> {
    let a = sniff(&data[..data.len().min(300)]);
    (a == sniff(data)).then_some(a)
}
fn errkind(errno: i32) -> io::ErrorKind {
    io::Error::from_raw_os_error(errno).kind()
}
const ERRNOS: &[i32] = &[libc::EIO, libc::EINTR, libc::EACCES, libc::ESTALE, libc::ENOMEM, libc::ETIMEDOUT];

struct World {
    inode: Rc<Inode>,
    full: Vec<u8>,
    /// every size the file has had, in order
    sizes: RefCell<Vec<usize>>,
}
impl World {
    fn set_len(&self, n: usize) {
        let old = *self.sizes.borrow().last().unwrap();
        if n > old {
            fault("file_grown");
        } else {
            fault("file_truncated");
        }
        *self.inode.data.borrow_mut() = self.full[..n].to_vec();
        self.sizes.borrow_mut().push(n);
        ev("file_resized", old as u64, n as u64);
    }
    fn epoch(&self) -> usize {
        self.sizes.borrow().len() - 1
    }
    fn sizes_since(&self, e: usize) -> Vec<usize> {
        self.sizes.borrow()[e..].to_vec()
    }
}

struct Reader {
    pos: usize,
    len: usize,
    fired_seen: usize,
    opened_at: usize,
}
impl Reader {
    fn data(&mut self, w: &World, got: &[u8]) -> Res {
        check!(self.pos + got.len() <= self.len, "beyond-length", "{} bytes at position {}, declared length {}", got.len(), self.pos, self.len);
        let want = &w.full[self.pos..self.pos + got.len()];
        check!(got == want, "wrong-bytes", "bytes at position {} are not the file's: {}", self.pos, diff(got, want));
        self.pos += got.len();
        Ok(())
    }
    fn eof(&self, w: &World) -> Res {
        let min = *w.sizes_since(self.opened_at).iter().min().unwrap();
        let need = self.len.min(min);
        check!(self.pos >= need, "early-end", "end of input at {} of {} (smallest file size {min})", self.pos, self.len);
        Ok(())
    }
    /// An error is accepted only for a disk error that really happened.
    fn error(&mut self, e: &io::Error) -> Res {
        let fired = sys::disk_fired();
        let new = &fired[self.fired_seen.min(fired.len())..];
        check!(new.iter().any(|f| errkind(f.errno) == e.kind()), "spurious-error", "error {e:?} at {}, but the disk reported {new:?}", self.pos);
        self.fired_seen = fired.len();
        Ok(())
    }
    /// Called after a successful operation: a failed disk read must not have
    /// been swallowed (an interrupted one may have been retried).
    fn swallowed(&mut self) -> Res {
        let fired = sys::disk_fired();
        for f in &fired[self.fired_seen.min(fired.len())..] {
            check!(f.op != DiskOp::Read || f.errno == libc::EINTR, "swallowed", "a disk read failed ({f:?}) but the reader was told nothing");
        }
        Ok(())
    }
}

/// A holder of a file body: async-std's File waits in drop for a job that is
/// still running, so jobs in flight finish first.
struct Safe(Option<Holder>);
impl Safe {
    fn into_inner(&mut self) -> Holder {
        exec::drain_jobs();
        self.0.take().unwrap()
    }
}
impl std::ops::Deref for Safe {
    type Target = Holder;
    fn deref(&self) -> &Holder {
        self.0.as_ref().unwrap()
    }
}
impl std::ops::DerefMut for Safe {
    fn deref_mut(&mut self) -> &mut Holder {
        self.0.as_mut().unwrap()
    }
}
impl Drop for Safe {
    fn drop(&mut self) {
        exec::drain_jobs();
    }
}

fn io_kind(e: &http_types::Error) -> Option<io::ErrorKind> {
    e.downcast_ref::<io::Error>().map(|e| e.kind())
}

pub fn c07() -> Res {
    exec::configure();
    let full = gen_file();
    let n0 = if chance(1, 4) { choose_usize(full.len() + 1) } else { full.len() };
    let (ext, ext_mime) = *pick(EXT);
    let stem = *pick(&["f", "a.tar", "x y", ".hidden", "dir.d/file"]);
    let path = if ext.is_empty() { format!("{}{}", sys::DISK_PREFIX, *pick(&["file", "dir.css/file", "x/.css"])) } else { format!("{}{stem}.{ext}", sys::DISK_PREFIX) };
    let mut faults = Vec::new();
    if chance(1, 2) {
        for _ in 0..range(1, 3) {
            let op = [DiskOp::Read, DiskOp::Seek, DiskOp::Stat, DiskOp::Open][weighted(&[8, 2, 1, 1])];
            let nth = match op {
                DiskOp::Read => choose(8),
                DiskOp::Seek => choose(3),
                DiskOp::Stat => choose(2),
                DiskOp::Open => 0,
            };
            faults.push(DiskFault { op, nth, errno: *pick(ERRNOS) });
        }
    }
    let (short, maxc) = (*pick(&[0u64, 4, 8]), *pick(&[1u64, 3, 50, 290, 2000]));
    note(|| format!("file of {n0} bytes (may become {}), {path:?}, faults {faults:?}, short {short}/{maxc}", full.len()));
    let maxc = if full.len() > LARGE { maxc.max(full.len() as u64 / 64) } else { maxc };
    sys::disk_init(short, maxc, faults);
    let inode = sys::disk_put(&path, full[..n0].to_vec());
    let w = Rc::new(World { inode, full, sizes: RefCell::new(vec![n0]) });
    competitor();
    let mutated = chance(1, 3);
    if mutated {
        let w = w.clone();
        exec::spawn("mutator", async move {
            for _ in 0..range(1, 3) {
                exec::jitter().await;
                let n = choose_usize(w.full.len() + 1);
                w.set_len(n);
            }
        });
    }
    let w2 = w.clone();
    let leak = Rc::new(Cell::new(0usize));
    let leak2 = leak.clone();
    let r = exec::run_root(async move {
        let r = main_task(&w2, path, ext_mime, !mutated).await;
        // whatever job is still running must not keep the file open
        for _ in 0..3 {
            exec::drain_jobs();
        }
        leak2.set(sys::disk_open_files());
        r
    });
    sys::disk_drop();
    r?;
    check!(leak.get() == 0, "leak", "{} files still open after their bodies are gone", leak.get());
    Ok(())
}

async fn main_task(w: &World, path: String, ext_mime: &str, may_chain: bool) -> Res {
    let fired0;
    let epoch;
    // ---- open -----------------------------------------------------------------
    let missing = chance(1, 25);
    let entry = weighted(&[3, 2, 2]);
    let mut use_ext = true;
    let res: Option<io::Result<Body>> = match entry {
        0 => {
            fired0 = 0;
            epoch = w.epoch();
            let p = if missing { format!("{path}.missing") } else { path.clone() };
            let f = Box::pin(Body::from_path(p));
            if chance(1, 10) {
                exec::abandon(f, choose(6)).await
            } else {
                Some(f.await)
            }
        }
        _ => {
            let mut file = match async_std::fs::File::open(&path).await {
                Ok(f) => f,
                Err(_) => {
                    probe("open_failed_outside");
                    return Ok(());
                }
            };
            // someone used the file before
            for _ in 0..choose(4) {
                match weighted(&[3, 2, 2]) {
                    0 => {
                        let mut b = vec![0u8; 1 + choose(500) as usize];
                        if chance(1, 4) {
                            let _ = exec::abandon(file.read(&mut b), choose(2)).await;
                        } else {
                            let _ = file.read(&mut b).await;
                        }
                    }
                    1 => {
                        let _ = file.seek(io::SeekFrom::Start(choose(400))).await;
                    }
                    _ => {
                        let _ = file.seek(io::SeekFrom::End(0)).await;
                    }
                }
            }
            exec::drain_jobs();
            fired0 = sys::disk_fired().len();
            epoch = w.epoch();
            if entry == 1 {
                use_ext = false;
                let f = Box::pin(Body::from_file(file));
                if chance(1, 10) {
                    exec::abandon(f, choose(6)).await
                } else {
                    Some(f.await)
                }
            } else {
                // the path only provides an extension
                let name = Path::new(&path).file_name().unwrap().to_os_string();
                let p = if chance(1, 2) { std::path::PathBuf::from(name) } else { std::path::PathBuf::from(&path) };
                let f = Box::pin(Body::from_file_with_path(file, &p));
                if chance(1, 10) {
                    exec::abandon(f, choose(6)).await
                } else {
                    Some(f.await)
                }
            }
        }
    };
    let Some(res) = res else {
        probe("open_abandoned");
        return Ok(());
    };
    let fired = sys::disk_fired();
    let new = &fired[fired0.min(fired.len())..];
    let body = match res {
        Err(e) => {
            ev("open_error", e.kind() as u64, 0);
            // (an error of an earlier, abandoned read may also come out here)
            let absent = missing && entry == 0 && e.kind() == io::ErrorKind::NotFound;
            check!(absent || fired.iter().any(|f| errkind(f.errno) == e.kind()), "spurious-error", "opening failed with {e:?}, but the disk reported {fired:?}");
            probe("open_error_surfaced");
            return Ok(());
        }
        Ok(b) => b,
    };
    check!(!(missing && entry == 0), "invented", "a missing file gave a body");
    for f in new {
        let must = matches!(f.op, DiskOp::Open | DiskOp::Read) && f.errno != libc::EINTR;
        check!(!must, "swallowed", "the disk reported {f:?} while the body was made, but no error came back");
    }
    // ---- what the body says about itself ---------------------------------------
    let sizes = w.sizes_since(epoch);
    let len = match body.len() {
        Some(l) if sizes.contains(&(l as usize)) => l as usize,
        l => return viol("wrong-length", format!("len() is {l:?}, the file's size was {sizes:?}")),
    };
    let fallback = if use_ext && !ext_mime.is_empty() { ext_mime } else { "application/octet-stream" };
    let mime = body.mime().map(|m| m.to_string());
    if sizes.iter().all(|s| (*s).min(300) == sizes[0].min(300)) {
        if let Some(sig) = by_signature(&w.full[..sizes[0]]) {
            let want = sig.unwrap_or(fallback);
            probe(if sig.is_some() { "typed_by_signature" } else { "typed_by_extension" });
            check!(mime.as_deref() == Some(want), "wrong-type", "a file of {} bytes is typed {mime:?}, expected {want:?} (signature {sig:?}, extension type {ext_mime:?})", sizes[0]);
        }
    }
    // ---- carry it ---------------------------------------------------------------
    let mut rd = Reader { pos: 0, len, fired_seen: sys::disk_fired().len(), opened_at: epoch };
    let mut h = Safe(Some(carry(body)));
    let shown = match &*h {
        Holder::B(_) => None,
        Holder::Q(q) => Some(q.content_type().map(|m| m.to_string())),
        Holder::R(r) => Some(r.content_type().map(|m| m.to_string())),
    };
    if let Some(s) = shown {
        check!(s == mime, "wrong-type", "the message's content type is {s:?}, its body's type {mime:?}");
    }
    check!(h.len() == Some(len as u64), "wrong-length", "the message reports length {:?}, its body has {len}", h.len());
    // ---- whole conversion ---------------------------------------------------------
    if chance(1, 4) {
        let h = h.into_inner();
        let f = Box::pin(async move {
            match h {
                Holder::B(b) => b.into_bytes().await,
                Holder::Q(mut q) => q.body_bytes().await,
                Holder::R(mut r) => r.body_bytes().await,
            }
        });
        let r = if chance(1, 8) { exec::abandon(f, choose(6)).await } else { Some(f.await) };
        match r {
            None => {}
            Some(Ok(v)) => {
                rd.data(w, &v)?;
                rd.eof(w)?;
                rd.swallowed()?;
                probe("converted");
            }
            Some(Err(e)) => {
                let fired = sys::disk_fired();
                check!(fired.len() > rd.fired_seen, "spurious-error", "conversion failed with {e:?} although no disk operation failed");
                if let Some(k) = io_kind(&e) {
                    check!(fired.iter().any(|f| errkind(f.errno) == k), "wrong-error", "conversion failed with {e:?}, but the disk reported {fired:?}");
                }
                probe("conversion_error");
            }
        }
        return Ok(());
    }
    // ---- chained ------------------------------------------------------------------
    let tail: Vec<u8> = if may_chain && chance(1, 6) { gen_bytes(range(1, 20) as usize) } else { Vec::new() };
    let chained = !tail.is_empty();
    if chained {
        let b = h.into_inner().into_body();
        h = Safe(Some(carry(b.chain(Body::from_bytes(tail.clone())))));
        check!(h.len() == Some((len + tail.len()) as u64), "wrong-length", "chained length {:?}", h.len());
    }
    // ---- read --------------------------------------------------------------------
    let mut tail_pos = 0usize;
    let mut errs = 0;
    let mut ops = 0;
    loop {
        ops += 1;
        let plain = chance(1, 2);
        let mut got: Vec<u8> = Vec::new();
        let mut end = false;
        let r: Option<io::Result<()>> = if plain || ops > 200 {
            let k = if ops > 200 { 65536 } else { [1 + choose(16), 100, 512, 9000, 1 << 16][weighted(&[4, 4, 4, 2, 1])] as usize };
            let mut buf = vec![0u8; k];
            let r = if chance(1, 5) { exec::abandon(h.read(&mut buf), choose(3)).await } else { Some(h.read(&mut buf).await) };
            r.map(|r| {
                r.map(|n| {
                    got.extend_from_slice(&buf[..n]);
                    end = n == 0;
                })
            })
        } else {
            // (futures-lite's own fill_buf() polls twice, which a file at its end does not allow)
            let f = Box::pin(std::future::poll_fn(|cx| std::pin::Pin::new(&mut *h).poll_fill_buf(cx).map(|r| r.map(|b| b.to_vec()))));
            let r = if chance(1, 5) { exec::abandon(f, choose(3)).await } else { Some(f.await) };
            match r {
                None => None,
                Some(Err(e)) => Some(Err(e)),
                Some(Ok(b)) => {
                    end = b.is_empty();
                    let k = if chance(1, 2) { b.len() } else { choose_usize(b.len() + 1) };
                    got.extend_from_slice(&b[..k]);
                    h.consume(k);
                    Some(Ok(()))
                }
            }
        };
        match r {
            None => {}
            Some(Err(e)) => {
                ev("read_error", e.kind() as u64, rd.pos as u64);
                rd.error(&e)?;
                probe("read_error_surfaced");
                errs += 1;
                if errs > 10 {
                    break;
                }
            }
            Some(Ok(())) => {
                ev("read", got.len() as u64, rd.pos as u64);
                if chained {
                    // file part first, then the tail; nothing of the tail may
                    // come while file bytes are still due
                    let mut i = 0;
                    if tail_pos == 0 {
                        while i < got.len() && rd.pos + i < rd.len && got[i] == w.full[rd.pos + i] {
                            i += 1;
                        }
                        rd.data(w, &got[..i])?;
                    }
                    if i < got.len() {
                        rd.eof(w)?;
                        let rest = &got[i..];
                        check!(tail.len() >= tail_pos + rest.len() && tail[tail_pos..tail_pos + rest.len()] == *rest, "wrong-bytes", "bytes after the file part are not the chained body's");
                        tail_pos += rest.len();
                    }
                    if end {
                        check!(tail_pos == tail.len(), "early-end", "end of input before the chained body's end");
                    }
                } else {
                    rd.data(w, &got)?;
                }
                if end {
                    rd.eof(w)?;
                    rd.swallowed()?;
                    break;
                }
            }
        }
        if chance(1, 12) {
            let b = h.into_inner().into_body();
            h = Safe(Some(carry(b)));
            probe("moved_while_reading");
        }
        if chance(1, 40) {
            // gives up half-way
            return Ok(());
        }
    }
    // The end stays the end, even when the file has grown since.
    if tail_pos == tail.len() && rd.pos == rd.len && errs == 0 {
        if chance(1, 3) && w.full.len() > rd.len {
            w.set_len(w.full.len());
        }
        let mut b = [0u8; 7];
        match h.read(&mut b).await {
            Ok(n) => check!(n == 0, "data-after-end", "{n} bytes after the declared end"),
            Err(e) => rd.error(&e)?,
        }
    }
    Ok(())
}
