//! Building blocks for the demonstrations: a scripted source and a scripted storage.
#![allow(dead_code)]
use std::convert::Infallible;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

use bytes::Bytes;
use futures_util::Stream;
use stream_download::source::{SourceStream, StreamOutcome};
use stream_download::storage::StorageProvider;
use stream_download::{Settings, StreamDownload};
use tokio::sync::mpsc;

/// what the test sees of, and does to, the source
#[derive(Clone)]
pub struct Ctl {
    pub tx: mpsc::UnboundedSender<Option<io::Result<Bytes>>>,
    pub seeks: Arc<Mutex<Vec<(u64, Option<u64>)>>>,
    pub reconnects: Arc<Mutex<Vec<u64>>>,
    pub finishes: Arc<Mutex<Vec<(Option<io::ErrorKind>, StreamOutcome)>>>,
    pub dropped: Arc<Mutex<bool>>,
}

#[derive(Clone, Default)]
pub struct Opt {
    pub len: Option<u64>,
    pub seekable: bool,
    pub reconnect_err: bool,
    pub seek_ms: u64,
    pub finish_ms: u64,
    /// turn a failure into a success
    pub forgive: bool,
}

pub struct Scripted {
    rx: mpsc::UnboundedReceiver<Option<io::Result<Bytes>>>,
    ctl: Ctl,
    opt: Opt,
}

impl Drop for Scripted {
    fn drop(&mut self) {
        *self.ctl.dropped.lock().unwrap() = true;
    }
}

pub fn scripted(opt: Opt) -> (Scripted, Ctl) {
    let (tx, rx) = mpsc::unbounded_channel();
    let ctl = Ctl { tx, seeks: Default::default(), reconnects: Default::default(), finishes: Default::default(), dropped: Default::default() };
    (Scripted { rx, ctl: ctl.clone(), opt }, ctl)
}

impl Stream for Scripted {
    type Item = io::Result<Bytes>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        match self.rx.poll_recv(cx) {
            Poll::Ready(Some(x)) => Poll::Ready(x),
            _ => Poll::Pending,
        }
    }
}

impl SourceStream for Scripted {
    type Params = Self;
    type StreamCreationError = Infallible;
    async fn create(p: Self) -> Result<Self, Infallible> {
        Ok(p)
    }
    fn content_length(&self) -> Option<u64> {
        self.opt.len
    }
    async fn seek_range(&mut self, start: u64, end: Option<u64>) -> io::Result<()> {
        self.ctl.seeks.lock().unwrap().push((start, end));
        if self.opt.seek_ms > 0 {
            ms(self.opt.seek_ms).await;
        }
        while self.rx.try_recv().is_ok() {}
        Ok(())
    }
    async fn reconnect(&mut self, p: u64) -> io::Result<()> {
        self.ctl.reconnects.lock().unwrap().push(p);
        if self.opt.reconnect_err { Err(io::Error::other("reconnect refused")) } else { Ok(()) }
    }
    fn supports_seek(&self) -> bool {
        self.opt.seekable
    }
    async fn on_finish(&mut self, r: io::Result<()>, o: StreamOutcome) -> io::Result<()> {
        self.ctl.finishes.lock().unwrap().push((r.as_ref().err().map(|e| e.kind()), o));
        if self.opt.finish_ms > 0 {
            ms(self.opt.finish_ms).await;
        }
        if self.opt.forgive { Ok(()) } else { r }
    }
}

impl Ctl {
    pub fn data(&self, r: std::ops::Range<u64>) {
        let _ = self.tx.send(Some(Ok(res(r))));
    }
    pub fn end(&self) {
        let _ = self.tx.send(None);
    }
    pub fn error(&self) {
        let _ = self.tx.send(Some(Err(io::Error::other("bad chunk"))));
    }
    pub fn seeks(&self) -> Vec<(u64, Option<u64>)> {
        self.seeks.lock().unwrap().clone()
    }
}

/// the bytes of the resource
pub fn res(r: std::ops::Range<u64>) -> Bytes {
    Bytes::from(r.map(|i| (i % 251) as u8 + 1).collect::<Vec<u8>>())
}

pub async fn ms(n: u64) {
    tokio::time::sleep(Duration::from_millis(n)).await
}

/// no prefetch, no reconnects
pub fn settings() -> Settings<Scripted> {
    Settings::default().prefetch_bytes(0).retry_timeout(Duration::from_secs(600))
}

pub async fn open<P: StorageProvider>(o: Opt, p: P, st: Settings<Scripted>) -> (StreamDownload<P>, Ctl) {
    let (s, c) = scripted(o);
    (StreamDownload::from_stream(s, p, st).await.unwrap(), c)
}

/// runs something that blocks; None if it does not return in time
pub async fn blocking<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let j = tokio::task::spawn_blocking(f);
    match tokio::time::timeout(Duration::from_secs(5), j).await {
        Err(_) => None,
        Ok(r) => Some(r.expect("panicked")),
    }
}

pub fn check(ok: bool, what: &str) {
    println!("{}: {what}", if ok { "ok" } else { "WRONG" });
    if !ok {
        std::process::exit(1);
    }
}

/// storage over a shared buffer whose writer may be short, buffered, or fail
#[derive(Clone, Default)]
pub struct Store {
    pub data: Arc<Mutex<Vec<u8>>>,
    /// only written bytes that were flushed are visible
    pub buffered: bool,
    /// most bytes one write takes
    pub short: Option<usize>,
    /// positions from which on writes fail
    pub fail_at: Option<u64>,
    pub fail_seek: bool,
    /// writes are refused while this is set
    pub full: Arc<Mutex<bool>>,
    pub cap: Option<usize>,
    pub log: Arc<Mutex<Vec<(u64, usize)>>>,
    pub reads: Arc<Mutex<usize>>,
    pub create_err: bool,
    pub made_for: Arc<Mutex<Option<Option<u64>>>>,
}

pub struct End {
    s: Store,
    writer: bool,
    pos: u64,
    pending: Vec<(u64, Vec<u8>)>,
}

impl StorageProvider for Store {
    type Reader = End;
    type Writer = End;
    fn into_reader_writer(self, l: Option<u64>) -> io::Result<(End, End)> {
        *self.made_for.lock().unwrap() = Some(l);
        if self.create_err {
            return Err(io::Error::new(io::ErrorKind::StorageFull, "no storage"));
        }
        let f = |writer| End { s: self.clone(), pos: 0, pending: vec![], writer };
        Ok((f(false), f(true)))
    }
    fn max_capacity(&self) -> Option<usize> {
        self.cap
    }
}

impl Read for End {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        *self.s.reads.lock().unwrap() += 1;
        let d = self.s.data.lock().unwrap();
        let p = (self.pos as usize).min(d.len());
        let n = b.len().min(d.len() - p);
        b[..n].copy_from_slice(&d[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl End {
    fn put(&self, p: u64, b: &[u8]) {
        let mut d = self.s.data.lock().unwrap();
        let e = p as usize + b.len();
        if d.len() < e {
            d.resize(e, 0);
        }
        d[p as usize..e].copy_from_slice(b);
    }
}

impl Write for End {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.s.fail_at.is_some_and(|p| self.pos >= p) {
            return Err(io::Error::new(io::ErrorKind::PermissionDenied, "write failed"));
        }
        if *self.s.full.lock().unwrap() {
            return Ok(0);
        }
        let n = b.len().min(self.s.short.unwrap_or(usize::MAX));
        self.s.log.lock().unwrap().push((self.pos, b.len()));
        if self.s.buffered {
            self.pending.push((self.pos, b[..n].to_vec()));
        } else {
            self.put(self.pos, &b[..n]);
        }
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        for (p, b) in std::mem::take(&mut self.pending) {
            self.put(p, &b);
        }
        Ok(())
    }
}

impl Seek for End {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let pos = match p {
            SeekFrom::Start(x) => x,
            SeekFrom::Current(0) => return Ok(self.pos),
            SeekFrom::Current(x) => self.pos.checked_add_signed(x).unwrap(),
            SeekFrom::End(_) => return Err(io::ErrorKind::Unsupported.into()),
        };
        if self.s.fail_seek && self.writer {
            return Err(io::Error::new(io::ErrorKind::PermissionDenied, "seek failed"));
        }
        self.pos = pos;
        Ok(self.pos)
    }
}
