//! Programs that build exactly if the thread-safety property (P40) holds. Sections are selected by `--cfg part="..."`; those named `not_*` must not build.
#![allow(dead_code, unused_imports, clippy::all)]
use std::panic::{RefUnwindSafe, UnwindSafe};

use stream_download::storage::adaptive::{AdaptiveStorageProvider, AdaptiveStorageReader, AdaptiveStorageWriter};
use stream_download::storage::bounded::{BoundedStorageProvider, BoundedStorageReader, BoundedStorageWriter};
use stream_download::storage::memory::{MemoryStorage, MemoryStorageProvider};
use stream_download::storage::temp::TempStorageProvider;
use stream_download::storage::{StorageProvider, StorageReader, StorageWriter};
use stream_download::source::{SourceStream, StreamOutcome};
use stream_download::{Settings, StreamDownload, StreamHandle, StreamInitializationError, StreamPhase, StreamState};

fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn unwind<T: UnwindSafe + RefUnwindSafe>() {}
fn all<T: Send + Sync + UnwindSafe + RefUnwindSafe>() {}
fn send_value<T: Send>(_: T) {}

#[cfg(part = "reader_send")]
fn w<P: StorageProvider>() {
    send::<StreamDownload<P>>();
}

#[cfg(part = "reader_sync")]
fn w<P: StorageProvider>()
where
    P::Reader: Sync,
{
    sync::<StreamDownload<P>>();
}

#[cfg(part = "reader_unwind")]
fn w<P: StorageProvider>()
where
    P::Reader: UnwindSafe + RefUnwindSafe,
{
    unwind::<StreamDownload<P>>();
}

#[cfg(part = "reader_concrete")]
fn w() {
    all::<StreamDownload<MemoryStorageProvider>>();
    all::<StreamDownload<TempStorageProvider>>();
    all::<StreamDownload<BoundedStorageProvider<MemoryStorageProvider>>>();
    all::<StreamDownload<BoundedStorageProvider<TempStorageProvider>>>();
    all::<StreamDownload<AdaptiveStorageProvider<MemoryStorageProvider, MemoryStorageProvider>>>();
    all::<StreamDownload<AdaptiveStorageProvider<TempStorageProvider, MemoryStorageProvider>>>();
}

#[cfg(part = "handle")]
fn w() {
    all::<StreamHandle>();
}

#[cfg(part = "settings")]
fn w<S: SourceStream>() {
    send::<Settings<S>>();
    sync::<Settings<S>>();
    all::<StreamState>();
    all::<StreamPhase>();
    all::<StreamOutcome>();
}

#[cfg(part = "error")]
fn w<S: SourceStream>()
where
    S::Error: Send + Sync,
    S::StreamCreationError: Send + Sync,
{
    send::<StreamInitializationError<S>>();
    sync::<StreamInitializationError<S>>();
}

#[cfg(part = "storage")]
fn w() {
    all::<MemoryStorageProvider>();
    all::<MemoryStorage>();
    send::<TempStorageProvider>();
    sync::<TempStorageProvider>();
    all::<<TempStorageProvider as StorageProvider>::Reader>();
    all::<BoundedStorageProvider<MemoryStorageProvider>>();
    all::<BoundedStorageReader<MemoryStorage>>();
    all::<BoundedStorageWriter<MemoryStorage>>();
    all::<AdaptiveStorageProvider<MemoryStorageProvider, MemoryStorageProvider>>();
    all::<AdaptiveStorageReader<MemoryStorage, MemoryStorage>>();
    all::<AdaptiveStorageWriter<MemoryStorage, MemoryStorage>>();
}

#[cfg(part = "storage_generic")]
fn w<P: StorageProvider, Q: StorageProvider>()
where
    P: Sync,
    Q: Sync,
    P::Reader: Sync,
    Q::Reader: Sync,
    P::Writer: Sync,
    Q::Writer: Sync,
{
    send::<BoundedStorageProvider<P>>();
    sync::<BoundedStorageProvider<P>>();
    send::<BoundedStorageReader<P::Reader>>();
    sync::<BoundedStorageReader<P::Reader>>();
    send::<BoundedStorageWriter<P::Writer>>();
    sync::<BoundedStorageWriter<P::Writer>>();
    send::<AdaptiveStorageProvider<P, Q>>();
    sync::<AdaptiveStorageProvider<P, Q>>();
    send::<AdaptiveStorageReader<P::Reader, Q::Reader>>();
    sync::<AdaptiveStorageReader<P::Reader, Q::Reader>>();
    send::<AdaptiveStorageWriter<P::Writer, Q::Writer>>();
    sync::<AdaptiveStorageWriter<P::Writer, Q::Writer>>();
}

#[cfg(part = "http")]
fn w<C: stream_download::http::Client>()
where
    C: Sync,
    C::Response: Sync,
    C::Headers: Sync,
{
    use stream_download::http::*;
    send::<HttpStream<C>>();
    send::<HttpStream<::reqwest::Client>>();
    send::<HttpStream<::reqwest_middleware::ClientWithMiddleware>>();
    send::<ContentType>();
    sync::<ContentType>();
}

#[cfg(part = "async_read")]
fn w<T: tokio::io::AsyncRead + Send + Sync + Unpin + 'static>() {
    use stream_download::async_read::*;
    send::<AsyncReadStream<T>>();
    sync::<AsyncReadStream<T>>();
    send::<AsyncReadStreamParams<T>>();
    sync::<AsyncReadStreamParams<T>>();
}

#[cfg(part = "process")]
fn w() {
    use stream_download::process::*;
    send::<ProcessStream>();
    send::<ProcessStreamParams>();
    send::<Command>();
    sync::<Command>();
    send::<CommandBuilder>();
    sync::<CommandBuilder>();
    send::<SpawnedCommand>();
    send::<FfmpegConvertAudioCommand>();
    send::<YtDlpCommand>();
}

#[cfg(part = "registry")]
fn w<T: 'static>() {
    use stream_download::registry::*;
    send::<Registry<T>>();
    sync::<Registry<T>>();
    send::<Rule>();
    sync::<Rule>();
    send::<Input>();
    sync::<Input>();
}

#[cfg(part = "registry_future")]
fn w<T: Send + 'static>(registry: &mut stream_download::registry::Registry<T>) {
    send_value(registry.find_match("input"));
}

#[cfg(part = "opendal")]
fn w() {
    send::<stream_download_opendal::OpendalStream>();
    send::<stream_download_opendal::OpendalStreamParams>();
    sync::<stream_download_opendal::OpendalStreamParams>();
    send::<stream_download_opendal::Error>();
    sync::<stream_download_opendal::Error>();
}

#[cfg(part = "create")]
fn w<S: SourceStream, P: StorageProvider>(params: S::Params, storage: P, settings: Settings<S>)
where
    S::Error: std::fmt::Debug + Send,
    S::Params: Send,
    P: 'static,
{
    send_value(StreamDownload::new::<S>(params, storage, settings));
}

#[cfg(part = "create_stream")]
fn w<S: SourceStream, P: StorageProvider>(stream: S, storage: P, settings: Settings<S>)
where
    S::Error: std::fmt::Debug + Send,
    P: 'static,
{
    send_value(StreamDownload::from_stream(stream, storage, settings));
}

#[cfg(part = "create_http")]
fn w(url: ::reqwest::Url, m: MemoryStorageProvider) {
    use stream_download::http::HttpStream;
    send_value(StreamDownload::new_http(url.clone(), m.clone(), Settings::default()));
    send_value(StreamDownload::new_http_with_middleware(url, m, Settings::default()));
}

#[cfg(part = "create_async_read")]
fn w<T: tokio::io::AsyncRead + Send + Sync + Unpin + 'static>(p: stream_download::async_read::AsyncReadStreamParams<T>, m: MemoryStorageProvider) {
    send_value(StreamDownload::new_async_read(p, m, Settings::default()));
}

#[cfg(part = "create_process")]
fn w(p: stream_download::process::ProcessStreamParams, m: MemoryStorageProvider) {
    send_value(StreamDownload::new_process(p, m, Settings::default()));
}

#[cfg(part = "not_send")]
fn w() {
    send::<std::rc::Rc<u8>>();
}

#[cfg(part = "not_sync")]
fn w() {
    sync::<std::cell::Cell<u8>>();
}

#[cfg(part = "not_unwind")]
fn w() {
    unwind::<&mut std::cell::Cell<u8>>();
}

#[cfg(part = "not_send_future")]
fn w() {
    send_value(async {
        let x = std::rc::Rc::new(1u8);
        std::future::ready(()).await;
        drop(x);
    });
}
