//! X04: the socket transports.  A real server on the loopback network is the peer.
use crate::core::{fail, Obs, Property, Res, Src, Sub};
use crate::ensure;
use crate::p_tls;
use flowsdk::mqtt_client::transport::tls::TlsConfig;
use flowsdk::mqtt_client::transport::{quic::QuicConfig, quic::QuicTransport, RustlsTlsConfig, RustlsTlsTransport, TcpTransport, TlsTransport, Transport, TransportError};
use rustls_pki_types::pem::PemObject;
use rustls_pki_types::{CertificateDer, PrivateKeyDer};
use serde::{Deserialize, Serialize};
use std::net::{IpAddr, SocketAddr, ToSocketAddrs};
use std::sync::Arc;
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Kind {
    Tcp,
    Native,
    Rustls,
    Quic,
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Who {
    None,
    Right,
    Other,
    /// authorities: both; certificate: with an intermediate one
    Both,
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum End {
    /// the client closes when it has written everything, and is dropped then or
    /// only when the server has seen the end
    Close { hold: bool },
    /// the client ends its direction, the server answers that with this much more
    Shutdown(u16),
    ServerEnds,
}
#[derive(Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    /// localhost, 127.0.0.1, [::1], an address that the certificate does not name
    host: u8,
    scheme: bool,
    trusted: bool,
    key: u8,
    /// the authority the client is given; the system knows the right one
    ca: Who,
    /// whether the system's are wanted: not said, yes, no
    system: u8,
    /// how the configuration is told: DER, PEM, PEM file
    told: u8,
    skip_chain: bool,
    skip_name: bool,
    cert: Who,
    auth: bool,
    alpn: Option<u8>,
    srv_alpn: bool,
    up: Vec<u32>,
    down: Vec<u32>,
    flush: u8,
    read: u32,
    /// the client first reads everything, then writes
    after: bool,
    rebind: bool,
    local: bool,
    /// the server speaks only when it has everything the client writes
    #[serde(default)]
    wait: bool,
    /// small socket buffers at the server
    #[serde(default)]
    narrow: bool,
    /// so much data that the socket of the client is full with 64 KB less than this to go, while
    /// the server is slow to read
    #[serde(default)]
    fill: Option<u32>,
    end: End,
}
fn gen(s: &mut Src) -> Case {
    let kind = *s.pick(&[Kind::Tcp, Kind::Native, Kind::Rustls, Kind::Quic, Kind::Rustls, Kind::Quic]);
    let good = s.bool();
    let sizes = |s: &mut Src| s.vec(0, 6, 2, |s| match s.below(5) {
        0 => s.below(4) as u32,
        1 | 2 => s.below(2_000) as u32,
        3 => s.below(20_000) as u32,
        _ => s.below(300_000) as u32,
    });
    let skip_chain = !good && s.chance(1, 3);
    Case {
        kind,
        host: if good { s.below(3) as u8 } else { s.below(4) as u8 },
        scheme: s.bool(),
        trusted: good || s.bool(),
        key: if good { s.below(p_tls::KEYS - 1) } else { s.below(p_tls::KEYS) } as u8,
        ca: if good { Who::Right } else { *s.pick(&[Who::Right, Who::Other, Who::None, Who::Both]) },
        system: s.below(3) as u8,
        told: s.below(3) as u8,
        skip_chain,
        skip_name: if kind == Kind::Quic { skip_chain } else { !good && s.chance(1, 3) },
        cert: *s.pick(&[Who::None, Who::Right, Who::Other, Who::Both]),
        auth: s.chance(1, 3),
        alpn: if good { *s.pick(&[None, Some(0)]) } else { *s.pick(&[None, Some(0), Some(1)]) },
        srv_alpn: s.bool(),
        up: sizes(s),
        down: sizes(s),
        flush: s.below(3) as u8,
        read: *s.pick(&[100_000, 1, 7, 1000, 4096]),
        after: s.chance(1, 3),
        rebind: s.chance(1, 4),
        wait: s.bool(),
        narrow: s.bool(),
        fill: if s.chance(1, 12) { Some(s.below(160_000) as u32) } else { None },
        local: s.chance(1, 3),
        end: match s.below(4) {
            0 => End::Shutdown(s.below(3000) as u16),
            1 => End::ServerEnds,
            2 => End::Close { hold: true },
            _ => End::Close { hold: false },
        },
    }
}
fn pattern(sizes: &[u32], salt: u32) -> Vec<u8> {
    let n: u32 = sizes.iter().sum();
    (0..n).map(|i| (i.wrapping_mul(2_654_435_761) >> 13) as u8 ^ salt as u8).collect()
}
fn path(n: &str) -> String {
    format!("{}/certs/{n}", env!("CARGO_MANIFEST_DIR"))
}
fn ders(n: &str) -> Vec<Vec<u8>> {
    CertificateDer::pem_file_iter(path(n)).unwrap().map(|x| x.unwrap().to_vec()).collect()
}
fn key_der(n: &str) -> Vec<u8> {
    PrivateKeyDer::from_pem_file(path(n)).unwrap().secret_der().to_vec()
}
fn pem(n: &str) -> Vec<u8> {
    std::fs::read(path(n)).unwrap()
}
impl Case {
    fn ca_file(&self) -> Option<&'static str> {
        match self.ca {
            Who::None => None,
            Who::Right => Some("ca.pem"),
            Who::Other => Some("other.pem"),
            Who::Both => Some("both.pem"),
        }
    }
    fn cert_files(&self) -> Option<(&'static str, &'static str)> {
        match self.cert {
            Who::None => None,
            Who::Right => Some(("leaf_ca.pem", "leaf_ca.key")),
            Who::Other => Some(("leaf_other_rsa.pem", "leaf_other_rsa.key")),
            Who::Both => Some(("leaf_ca_chain.pem", "leaf_ca_chain.key")),
        }
    }
    fn alpns(&self) -> Vec<Vec<u8>> {
        match self.alpn {
            None => vec![],
            Some(0) => vec![b"mqtt".to_vec()],
            Some(_) => vec![b"other".to_vec()],
        }
    }
    fn server_alpn(&self) -> bool {
        self.srv_alpn || self.kind == Kind::Quic
    }
}
fn native(c: &Case) -> TlsConfig {
    let mut b = TlsConfig::builder().danger_accept_invalid_certs(c.skip_chain).danger_accept_invalid_hostnames(c.skip_name);
    if let Some(f) = c.ca_file() {
        for d in ders(f) {
            b = b.add_root_certificate(native_tls::Certificate::from_der(&d).unwrap());
        }
    }
    if let Some((a, k)) = c.cert_files() {
        b = b.client_identity(native_tls::Identity::from_pkcs8(&pem(a), &pem(k)).unwrap());
    }
    b.build()
}
fn rustls_cfg(c: &Case) -> Result<RustlsTlsConfig, TransportError> {
    let mut b = RustlsTlsConfig::builder();
    match c.system {
        1 => b = b.use_system_roots(true),
        2 => b = b.use_system_roots(false),
        _ => {}
    }
    b = b.danger_accept_invalid_certs(c.skip_chain).danger_accept_invalid_hostnames(c.skip_name).alpn_list(c.alpns());
    if let Some(f) = c.ca_file() {
        b = if c.told == 2 { b.add_roots_from_pem_file(path(f))? } else { b.add_roots_from_pem(&pem(f))? };
    }
    if let Some((a, k)) = c.cert_files() {
        b = if c.told == 2 { b.client_auth_from_pem_files(path(a), path(k))? } else { b.client_auth_from_pem(&pem(a), &pem(k))? };
    }
    Ok(b.build())
}
/// This host in the server's address family.
fn local_ip(to: IpAddr) -> IpAddr {
    if to.is_ipv6() {
        "::1".parse().unwrap()
    } else {
        "127.0.0.1".parse().unwrap()
    }
}
fn quic_cfg(c: &Case, ip: IpAddr) -> Result<QuicConfig, TransportError> {
    let mut b = QuicConfig::builder().insecure_skip_verify(c.skip_chain).alpn_list(c.alpns());
    b = match (c.ca_file(), c.told) {
        (None, _) if c.system == 2 => b.custom_roots(vec![]),
        (None, _) => b,
        (Some(f), 0) => b.custom_roots(ders(f)),
        (Some(f), 1) => b.custom_roots_from_pem(&pem(f))?,
        (Some(f), _) => b.custom_roots_from_pem_file(path(f))?,
    };
    if let Some((a, k)) = c.cert_files() {
        b = match c.told {
            0 => b.client_cert_chain(ders(a)).client_private_key(key_der(k)),
            1 => b.client_cert_chain_from_pem(&pem(a))?.client_private_key_from_pem(&pem(k))?,
            _ => b.client_cert_chain_from_pem_file(path(a))?.client_private_key_from_pem_file(path(k))?,
        };
    }
    if c.local {
        b = b.local_bind_ip(ip);
    }
    Ok(b.build())
}
trait Rebind {
    fn move_to(&self, _: SocketAddr) -> Option<Result<SocketAddr, TransportError>> {
        None
    }
}
impl Rebind for TcpTransport {}
impl Rebind for TlsTransport {}
impl Rebind for RustlsTlsTransport {}
impl Rebind for QuicTransport {
    fn move_to(&self, a: SocketAddr) -> Option<Result<SocketAddr, TransportError>> {
        Some(self.rebind(a))
    }
}

/// What one side saw.
#[derive(Debug, Default, Clone)]
struct Saw {
    accepted: bool,
    data: Vec<u8>,
    /// an end of the stream that is no error
    clean: bool,
    error: Option<String>,
    peer: Option<SocketAddr>,
}

/// Writes in pieces.
async fn write<W: AsyncWrite + Unpin>(w: &mut W, data: &[u8], sizes: &[u32], flush: u8) -> std::io::Result<()> {
    let mut d = data;
    for (i, n) in sizes.iter().enumerate() {
        let (a, b) = d.split_at(*n as usize);
        w.write_all(a).await?;
        if flush == 1 || flush == 2 && i % 2 == 0 {
            w.flush().await?;
        }
        d = b;
    }
    w.flush().await
}
/// Reads this many bytes, or to the end.
async fn read<R: AsyncRead + Unpin>(r: &mut R, want: usize, saw: &mut Saw, step: usize) {
    let mut buf = vec![0; step];
    while saw.data.len() < want && !saw.clean && saw.error.is_none() {
        let n = step.min(want - saw.data.len());
        match r.read(&mut buf[..n]).await {
            Ok(0) => saw.clean = true,
            Ok(n) => saw.data.extend_from_slice(&buf[..n]),
            Err(e) => saw.error = Some(e.to_string()),
        }
    }
}

const HELLO: u8 = 0xee;
struct Plan {
    up: Vec<u8>,
    down: Vec<u8>,
    tail: Vec<u8>,
}
/// The server's side of a connection.
async fn serve<R: AsyncRead + Unpin, W: AsyncWrite + Unpin>(c: &Case, p: &Plan, r: &mut R, w: &mut W, saw: &mut Saw) {
    let all = tokio::sync::Notify::new();
    if c.fill.is_some() {
        tokio::time::sleep(Duration::from_millis(40)).await;
    }
    let down = async {
        if c.wait && !c.after && !c.rebind {
            all.notified().await;
        }
        write(w, &p.down, &c.down, 0).await.ok();
        if c.end == End::ServerEnds {
            w.shutdown().await.ok();
        }
        w
    };
    let up = async {
        if c.kind == Kind::Quic {
            read(r, 1, saw, 1).await;
            assert!(saw.data.is_empty() || saw.data == [HELLO]);
            saw.data.clear();
        }
        read(r, p.up.len(), saw, 4096).await;
        all.notify_one();
        read(r, usize::MAX, saw, 4096).await
    };
    if let End::Shutdown(_) = c.end {
        let (w, _) = tokio::join!(down, up);
        w.write_all(&p.tail).await.ok();
        w.shutdown().await.ok();
    } else {
        tokio::join!(down, up);
    }
}
async fn server_stream<S: AsyncRead + AsyncWrite + Unpin>(c: &Case, p: &Plan, s: S, saw: &mut Saw) {
    let (mut r, mut w) = tokio::io::split(s);
    serve(c, p, &mut r, &mut w, saw).await;
}
/// The client's side.
async fn client<T: Transport + Rebind>(c: &Case, p: &Plan, t: Result<T, TransportError>, saw: &mut Saw, ip: IpAddr, served: tokio::sync::oneshot::Receiver<()>) -> Result<(), (&'static str, String)> {
    let mut t = match t {
        Ok(t) => t,
        Err(e) => {
            saw.error = Some(e.to_string());
            return Ok(());
        }
    };
    saw.accepted = true;
    saw.peer = t.local_addr().ok().and_then(|x| x.parse().ok());
    if t.set_nodelay(true).is_err() {
        return Err(("nodelay", "set_nodelay fails".into()));
    }
    let total = p.down.len();
    let half = if c.rebind { total / 2 } else { 0 };
    let (a, b) = c.up.split_at(if c.rebind { c.up.len() / 2 } else { 0 });
    let (ua, ub) = p.up.split_at(a.iter().sum::<u32>() as usize);
    if c.kind == Kind::Quic {
        // a stream appears at the server with its first byte
        if let Err(e) = write(&mut t, &[HELLO], &[1], 1).await {
            saw.error.get_or_insert(e.to_string());
        }
    }
    for (k, (sizes, data, want)) in [(a, ua, half), (b, ub, total)].into_iter().enumerate() {
        if k == 1 && c.rebind {
            if let Some(r) = t.move_to(SocketAddr::new(ip, 0)) {
                match r {
                    Ok(a) if a.ip() == ip && Some(a.port()) != saw.peer.map(|x| x.port()) => {}
                    x => return Err(("rebind", format!("{x:?}, the address was {:?}", saw.peer))),
                }
            }
        }
        let (mut r, mut w) = tokio::io::split(&mut t);
        if c.after {
            read(&mut r, want, saw, c.read as usize).await;
            if let Err(e) = write(&mut w, data, sizes, c.flush).await {
                saw.error.get_or_insert(e.to_string());
            }
        } else {
            let (e, _) = tokio::join!(write(&mut w, data, sizes, c.flush), read(&mut r, want, saw, c.read as usize));
            if let Err(e) = e {
                saw.error.get_or_insert(e.to_string());
            }
        }
    }
    match c.end {
        End::Close { hold } => {
            if let Err(e) = t.close().await {
                saw.error.get_or_insert(format!("close: {e}"));
            }
            // TLS servers send what no client waits for, and the reset that follows
            // when such a client is gone discards what was written
            if (hold || matches!(c.kind, Kind::Native | Kind::Rustls)) && tokio::time::timeout(Duration::from_secs(15), served).await.is_err() {
                return Err(("end", "the server sees no end while the closed transport exists".into()));
            }
        }
        End::Shutdown(n) => {
            if let Err(e) = t.shutdown().await {
                saw.error.get_or_insert(format!("shutdown: {e}"));
            }
            read(&mut t, total + n as usize, saw, c.read as usize).await;
            read(&mut t, usize::MAX, saw, 10).await;
        }
        End::ServerEnds => {
            read(&mut t, usize::MAX, saw, 10).await;
            t.close().await.ok();
        }
    }
    Ok(())
}

async fn run(c: &Case, addr_ip: IpAddr) -> Result<(Saw, Saw), (&'static str, String)> {
    let p = Plan {
        up: pattern(&c.up, 1),
        down: pattern(&c.down, 2),
        tail: pattern(&[if let End::Shutdown(n) = c.end { n as u32 } else { 0 }], 3),
    };
    let mut sc = p_tls::server_config_with(c.trusted, c.auth, c.key);
    if c.server_alpn() {
        sc.alpn_protocols = vec![b"mqtt".to_vec()];
    }
    let (mut srv, mut cli) = (Saw::default(), Saw::default());
    let (tx, rx) = tokio::sync::oneshot::channel();
    // 127.0.0.2 is this host, too
    let bind = SocketAddr::new(addr_ip, 0);
    let url = |port: u16| {
        let host = ["localhost", "127.0.0.1", "[::1]", "127.0.0.2"][c.host as usize % 4];
        let scheme = if c.scheme && matches!(c.kind, Kind::Native | Kind::Rustls) { "mqtts://" } else { "" };
        format!("{scheme}{host}:{port}")
    };
    let local = local_ip(addr_ip);
    // the client has given up, perhaps without a connection
    let gone = tokio::sync::Notify::new();
    let r = if c.kind == Kind::Quic {
        let qc = quinn::crypto::rustls::QuicServerConfig::try_from(sc).unwrap();
        let mut config = quinn::ServerConfig::with_crypto(Arc::new(qc));
        if c.narrow {
            let mut t = quinn::TransportConfig::default();
            t.stream_receive_window(2000u32.into()).send_window(2000);
            config.transport_config(Arc::new(t));
        }
        let e = quinn::Endpoint::server(config, bind).unwrap();
        let addr = url(e.local_addr().unwrap().port());
        let server = async {
            let k = tokio::select! {
                biased;
                k = async { e.accept().await.unwrap().await } => k.ok(),
                _ = gone.notified() => None,
            };
            if let Some(k) = k {
                srv.peer = Some(k.remote_address());
                let stream = async {
                    if let Ok((mut w, mut r)) = k.accept_bi().await {
                        srv.accepted = true;
                        serve(c, &p, &mut r, &mut w, &mut srv).await;
                        w.stopped().await.ok();
                    }
                };
                stream.await;
                tx.send(()).ok();
                // to the end of the connection
                k.closed().await;
            } else {
                tx.send(()).ok();
            }
        };
        let client = async {
            let t = match quic_cfg(c, local) {
                Ok(q) => QuicTransport::connect_with_config(&addr, q).await,
                Err(e) => {
                    gone.notify_one();
                    return Err(("configuration", e.to_string()));
                }
            };
            let r = client(c, &p, t, &mut cli, local, rx).await;
            if !cli.accepted {
                gone.notify_one();
            }
            r
        };
        let (_, r) = tokio::join!(server, client);
        r
    } else {
        let l = if bind.is_ipv4() { tokio::net::TcpSocket::new_v4() } else { tokio::net::TcpSocket::new_v6() }.unwrap();
        if c.narrow {
            l.set_recv_buffer_size(4096).unwrap();
            l.set_send_buffer_size(4096).unwrap();
        }
        l.bind(bind).unwrap();
        let l = l.listen(8).unwrap();
        let addr = url(l.local_addr().unwrap().port());
        let server = async {
            let (s, a) = tokio::select! {
                biased;
                x = l.accept() => x.unwrap(),
                _ = gone.notified() => return,
            };
            srv.peer = Some(a);
            if c.kind == Kind::Tcp {
                srv.accepted = true;
                server_stream(c, &p, s, &mut srv).await;
            } else if let Ok(s) = tokio_rustls::TlsAcceptor::from(Arc::new(sc)).accept(s).await {
                srv.accepted = true;
                server_stream(c, &p, s, &mut srv).await;
            }
            tx.send(()).ok();
        };
        let client = async {
            let r = match c.kind {
                Kind::Tcp => client(c, &p, TcpTransport::connect(&addr).await, &mut cli, local, rx).await,
                Kind::Native => client(c, &p, TlsTransport::connect_with_config(&addr, &native(c)).await, &mut cli, local, rx).await,
                _ => match rustls_cfg(c) {
                    Ok(k) => client(c, &p, RustlsTlsTransport::connect_with_config(&addr, k).await, &mut cli, local, rx).await,
                    Err(e) => Err(("configuration", e.to_string())),
                },
            };
            if !cli.accepted {
                gone.notify_one();
            }
            r
        };
        let (_, r) = tokio::join!(server, client);
        r
    };
    r.map(|_| (srv, cli))
}

/// How much a loopback connection takes while its server does not read.
fn capacity(v6: bool) -> u32 {
    static C: [std::sync::OnceLock<u32>; 2] = [const { std::sync::OnceLock::new() }; 2];
    *C[v6 as usize].get_or_init(|| {
        let s = if v6 { tokio::net::TcpSocket::new_v6() } else { tokio::net::TcpSocket::new_v4() }.unwrap();
        s.set_recv_buffer_size(4096).unwrap();
        s.set_send_buffer_size(4096).unwrap();
        s.bind(SocketAddr::new(if v6 { "::1" } else { "127.0.0.1" }.parse().unwrap(), 0)).unwrap();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async {
            let l = s.listen(1).unwrap();
            let mut c = tokio::net::TcpStream::connect(l.local_addr().unwrap()).await.unwrap();
            let _s = l.accept().await.unwrap();
            let mut n = 0;
            let b = [0; 16_000];
            while n < 20_000_000 {
                match tokio::time::timeout(Duration::from_millis(30), c.write(&b)).await {
                    Ok(Ok(k)) => n += k as u32,
                    _ => break,
                }
            }
            n
        })
    })
}

fn check(c: &Case, o: &mut Obs) -> Res {
    static ENV: std::sync::Once = std::sync::Once::new();
    ENV.call_once(|| std::env::set_var("SSL_CERT_FILE", path("ca.pem")));
    let mut c = serde_json::from_value::<Case>(serde_json::to_value(c).unwrap()).unwrap();
    if c.host == 2 && std::net::UdpSocket::bind("[::1]:0").is_err() {
        // no IPv6 here
        c.host = 1;
    }
    if let (Some(n), Kind::Native | Kind::Rustls | Kind::Tcp) = (c.fill, c.kind) {
        (c.narrow, c.wait, c.after, c.rebind) = (true, true, false, false);
        let extra = (capacity(c.host == 2) + n).saturating_sub(64_000 + c.up.iter().sum::<u32>());
        c.up.push(extra);
    } else {
        c.fill = None;
    }
    let c = &c;
    let ip: IpAddr = match c.host {
        0 => ("localhost", 1).to_socket_addrs().unwrap().next().unwrap().ip(),
        1 => "127.0.0.1".parse().unwrap(),
        2 => "::1".parse().unwrap(),
        _ => "127.0.0.2".parse().unwrap(),
    };
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let r = rt.block_on(async { tokio::time::timeout(Duration::from_secs(30), run(c, ip)).await });
    let (srv, cli) = match r {
        Err(_) => return fail("hang", "no end after 30 seconds"),
        Ok(Err((sig, x))) => return fail(sig, x),
        Ok(Ok(x)) => x,
    };
    rt.shutdown_background();
    // what the settings say
    let system = match c.kind {
        Kind::Native => true,
        Kind::Quic => c.ca == Who::None && c.system != 2,
        _ => c.system != 2,
    };
    let chain = c.key != p_tls::EXPIRED && if c.trusted { matches!(c.ca, Who::Right | Who::Both) || system } else { matches!(c.ca, Who::Other | Who::Both) };
    let name = c.host != 3;
    let trusted = match c.kind {
        Kind::Tcp => true,
        // OpenSSL checks the name as part of the certificate
        Kind::Native => c.skip_chain || chain && (name || c.skip_name),
        _ => (chain || c.skip_chain) && (name || c.skip_name),
    };
    let alpn = match (c.kind, c.alpn) {
        (Kind::Tcp | Kind::Native, _) => true,
        (Kind::Quic, None) => false,
        (_, None) => true,
        (_, Some(a)) => a == 0 || !c.server_alpn(),
    };
    let known = c.kind == Kind::Tcp || !c.auth || matches!(c.cert, Who::Right | Who::Both);
    let short = |x: &Saw| format!("accepted {}, {} bytes, clean end {}, error {:?}", x.accepted, x.data.len(), x.clean, x.error);
    if !trusted || !alpn {
        ensure!(!cli.accepted && cli.error.is_some(), "accepted", "the client takes a server it must not: {}", short(&cli));
        ensure!(srv.data.is_empty(), "data-to-untrusted", "{}", short(&srv));
        o.label("refused by the client");
        o.nt();
        return Ok(());
    }
    if !known {
        ensure!(!srv.accepted && srv.data.is_empty(), "harness", "{}", short(&srv));
        let reads = !c.down.iter().all(|n| *n == 0) || !matches!(c.end, End::Close { .. });
        ensure!(cli.data.is_empty() && (!reads || cli.error.is_some()), "refusal-unseen", "{}", short(&cli));
        o.label("refused by the server");
        o.nt();
        return Ok(());
    }
    ensure!(cli.accepted, "refused", "the client does not take the server: {:?}", cli.error);
    ensure!(srv.accepted, "refused", "the server does not take the client: {} / {}", short(&cli), short(&srv));
    let (up, down) = (pattern(&c.up, 1), pattern(&c.down, 2));
    ensure!(srv.data == up, "up-data", "{} bytes sent, the server has {} (the same so far: {}); {:?} / {:?}", up.len(), srv.data.len(), up.starts_with(&srv.data), srv.error, cli.error);
    let mut want = down.clone();
    if let End::Shutdown(n) = c.end {
        want.extend(pattern(&[n as u32], 3));
    }
    ensure!(cli.data == want, "down-data", "{} bytes sent, the client has {} (the same so far: {}); {:?}", want.len(), cli.data.len(), want.starts_with(&cli.data), cli.error);
    ensure!(srv.clean && srv.error.is_none(), "end", "the server sees no clean end: {}", short(&srv));
    ensure!(cli.error.is_none(), "client-error", "{}", short(&cli));
    ensure!(matches!(c.end, End::Close { .. }) || cli.clean, "server-end", "the client sees no clean end: {}", short(&cli));
    let (a, b) = (srv.peer.unwrap(), cli.peer);
    ensure!(b.is_some_and(|b| b.port() == a.port() && (b.ip() == a.ip() || b.ip().is_unspecified() && c.kind == Kind::Quic && !c.local)), "local-addr", "local_addr is {b:?}, the server sees {a}");
    o.label(match c.kind {
        Kind::Tcp => "TCP",
        Kind::Native => "native TLS",
        Kind::Rustls => "rustls",
        Kind::Quic => "QUIC",
    });
    o.label(match c.end {
        End::Close { .. } => "closed by the client",
        End::Shutdown(_) => "half closed",
        End::ServerEnds => "closed by the server",
    });
    o.add("bytes", (up.len() + want.len()) as u64);
    o.nt_if(up.len() + want.len() > 0);
    Ok(())
}

pub fn x04() -> Property {
    Property {
        id: "X04",
        rule: "the connection was refused, or at least one byte was carried",
        assumptions: &["rustls, quinn and OpenSSL, which the server and the transports use, are correct.", "The system's certificates are those of SSL_CERT_FILE."],
        subs: vec![Box::new(Sub { name: "sockets", quick: 15_000, thorough: 200_000, threads: 0, gen, check })],
    }
}
