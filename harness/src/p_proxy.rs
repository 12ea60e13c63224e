//! G02: r-proxy and s-proxy, between clients and a broker.
use crate::core::{fail, Fail, Obs, Property, Res, Src, Sub};
use crate::ensure;
use crate::p_grpc::canon;
use crate::refcodec::{self as rc, R};
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU16, Ordering};
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Way {
    /// the end of its stream, as close() does it
    Fin,
    Reset,
    Malformed,
}
#[derive(Debug, Serialize, Deserialize)]
enum Step {
    /// the next client connects, and sends more than its CONNECT
    Join { client_id: String, v5: bool, packet: R, more: Vec<R>, cut: Vec<u16>, second: bool },
    Send { who: u8, up: bool, packets: Vec<R>, cut: Vec<u16>, wait: bool },
    End { who: u8, up: bool, way: Way, last: Vec<R> },
}
#[derive(Debug, Serialize, Deserialize)]
struct Case {
    nobody: bool,
    steps: Vec<Step>,
}

// ------------------------------------------------------------------ endpoints

#[derive(Default)]
struct Heard {
    bytes: Vec<u8>,
    /// Some(true): the stream ended in order
    end: Option<bool>,
}
enum Wr {
    Bytes(Vec<u8>, Vec<u16>),
    Fin,
    Reset,
}
struct End {
    heard: Arc<(Mutex<Heard>, Condvar)>,
    tx: mpsc::Sender<Wr>,
    th: Vec<std::thread::JoinHandle<()>>,
    sock: TcpStream,
}
impl End {
    fn new(sock: TcpStream) -> End {
        let _ = sock.set_nodelay(true);
        let heard = Arc::new((Mutex::new(Heard::default()), Condvar::new()));
        let (tx, rx) = mpsc::channel::<Wr>();
        let (mut r, mut w) = (sock.try_clone().unwrap(), sock.try_clone().unwrap());
        let h = heard.clone();
        let back = tx.clone();
        let a = std::thread::spawn(move || {
            let mut b = vec![0u8; 65536];
            loop {
                let n = r.read(&mut b);
                let mut g = h.0.lock().unwrap();
                match n {
                    Ok(0) => {
                        g.end = Some(true);
                        // and so it ends its own side too
                        let _ = back.send(Wr::Fin);
                    }
                    Ok(n) => g.bytes.extend(&b[..n]),
                    Err(_) => g.end = Some(false),
                }
                h.1.notify_all();
                if g.end.is_some() {
                    return;
                }
            }
        });
        let b = std::thread::spawn(move || {
            for x in rx {
                match x {
                    Wr::Bytes(b, cut) => {
                        let mut at = 0;
                        for n in cut {
                            let e = (at + n as usize).min(b.len());
                            if w.write_all(&b[at..e]).is_err() {
                                return;
                            }
                            std::thread::sleep(Duration::from_millis(2));
                            at = e;
                        }
                        if w.write_all(&b[at..]).is_err() {
                            return;
                        }
                    }
                    Wr::Fin => {
                        let _ = w.shutdown(Shutdown::Write);
                    }
                    Wr::Reset => {
                        let l = libc::linger { l_onoff: 1, l_linger: 0 };
                        unsafe { libc::setsockopt(w.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of_val(&l) as u32) };
                        // the reset goes out when the last copy of the socket is closed; this stops the reader
                        let _ = w.shutdown(Shutdown::Read);
                        return;
                    }
                }
            }
        });
        End { heard, tx, th: vec![a, b], sock }
    }
    /// waits until `f` says that it has come, or the time is up
    fn wait(&self, patience: Duration, mut f: impl FnMut(&Heard) -> bool) -> bool {
        let end = Instant::now() + patience;
        let mut g = self.heard.0.lock().unwrap();
        loop {
            if f(&g) {
                return true;
            }
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return false;
            }
            g = self.heard.1.wait_timeout(g, left).unwrap().0;
        }
    }
    fn bytes(&self) -> Vec<u8> {
        self.heard.0.lock().unwrap().bytes.clone()
    }
    fn close(self) {
        drop(self.tx);
        let _ = self.sock.shutdown(Shutdown::Read);
        let mut th = self.th.into_iter();
        let (a, b) = (th.next().unwrap(), th.next().unwrap());
        let _ = self.sock.set_write_timeout(Some(Duration::from_millis(1)));
        let _ = a.join();
        let _ = self.sock.shutdown(Shutdown::Both);
        let _ = b.join();
    }
}

// -------------------------------------------------------------------- programs

static PORT: AtomicU16 = AtomicU16::new(0);
/// a port nobody listens on, out of the range that the kernel gives away by itself
fn port() -> u16 {
    loop {
        let n = PORT.fetch_add(1, Ordering::Relaxed);
        let p = 10_000 + ((std::process::id() as u64 * 997 + n as u64) % 20_000) as u16;
        if TcpListener::bind(("0.0.0.0", p)).is_ok() {
            return p;
        }
    }
}
struct Prog(Child);
impl Drop for Prog {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
fn program(kind: &str, to: &str) -> Result<(Prog, u16), Fail> {
    for _ in 0..20 {
        let p = port();
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.args([p.to_string(), to.to_string()]).env("VH_PROXY", kind).env_remove("RUST_LOG").stdin(Stdio::null());
        if std::env::var("VH_TRACE").is_err() {
            c.stdout(Stdio::null()).stderr(Stdio::null());
        }
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let Ok(ch) = c.spawn() else { return fail("harness", "cannot start a program") };
        let mut ch = Prog(ch);
        let start = Instant::now();
        while start.elapsed() < Duration::from_secs(20) {
            if !matches!(ch.0.try_wait(), Ok(None)) {
                break;
            }
            // somebody listens there
            if TcpStream::connect(("127.0.0.1", p)).is_ok() && matches!(ch.0.try_wait(), Ok(None)) {
                return Ok((ch, p));
            }
            std::thread::sleep(Duration::from_millis(3));
        }
    }
    fail("start", format!("{kind}-proxy does not start"))
}
struct Broker {
    addr: String,
    conns: Arc<(Mutex<Vec<End>>, Condvar)>,
    stop: Arc<AtomicBool>,
    th: Option<std::thread::JoinHandle<()>>,
}
impl Broker {
    fn new() -> Result<Broker, Fail> {
        let Ok(l) = TcpListener::bind("127.0.0.1:0") else { return fail("harness", "no port") };
        let addr = l.local_addr().unwrap().to_string();
        let conns = Arc::new((Mutex::new(vec![]), Condvar::new()));
        let stop = Arc::new(AtomicBool::new(false));
        let (c, s) = (conns.clone(), stop.clone());
        let th = std::thread::spawn(move || {
            for x in l.incoming() {
                if s.load(Ordering::SeqCst) {
                    return;
                }
                if let Ok(x) = x {
                    c.0.lock().unwrap().push(End::new(x));
                    c.1.notify_all();
                }
            }
        });
        Ok(Broker { addr, conns, stop, th: Some(th) })
    }
}
impl Drop for Broker {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(&self.addr);
        if let Some(t) = self.th.take() {
            let _ = t.join();
        }
        for c in self.conns.0.lock().unwrap().drain(..) {
            c.close();
        }
    }
}

// ---------------------------------------------------------------------- cases

fn packet(s: &mut Src, v5: bool, up: bool) -> R {
    let kinds: &[u8] = if up { &[3, 3, 3, 4, 5, 6, 7, 8, 10, 12, 15] } else { &[3, 3, 3, 4, 5, 6, 7, 9, 11, 13, 15] };
    let mut k = *s.pick(kinds);
    if k == 15 && !v5 {
        k = 12 + !up as u8;
    }
    let mut r = rc::gen_kind(s, v5, k);
    match &mut r {
        // a recorded finding of C02
        R::Auth { code: 0, props } if props.is_empty() => r = rc::gen_kind(s, v5, 12 + !up as u8),
        R::Publish { payload, .. } if s.chance(1, 12) => {
            let n = s.below(400_000) as usize;
            *payload = s.blob(n);
        }
        R::Publish { payload, .. } if s.chance(1, if s.thorough { 300 } else { 2_000 }) => {
            let n = 4_000_000 + s.below(2_000_000) as usize;
            *payload = s.blob(n);
        }
        _ => {}
    }
    r
}
fn packets(s: &mut Src, v5: bool, up: bool) -> Vec<R> {
    let max = if s.chance(1, 10) { 400 } else { 4 };
    let n = s.range(1, max) as usize;
    (0..n).map(|_| packet(s, v5, up)).collect()
}
fn cut(s: &mut Src) -> Vec<u16> {
    if s.bool() {
        return vec![];
    }
    s.vec(1, 5, 2, |s| s.below(60) as u16)
}
fn gen(s: &mut Src) -> Case {
    let mut vs: Vec<bool> = vec![];
    let mut over: Vec<bool> = vec![];
    let max = if s.thorough { 24 } else { 12 };
    let steps = s.vec(1, max, max * 2 / 3, |s| {
        let open = over.iter().any(|x| !x);
        let x = if !open || vs.len() < 4 && s.chance(1, 6) { 0 } else { s.weighted(&[0, 12, 3]) };
        if x == 0 {
            let v5 = s.bool();
            vs.push(v5);
            over.push(false);
            let client_id = match s.below(6) {
                0 => String::new(),
                1 => "é".into(),
                2 => rc::gen_string(s, 300),
                _ => (*s.pick(&["a", "b", "a"])).to_string(),
            };
            let mut p = rc::gen_kind(s, v5, 1);
            if let R::Connect { client_id: c, keep_alive, clean, .. } = &mut p {
                // the broker knows them by that
                *keep_alive = (*keep_alive & 0xff00) | vs.len() as u16;
                *clean |= client_id.is_empty();
                *c = client_id.clone();
            }
            return Step::Join { client_id, v5, packet: p, more: s.vec(0, 4, 0, |s| packet(s, v5, true)), cut: cut(s), second: s.chance(1, 4) };
        }
        let open: Vec<usize> = (0..over.len()).filter(|k| !over[*k]).collect();
        let who = *s.pick(&open);
        let up = s.bool();
        if x == 1 {
            return Step::Send { who: who as u8, up, packets: packets(s, vs[who], up), cut: cut(s), wait: s.bool() };
        }
        over[who] = true;
        let way = *s.pick(&[Way::Fin, Way::Fin, Way::Fin, Way::Malformed, Way::Reset]);
        let mut last = s.vec(0, 2, 0, |s| packet(s, vs[who], up));
        if s.bool() && (up || vs[who]) {
            last.push(rc::gen_kind(s, vs[who], 14));
        }
        Step::End { who: who as u8, up, way, last }
    });
    Case { nobody: s.chance(1, 30), steps }
}

// ---------------------------------------------------------------------- check

const PATIENCE: Duration = Duration::from_secs(12);
struct Link {
    v5: bool,
    client: End,
    broker: Option<End>,
    up: Vec<R>,
    down: Vec<R>,
    over: bool,
}
/// what came is a prefix of what was sent; complete if it must be
fn arrived(end: &End, sent: &[R], v5: bool, complete: bool, what: &str) -> Res {
    let mut at = 0;
    let mut done = 0;
    let mut bad: Option<String> = None;
    let all = end.wait(if complete { PATIENCE } else { Duration::ZERO }, |h| {
        while bad.is_none() {
            match rc::frame_len(&h.bytes[at..]) {
                Ok(Some(n)) => {
                    let f = &h.bytes[at..at + n];
                    match (rc::decode(f, v5), sent.get(done)) {
                        (Ok(r), Some(w)) if canon(&r) == canon(w) => {}
                        (Ok(r), w) => bad = Some(format!("packet {done} is {r:?}, not {w:?}")),
                        (Err(e), w) => bad = Some(format!("packet {done}, {w:?}, is {e}: {:02x?}", &f[..f.len().min(40)])),
                    }
                    done += 1;
                    at += n;
                }
                Ok(None) => break,
                Err(e) => bad = Some(format!("packet {done}: {e}")),
            }
        }
        bad.is_some() || done >= sent.len() || h.end.is_some()
    });
    if let Some(b) = bad {
        let b: String = b.chars().take(900).collect();
        return fail(format!("differs:{what}"), format!("{what}: {b}"));
    }
    if complete {
        let why = if all { "before the connection ends" } else { "in time" };
        ensure!(done == sent.len(), format!("lost:{what}"), "{what}: {done} of {} packets arrive {why}; then {:?} is missing", sent.len(), sent.get(done).map(|x| x.kind_name()));
    }
    Ok(())
}

fn check(c: &Case, o: &mut Obs) -> Res {
    let b = Broker::new()?;
    // listening, but full of nobody: a port that was just free
    let to = if c.nobody { format!("127.0.0.1:{}", port()) } else { b.addr.clone() };
    let (mut sp, sport) = program("s", &to)?;
    let mut rp = [program("r", &format!("127.0.0.1:{sport}"))?];
    let mut rp2 = if c.steps.iter().any(|s| matches!(s, Step::Join { second: true, .. })) { Some(program("r", &format!("127.0.0.1:{sport}"))?) } else { None };
    let mut links: Vec<Link> = vec![];
    let mut r = run(c, o, &b, rp[0].1, rp2.as_ref().map(|x| x.1), &mut links);
    if let Err(f) = &mut r {
        // what has become of the programs
        let st = [Some(&mut sp), Some(&mut rp[0].0), rp2.as_mut().map(|x| &mut x.0)].map(|p| p.and_then(|p| p.0.try_wait().ok().flatten()));
        if st.iter().any(|s| s.is_some()) {
            f.msg += &format!("; s-proxy, r-proxy, second r-proxy ended: {st:?}");
        }
    }
    for l in links {
        l.client.close();
        if let Some(b) = l.broker {
            b.close();
        }
    }
    r
}
fn bytes(ps: &[R], v5: bool) -> Vec<u8> {
    ps.iter().enumerate().flat_map(|(k, r)| rc::encode(r, v5, (k % 2) as u8)).collect()
}
fn run(c: &Case, o: &mut Obs, b: &Broker, r1: u16, r2: Option<u16>, links: &mut Vec<Link>) -> Res {
    for (k, st) in c.steps.iter().enumerate() {
        match st {
            Step::Join { client_id, v5, packet, more, cut, second } => {
                let p = if *second { r2.unwrap() } else { r1 };
                let mut tries = 0;
                let s = loop {
                    match TcpStream::connect(("127.0.0.1", p)) {
                        Ok(s) => break s,
                        Err(e) if tries == 5 => return fail("refused", format!("step {k}: r-proxy does not accept: {e}")),
                        Err(_) => std::thread::sleep(Duration::from_millis(200)),
                    }
                    tries += 1;
                };
                let client = End::new(s);
                let up: Vec<R> = std::iter::once(packet.clone()).chain(more.iter().cloned()).collect();
                let _ = client.tx.send(Wr::Bytes(bytes(&up, *v5), cut.clone()));
                links.push(Link { v5: *v5, client, broker: None, up, down: vec![], over: false });
                let me = links.last_mut().unwrap();
                if c.nobody {
                    ensure!(me.client.wait(PATIENCE, |h| h.end.is_some()), "open:nobody", "step {k}: the broker cannot be reached, and the client is not told");
                    me.over = true;
                    o.label("no broker");
                    continue;
                }
                // its connection at the broker
                let end = Instant::now() + PATIENCE;
                let mut g = b.conns.0.lock().unwrap();
                loop {
                    let mine = |e: &End| match rc::frame_len(&e.bytes()) {
                        Ok(Some(n)) => matches!(rc::decode(&e.bytes()[..n], *v5), Ok(R::Connect { keep_alive, .. }) if matches!(packet, R::Connect { keep_alive: k, .. } if *k == keep_alive)),
                        _ => false,
                    };
                    if let Some(i) = g.iter().position(mine) {
                        me.broker = Some(g.remove(i));
                        break;
                    }
                    if Instant::now() > end {
                        let had: Vec<_> = g.iter().map(|e| e.bytes().len()).collect();
                        return fail("connect", format!("step {k}: the CONNECT of {client_id:?} does not reach the broker (unknown connections with {had:?} bytes)"));
                    }
                    g = b.conns.1.wait_timeout(g, Duration::from_millis(2)).unwrap().0;
                }
                drop(g);
                arrived(me.broker.as_ref().unwrap(), &me.up, *v5, true, "up")?;
                let ack = R::Connack { sp: false, code: 0, props: vec![] };
                let _ = me.broker.as_ref().unwrap().tx.send(Wr::Bytes(rc::encode(&ack, *v5, 0), vec![]));
                me.down.push(ack);
                o.label("clients");
                o.nt();
            }
            Step::Send { who, up, packets, cut, wait } => {
                let Some(l) = links.get_mut(*who as usize) else { continue };
                if l.over {
                    continue;
                }
                let (from, to, log) = if *up { (&l.client, l.broker.as_ref().unwrap(), &mut l.up) } else { (l.broker.as_ref().unwrap(), &l.client, &mut l.down) };
                let _ = from.tx.send(Wr::Bytes(bytes(packets, l.v5), cut.clone()));
                log.extend(packets.iter().cloned());
                o.add("packets", packets.len() as u64);
                if *wait {
                    arrived(to, log, l.v5, true, if *up { "up" } else { "down" })?;
                }
            }
            Step::End { who, up, way, last } => {
                let Some(l) = links.get_mut(*who as usize) else { continue };
                if l.over {
                    continue;
                }
                let br = l.broker.as_ref().unwrap();
                // what the other has sent is there by then
                let (from, to, what, back) = if *up { (&l.client, br, "up", "down") } else { (br, &l.client, "down", "up") };
                arrived(from, if *up { &l.down } else { &l.up }, l.v5, true, back)?;
                let log = if *up { &mut l.up } else { &mut l.down };
                let mut bs = bytes(last, l.v5);
                log.extend(last.iter().cloned());
                if *way == Way::Malformed {
                    bs.extend([0, 0]);
                }
                let _ = from.tx.send(Wr::Bytes(bs, vec![]));
                match way {
                    Way::Fin => drop(from.tx.send(Wr::Fin)),
                    Way::Reset => drop(from.tx.send(Wr::Reset)),
                    Way::Malformed => {}
                }
                if *way == Way::Reset {
                    // the copies of the socket that are left close when the link goes
                    let l = links.remove(*who as usize);
                    let name = format!("open:{what}:{way:?}");
                    let (gone, stays) = if *up { (l.client, l.broker.unwrap()) } else { (l.broker.unwrap(), l.client) };
                    let log = if *up { &l.up } else { &l.down };
                    gone.reset();
                    let ok = stays.wait(PATIENCE, |h| h.end.is_some());
                    let r = arrived(&stays, log, l.v5, false, what);
                    stays.close();
                    links.insert(*who as usize, Link { v5: l.v5, client: dead()?, broker: None, up: vec![], down: vec![], over: true });
                    r?;
                    ensure!(ok, name, "step {k}: the {} has broken the connection off, and the other side stays open", if *up { "client" } else { "broker" });
                } else {
                    arrived(to, log, l.v5, true, &format!("{what}:{way:?}"))?;
                    ensure!(to.wait(PATIENCE, |h| h.end.is_some()), format!("open:{what}:{way:?}"), "step {k}: the {} has ended, and the other side stays open", if *up { "client" } else { "broker" });
                    arrived(to, log, l.v5, true, what)?;
                    // and the one that ended hears of it
                    ensure!(from.wait(PATIENCE, |h| h.end.is_some()), format!("half:{what}:{way:?}"), "step {k}: the {} has ended ({way:?}), and its connection is not closed", if *up { "client" } else { "broker" });
                    l.over = true;
                }
                o.label(match (up, way) {
                    (true, Way::Fin) => "the client ends",
                    (true, Way::Reset) => "the client breaks off",
                    (true, Way::Malformed) => "malformed data of the client",
                    (false, Way::Fin) => "the broker ends",
                    (false, Way::Reset) => "the broker breaks off",
                    (false, Way::Malformed) => "malformed data of the broker",
                });
            }
        }
    }
    for l in links.iter().filter(|l| !l.over) {
        let br = l.broker.as_ref().unwrap();
        arrived(br, &l.up, l.v5, true, "up")?;
        arrived(&l.client, &l.down, l.v5, true, "down")?;
        for (e, what) in [(br, "up"), (&l.client, "down")] {
            ensure!(e.heard.0.lock().unwrap().end.is_none(), format!("ended:{what}"), "a connection ends though neither the client nor the broker has ended it");
        }
    }
    let n = b.conns.0.lock().unwrap().len();
    ensure!(n == 0, "surplus", "{n} connections at the broker belong to no client");
    Ok(())
}
/// stands for an endpoint that is gone
fn dead() -> Result<End, Fail> {
    let Ok(l) = TcpListener::bind("127.0.0.1:0") else { return fail("harness", "no port") };
    match TcpStream::connect(l.local_addr().unwrap()) {
        Ok(s) => Ok(End::new(s)),
        Err(e) => fail("harness", e.to_string()),
    }
}
impl End {
    /// closes the last copies of the socket
    fn reset(self) {
        drop(self.tx);
        for t in self.th {
            let _ = t.join();
        }
    }
}

pub fn g02() -> Property {
    Property {
        id: "G02",
        rule: "at least one client reached the broker",
        assumptions: &["The loopback network."],
        subs: vec![Box::new(Sub { name: "proxies", quick: 800, thorough: 20_000, threads: 24, gen, check })],
    }
}
