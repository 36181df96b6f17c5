//! C22: every request is answered exactly once and nothing breaks what comes after it.
use crate::run::{h, Run, Seen};
use crate::server::*;
use flate2::write::{GzEncoder, ZlibEncoder};
use flate2::Compression;
use futures::channel::mpsc;
use futures::task::ArcWake;
use hyper::server::conn::Http;
use hyper::service::service_fn;
use hyper::{Body, Request};
use serde_json::Value;
use serve_goko::http::ResponseFuture;
use std::future::Future;
use std::io::Write;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tower::load::Load;
use tower::Service;

// ---------------------------------------------------------------- poll schedules

struct Flag(AtomicBool);
impl ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.store(true, SeqCst)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Ev {
    Submit,
    Chunk,
    End,
    Abort,
    /// the caller gives up waiting
    Drop,
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum What {
    Knn,
    Track,
    Parameters,
    Nowhere,
    Garbage,
}

type BodySender = mpsc::UnboundedSender<Result<Vec<u8>, std::io::Error>>;

struct Live {
    fut: Option<Pin<Box<ResponseFuture>>>,
    spent: Option<Pin<Box<ResponseFuture>>>,
    flag: Arc<Flag>,
    polled: bool,
    body: Option<BodySender>,
    bytes: Vec<u8>,
    sent: usize,
    answer: Option<Result<(u16, String), String>>,
    submitted: bool,
    dropped: bool,
    finished: bool,
    aborted: bool,
}

fn bytes_of(w: What, i: usize) -> Vec<u8> {
    match w {
        What::Knn | What::Track => pack(&point(SMALL, i)),
        What::Garbage => vec![0xc1, 0xff, 0x00, 0x93],
        _ => vec![],
    }
}

fn request_of(w: What, body: Body) -> Request<Body> {
    let (m, u) = match w {
        What::Knn | What::Garbage => ("GET", "/knn?k=3"),
        What::Track => ("POST", "/track/point"),
        What::Parameters => ("GET", "/"),
        What::Nowhere => ("GET", "/nowhere"),
    };
    Request::builder().method(m).uri(u).body(body).unwrap()
}

fn needs_body(w: What) -> bool {
    matches!(w, What::Knn | What::Track | What::Garbage)
}

fn poll_all(s: &Server, live: &mut Vec<Live>, must_wait: bool) -> Result<(), String> {
    for (i, l) in live.iter_mut().enumerate() {
        if let Some(f) = &mut l.fut {
            let woken = l.flag.0.swap(false, SeqCst);
            let waker = futures::task::waker(Arc::clone(&l.flag));
            let r = {
                let _in = s.rt.enter();
                f.as_mut().poll(&mut Context::from_waker(&waker))
            };
            match r {
                Poll::Pending => l.polled = true,
                Poll::Ready(r) => {
                    if must_wait {
                        return Err(format!("request {} was answered before anything could have run", i));
                    }
                    if l.polled && !woken {
                        return Err(format!("request {} became ready without waking the one who waits for it", i));
                    }
                    // answered, though whoever waited still holds on to the future
                    l.spent = l.fut.take();
                    l.answer = Some(match r {
                        Ok(r) => s.rt.block_on(text(r)),
                        Err(e) => Err(e.to_string()),
                    });
                }
            }
        }
    }
    Ok(())
}

fn loads(s: &Server, live: &[Live], conn_of: &[usize]) -> Result<(), String> {
    for (c, conn) in s.conns.iter().enumerate() {
        let want = live.iter().enumerate().filter(|(i, l)| conn_of[*i] == c && l.fut.is_some()).count() as u32;
        let got = Load::load(conn);
        if got != want {
            return Err(format!("connection {} reports {} requests in flight, there are {}", c, got, want));
        }
    }
    Ok(())
}

fn schedule(whats: &[What], progs: &[Vec<Ev>], conn_of: &[usize], order: &[usize], extra_polls: usize) -> Result<Seen, String> {
    let lib = Library::new(SMALL);
    let conns = conn_of.iter().max().unwrap() + 1;
    let mut s = Server::new(SMALL, conns);
    s.ask(0, req("POST", "/track/add?window_size=0", None))?;
    let mut live: Vec<Live> = whats
        .iter()
        .enumerate()
        .map(|(i, w)| Live {
            fut: None,
            spent: None,
            flag: Arc::new(Flag(AtomicBool::new(false))),
            polled: false,
            body: None,
            bytes: bytes_of(*w, i),
            sent: 0,
            answer: None,
            submitted: false,
            dropped: false,
            finished: false,
            aborted: false,
        })
        .collect();
    let mut at = vec![0; progs.len()];
    let mut queue: Vec<Vec<usize>> = vec![vec![]; conns];
    for r in order {
        let e = progs[*r][at[*r]];
        at[*r] += 1;
        match e {
            Ev::Submit => {
                let (tx, rx) = mpsc::unbounded();
                let body = if needs_body(whats[*r]) { Body::wrap_stream(rx) } else { Body::empty() };
                live[*r].body = Some(tx);
                let f = s.submit(conn_of[*r], request_of(whats[*r], body))?;
                live[*r].fut = Some(Box::pin(f));
                live[*r].submitted = true;
                live[*r].finished = !needs_body(whats[*r]);
                queue[conn_of[*r]].push(*r);
            }
            Ev::Chunk => {
                let l = &mut live[*r];
                let left = progs[*r][at[*r]..].iter().filter(|e| **e == Ev::Chunk).count();
                let to = if left == 0 { l.bytes.len() } else { l.sent + (l.bytes.len() - l.sent) / (left + 1) };
                let piece = l.bytes[l.sent..to].to_vec();
                l.sent = to;
                let _ = l.body.as_ref().unwrap().unbounded_send(Ok(piece));
            }
            Ev::End => {
                live[*r].body = None;
                live[*r].finished = true;
            }
            Ev::Abort => {
                let l = &mut live[*r];
                let _ = l.body.as_ref().unwrap().unbounded_send(Err(std::io::Error::new(std::io::ErrorKind::Other, "gone")));
                l.body = None;
                l.finished = true;
                l.aborted = true;
            }
            Ev::Drop => {
                live[*r].fut = None;
                live[*r].dropped = true;
            }
        }
        loads(&s, &live, conn_of).map_err(|m| format!("right after {:?} of request {}: {}", e, r, m))?;
        if e == Ev::Submit {
            // nothing has run yet
            for _ in 0..extra_polls {
                let before = live.iter().map(|l| l.fut.is_some()).collect::<Vec<_>>();
                poll_all(&s, &mut live, false)?;
                if live[*r].fut.is_none() && before[*r] {
                    return Err(format!("request {} was answered before its worker ran", r));
                }
                loads(&s, &live, conn_of).map_err(|m| format!("polling after {:?} of request {}: {}", e, r, m))?;
            }
        }
        s.settle();
        for _ in 0..1 + extra_polls {
            poll_all(&s, &mut live, false)?;
            loads(&s, &live, conn_of).map_err(|m| format!("polling after {:?} of request {}: {}", e, r, m))?;
        }
        // a request whose own body and whose predecessors' bodies are complete has its answer
        for q in &queue {
            let mut clear = true;
            for i in q {
                clear &= live[*i].finished;
                if clear && !live[*i].dropped && live[*i].answer.is_none() {
                    return Err(format!("after {:?} of request {}: request {} is complete but not answered", e, r, i));
                }
            }
        }
    }
    let mut tracked = 0;
    let mut unsure = 0;
    for (i, l) in live.iter().enumerate() {
        if l.dropped {
            if whats[i] == What::Track && l.finished && !l.aborted {
                unsure += 1;
            }
            continue;
        }
        let a = l.answer.as_ref().ok_or_else(|| format!("request {} was never answered", i))?;
        if l.aborted {
            if let Ok((200, b)) = a {
                return Err(format!("request {} broke off in the body and was answered with {}", i, b));
            }
            continue;
        }
        match whats[i] {
            What::Knn => expect(a, &lib.knn(&point(SMALL, i), 3))?,
            What::Parameters => expect(a, &lib.parameters())?,
            What::Track => {
                tracked += 1;
                expect(a, &serde_json::json!({"TrackPath": {"success": true}}))?
            }
            What::Nowhere | What::Garbage => match a {
                Ok((n, _)) if (400..600).contains(n) => (),
                a => return Err(format!("request {} ({:?}) was answered with {:?}", i, whats[i], a)),
            },
        }
    }
    // a tracked point is tracked exactly once
    let st = s.ask(0, req("GET", "/track/stats?window_size=0", None))?;
    let v: Value = serde_json::from_str(&st.1).map_err(|e| e.to_string())?;
    let n = v["CurrentStats"]["sequence_len"].as_u64().ok_or_else(|| format!("tracker answers {}", v))? as usize;
    if n < tracked || n > tracked + unsure {
        return Err(format!("{} points were tracked and acknowledged, the tracker counts {}", tracked, n));
    }
    // and everything still works
    for c in 0..conns {
        let q = point(SMALL, 5);
        expect(&s.ask(c, req("GET", "/knn?k=2", Some(&q))), &lib.knn(&q, 2)).map_err(|e| format!("a later request on connection {}: {}", c, e))?;
    }
    loads(&s, &live, conn_of)?;
    Ok(Seen { hash: h(&format!("{:?}", live.iter().map(|l| &l.answer).collect::<Vec<_>>())), transitions: order.len() as u64 })
}

fn orders(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if left.iter().all(|n| *n == 0) {
        out.push(cur.clone());
        return;
    }
    for i in 0..left.len() {
        if left[i] > 0 {
            left[i] -= 1;
            cur.push(i);
            orders(left, cur, out);
            cur.pop();
            left[i] += 1;
        }
    }
}

fn programs(long: bool) -> Vec<(What, Vec<Ev>)> {
    use Ev::*;
    use What::*;
    let mut v = vec![
        (Knn, vec![Submit, Chunk, End]),
        (Track, vec![Submit, Chunk, End]),
        (Knn, vec![Submit, Chunk, Abort]),
        (Knn, vec![Submit, Drop, Chunk, End]),
        (Track, vec![Submit, Chunk, Drop, End]),
        (Knn, vec![Submit, Chunk, Drop, Abort]),
        (Garbage, vec![Submit, Chunk, End]),
        (Parameters, vec![Submit]),
        (Nowhere, vec![Submit]),
        (Parameters, vec![Submit, Drop]),
    ];
    if long {
        v.push((Knn, vec![Submit, Chunk, Chunk, End]));
        v.push((Knn, vec![Submit, Chunk, Chunk, Abort]));
        v.push((Track, vec![Submit, Chunk, Chunk, Chunk, End]));
    }
    v
}

fn schedules(run: &Run) {
    let two = programs(true);
    let n2 = if run.thorough { two.len() } else { two.len() - 1 };
    let mut jobs: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for i in 0..n2 {
        for j in 0..n2 {
            jobs.push((vec![i, j], vec![0, 0]));
            jobs.push((vec![i, j], vec![0, 1]));
        }
    }
    let three = if run.thorough { 8 } else { 4 };
    let order3 = [7usize, 0, 2, 9, 6, 1, 3, 8];
    for i in 0..three {
        for j in 0..three {
            for k in 0..three {
                for c in [[0, 0, 0], [0, 0, 1], [0, 1, 0]].iter() {
                    jobs.push((vec![order3[i], order3[j], order3[k]], c.to_vec()));
                }
            }
        }
    }
    run.bound(format!("all interleavings of the events (submit, body pieces, end, break-off, caller giving up) of every pair of {} request programs and every triple of {} of them on one and two connections, every answer polled early and repeatedly", n2, three));
    run.par(jobs.len(), |j| {
        let (ps, conn_of) = &jobs[j];
        let whats: Vec<What> = ps.iter().map(|i| two[*i].0).collect();
        let progs: Vec<Vec<Ev>> = ps.iter().map(|i| two[*i].1.clone()).collect();
        let mut out = vec![];
        orders(&mut progs.iter().map(|p| p.len()).collect(), &mut vec![], &mut out);
        for o in out {
            for extra in 0..2 {
                run.case(|| format!("schedule {:?} {:?} conns={:?} order={:?} extra={}", whats, progs, conn_of, o, extra), || schedule(&whats, &progs, conn_of, &o, extra));
            }
        }
    });
}

/// Many requests at once: the queues between connection and workers fill up.
fn crowd(run: &Run) {
    let all = programs(true);
    let sizes = [6usize, 11, 24, 45, 130];
    run.bound(format!("{:?} concurrent requests of mixed and of equal programs on one, two and five connections, nine orders of their events each", sizes));
    let mixes: Vec<Vec<usize>> = vec![(0..all.len()).collect(), vec![0], vec![1], vec![7], vec![2, 0], vec![3, 1, 9], vec![8, 6, 0]];
    run.par(sizes.len() * mixes.len() * 3, |j| {
        let n = sizes[j % sizes.len()];
        let mix = &mixes[j / sizes.len() % mixes.len()];
        let cs = [1usize, 2, 5][j / sizes.len() / mixes.len()];
        let pick: Vec<usize> = (0..n).map(|i| mix[i % mix.len()]).collect();
        let whats: Vec<What> = pick.iter().map(|i| all[*i].0).collect();
        let progs: Vec<Vec<Ev>> = pick.iter().map(|i| all[*i].1.clone()).collect();
        let conn_of: Vec<usize> = (0..n).map(|i| (i * 3 + i / 4) % cs).collect();
        let conn_of = if conn_of.iter().max() == Some(&(cs - 1)) { conn_of } else { (0..n).map(|i| i % cs).collect() };
        // (step, request) pairs in different orders; the steps of one request keep theirs
        let mut evs: Vec<(usize, usize)> = vec![];
        progs.iter().enumerate().for_each(|(i, p)| (0..p.len()).for_each(|k| evs.push((k, i))));
        let keys: Vec<Box<dyn Fn(&(usize, usize)) -> (usize, usize)>> = vec![
            Box::new(|(k, i)| (*k, *i)),
            Box::new(move |(k, i)| (*k, n - i)),
            Box::new(|(k, i)| (*i, *k)),
            Box::new(move |(k, i)| (n - i, *k)),
            Box::new(move |(k, i)| ((i * 7 + k * 13) % n, *k)),
            Box::new(|(k, i)| (i / 3 + k, *i)),
            Box::new(|(k, i)| (i / 10 + 2 * k, *i)),
            Box::new(move |(k, i)| ((*k).min(1), (i * (k + 1) * 5) % n)),
            Box::new(move |(k, i)| (if *k == 0 { 0 } else { 1 + (n - i) / 4 }, *k)),
        ];
        for (o, key) in keys.iter().enumerate() {
            let mut e = evs.clone();
            e.sort_by_key(|x| key(x));
            let order: Vec<usize> = e.iter().map(|x| x.1).collect();
            run.case(|| format!("crowd of {} of programs {:?} on {} connections, order {}", n, mix, cs, o), || schedule(&whats, &progs, &conn_of, &order, o % 2));
        }
    });
}

// ---------------------------------------------------------------- on the wire

#[derive(Clone, Debug)]
enum Want {
    /// the library's answer
    Exactly(Value),
    /// a client error or server error status
    Refused,
    /// any one well-formed answer
    Any,
}

#[derive(Clone)]
struct Wire {
    name: &'static str,
    method: &'static str,
    uri: String,
    headers: Vec<(&'static str, Vec<u8>)>,
    body: Vec<u8>,
    want: Want,
}

fn zlib(b: &[u8]) -> Vec<u8> {
    let mut e = ZlibEncoder::new(vec![], Compression::default());
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
fn gzip(b: &[u8]) -> Vec<u8> {
    let mut e = GzEncoder::new(vec![], Compression::default());
    e.write_all(b).unwrap();
    e.finish().unwrap()
}

fn kinds(lib: &Library, kind: Kind) -> Vec<Wire> {
    let p = point(kind, 3);
    let q: Vec<f32> = (0..kind.dim).map(|i| 0.25 + i as f32).collect();
    let good = pack(&p);
    let w = |name, method, uri: &str, body: Vec<u8>, want| Wire { name, method, uri: uri.to_string(), headers: vec![], body, want };
    let t = |name, method, uri: &str, ct: &[u8], body: Vec<u8>, want| Wire { name, method, uri: uri.to_string(), headers: vec![("Content-Type", ct.to_vec())], body, want };
    let mut nan = q.clone();
    nan[0] = f32::NAN;
    let mut inf = q.clone();
    inf[1] = f32::INFINITY;
    let mut longer = q.clone();
    longer.push(1.0);
    longer.push(2.0);
    let shorter = &q[..q.len() - 1];
    let cut = zlib(&good);
    let cutz = cut[..cut.len() / 2].to_vec();
    let mut flip = gzip(&good);
    let at = flip.len() / 2;
    flip[at] ^= 0x55;
    use Want::*;
    vec![
        w("knn", "GET", "/knn?k=4", good.clone(), Exactly(lib.knn(&p, 4))),
        w("knn default", "GET", "/knn", pack(&q), Exactly(lib.knn(&q, 10))),
        w("routing", "GET", "/routing_knn?k=2", good.clone(), Exactly(lib.routing_knn(&p, 2))),
        w("path", "GET", "/path", pack(&q), Exactly(lib.path(&q))),
        w("parameters", "GET", "/", vec![], Exactly(lib.parameters())),
        w("stats", "GET", "/track/stats?window_size=7&tracker_name=nobody", vec![], Exactly(serde_json::json!({"Unknown": ["nobody", null]}))),
        t("gzip", "GET", "/knn?k=3", b"gzip", gzip(&good), Exactly(lib.knn(&p, 3))),
        t("zlib", "GET", "/knn?k=3", b"zlib", zlib(&good), Exactly(lib.knn(&p, 3))),
        t("zlib as gzip", "GET", "/path", b"gzip", zlib(&good), Exactly(lib.path(&p))),
        w("no body", "GET", "/knn?k=2", vec![], Refused),
        w("no body tracked", "POST", "/track/point", vec![], Refused),
        w("unknown path", "GET", "/nothing/here", vec![], Refused),
        w("unknown path with body", "POST", "/knn", good.clone(), Refused),
        w("bad msgpack", "GET", "/path", vec![0xc1], Refused),
        w("a string", "GET", "/knn", rmp_serde::to_vec(&"hello").unwrap(), Refused),
        w("a number", "GET", "/knn", vec![7], Refused),
        w("cut msgpack", "GET", "/knn", good[..good.len() - 1].to_vec(), Refused),
        w("claims to be huge", "GET", "/knn", vec![0xdd, 0xff, 0xff, 0xff, 0xff, 1], Refused),
        w("huge k", "GET", "/knn?k=99999999999999999999999999999", good.clone(), Any),
        w("huge routing k", "GET", "/routing_knn?k=18446744073709551616", good.clone(), Any),
        w("largest k", "GET", "/knn?k=18446744073709551615", good.clone(), Exactly(lib.knn(&p, usize::MAX))),
        w("k of nothing", "GET", "/knn?k=", good.clone(), Any),
        w("negative k", "GET", "/knn?k=-1", good.clone(), Any),
        w("k of letters", "GET", "/knn?k=abc&k=2", good.clone(), Any),
        w("foreign digits", "GET", "/knn?k=%D9%A3", good.clone(), Any),
        t("unknown content type", "GET", "/knn", b"application/json", good.clone(), Any),
        t("odd content type", "GET", "/knn", b"gz\xffip", good.clone(), Refused),
        t("empty content type", "GET", "/knn", b"", good.clone(), Any),
        t("not gzip", "GET", "/knn", b"gzip", good.clone(), Refused),
        t("not zlib", "GET", "/knn", b"zlib", good.clone(), Refused),
        t("cut stream", "GET", "/knn", b"zlib", cutz, Refused),
        t("damaged stream", "POST", "/track/point", b"gzip", flip, Refused),
        w("not a number", "GET", "/knn?k=3", pack(&nan), Any),
        w("infinite", "GET", "/path", pack(&inf), Any),
        w("nan tracked", "POST", "/track/point", pack(&nan), Any),
        w("too long", "GET", "/knn?k=3", pack(&longer), Any),
        w("too short", "GET", "/routing_knn?k=3", pack(shorter), Any),
        w("too short for a path", "GET", "/path", pack(shorter), Any),
        w("empty point", "GET", "/path", pack(&[]), Any),
        w("too long tracked", "POST", "/track/point", pack(&longer), Any),
        w("too short tracked", "POST", "/track/point", pack(shorter), Any),
        w("add without window", "POST", "/track/add", vec![], Refused),
        w("add with a bad window", "POST", "/track/add?window_size=x", vec![], Refused),
        w("add with a huge window", "POST", "/track/add?window_size=99999999999999999999", vec![], Refused),
        w("stats without window", "GET", "/track/stats?tracker_name=a", vec![], Refused),
        w("largest window", "POST", "/track/add?window_size=18446744073709551615&tracker_name=big", vec![], Any),
        w("names", "GET", "/track/stats?window_size=1&tracker_name=%00%ff%22", vec![], Any),
        w("track at nobody", "POST", "/track/point?tracker_name=nobody", good, Exactly(serde_json::json!({"Unknown": ["nobody", null]}))),
    ]
}

/// May be refused before its body is read.
fn head_decides(w: &Wire) -> bool {
    !w.body.is_empty() && ["unknown path", "huge", "k of", "negative", "foreign", "content type"].iter().any(|s| w.name.contains(s))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Framing {
    Length,
    /// the body in chunks of this many bytes
    Chunks(usize),
}

fn raw(w: &Wire, f: Framing, last: bool) -> Vec<u8> {
    let mut v = format!("{} {} HTTP/1.1\r\nHost: x\r\n", w.method, w.uri).into_bytes();
    for (k, x) in &w.headers {
        v.extend(k.as_bytes());
        v.extend(b": ");
        v.extend(x);
        v.extend(b"\r\n");
    }
    if last {
        v.extend(b"Connection: close\r\n");
    }
    match f {
        Framing::Length => {
            if !w.body.is_empty() {
                v.extend(format!("Content-Length: {}\r\n", w.body.len()).bytes());
            }
            v.extend(b"\r\n");
            v.extend(&w.body);
        }
        Framing::Chunks(n) => {
            v.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            for c in w.body.chunks(n) {
                v.extend(format!("{:x}\r\n", c.len()).bytes());
                v.extend(c);
                v.extend(b"\r\n");
            }
            v.extend(b"0\r\n\r\n");
        }
    }
    v
}

/// The responses in a byte stream.
fn responses(mut b: &[u8]) -> Result<Vec<(u16, String)>, String> {
    let mut out = vec![];
    while !b.is_empty() {
        let end = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| format!("half a response: {:?}", String::from_utf8_lossy(b)))?;
        let head = String::from_utf8_lossy(&b[..end]).to_string();
        b = &b[end + 4..];
        let status: u16 = head.split_whitespace().nth(1).and_then(|s| s.parse().ok()).ok_or_else(|| format!("no status in {:?}", head))?;
        let len = head
            .lines()
            .find_map(|l| l.to_lowercase().strip_prefix("content-length:").map(|s| s.trim().parse::<usize>().unwrap()))
            .ok_or_else(|| format!("no length in {:?}", head))?;
        if b.len() < len {
            return Err(format!("the response {:?} is cut short", head));
        }
        out.push((status, String::from_utf8_lossy(&b[..len]).to_string()));
        b = &b[len..];
    }
    Ok(out)
}

fn judge(w: &Want, got: &(u16, String)) -> Result<(), String> {
    match w {
        Want::Exactly(v) => expect(&Ok(got.clone()), v),
        Want::Refused if (400..600).contains(&got.0) => Ok(()),
        Want::Any if got.0 == 200 || (400..600).contains(&got.0) => Ok(()),
        w => Err(format!("answered with {:?}, expected {:?}", got, w)),
    }
}

/// One connection: the pieces written one after the other, the server running in between; all it sent back.
fn converse(s: &mut Server, pieces: &[Vec<u8>]) -> Result<Vec<u8>, String> {
    let conn = Arc::new(Mutex::new(s.open()));
    let got = s.rt.block_on(async {
        let (mut client, server) = tokio::io::duplex(1 << 16);
        let task = tokio::spawn(async move {
            let svc = service_fn(move |r: Request<Body>| {
                let f = conn.lock().unwrap().call(r);
                async move { f.await }
            });
            Http::new().serve_connection(server, svc).await.map_err(|e| e.to_string())
        });
        for p in pieces {
            if client.write_all(p).await.is_err() {
                break;
            }
            for _ in 0..12 {
                tokio::task::yield_now().await;
            }
        }
        let mut got = vec![];
        let read = async {
            let _ = client.read_to_end(&mut got).await;
        };
        let timed = tokio::time::timeout(std::time::Duration::from_secs(20), read).await.is_err();
        if timed {
            return Err(format!("no end of the answers within 20 s, so far {:?}", String::from_utf8_lossy(&got)));
        }
        let end = task.await;
        match end {
            Ok(_) => Ok(got),
            Err(e) => Err(format!("the connection broke: {}", e)),
        }
    })?;
    Ok(got)
}

fn all_good(s: &mut Server, lib: &Library, kind: Kind) -> Result<(), String> {
    let q = point(kind, 5);
    expect(&s.ask(0, req("GET", "/knn?k=2", Some(&q))), &lib.knn(&q, 2)).map_err(|e| format!("afterwards, another connection's query: {}", e))?;
    expect(&s.ask(0, req("POST", "/track/point", Some(&q))), &serde_json::json!({"TrackPath": {"success": true}})).map_err(|e| format!("afterwards, another connection tracking a point: {}", e))?;
    let st = s.ask(0, req("GET", "/track/stats?window_size=2", None))?;
    if st.0 != 200 || !st.1.contains("CurrentStats") {
        return Err(format!("afterwards, the tracker answers {:?}", st));
    }
    Ok(())
}

fn session(kind: Kind, lib: &Library, ws: &[&Wire], pieces: &[Vec<u8>]) -> Result<Seen, String> {
    let mut s = Server::new(kind, 1);
    s.ask(0, req("POST", "/track/add?window_size=2", None))?;
    let got = converse(&mut s, pieces)?;
    let got = responses(&got)?;
    // hyper closes a connection whose request was answered from its head alone while its body was still coming
    let closed_early = !got.is_empty() && got.len() < ws.len() && head_decides(ws[got.len() - 1]) && got[got.len() - 1].0 != 200;
    if got.len() != ws.len() && !closed_early {
        return Err(format!("{} requests, {} responses: {:?}", ws.len(), got.len(), got));
    }
    for (i, (w, g)) in ws.iter().zip(&got).enumerate() {
        judge(&w.want, g).map_err(|e| format!("request {} ({}): {}", i, w.name, e))?;
    }
    all_good(&mut s, lib, kind)?;
    Ok(Seen { hash: h(&got), transitions: (pieces.len() + ws.len()) as u64 })
}

fn sequences(run: &Run) {
    for kind in [SMALL, WIDE].iter() {
        let lib = Library::new(*kind);
        let ks = kinds(&lib, *kind);
        let n = ks.len();
        let lib = Mutex::new(lib);
        let framings = [Framing::Length, Framing::Chunks(3), Framing::Chunks(1000)];
        let tail = &ks[0];
        run.bound(format!("{:?}: all sequences of two of {} kinds of request (well-formed, malformed, oversized) followed by a good one, sent at once and one by one, with declared length and in chunks", kind, n));
        run.par(n * n, |i| {
            let lib = Library { reader: lib.lock().unwrap().reader.clone(), _writer: None };
            let (a, b) = (&ks[i / n], &ks[i % n]);
            for f in framings.iter() {
                for at_once in [false, true].iter() {
                    if *at_once && *f == Framing::Chunks(3) {
                        continue;
                    }
                    run.case(
                        || format!("sequence {:?} {:?} at_once={} {:?} {:?}", kind, f, at_once, a.name, b.name),
                        || {
                            let mut pieces = vec![raw(a, *f, false), raw(b, *f, false), raw(tail, *f, true)];
                            if *at_once {
                                pieces = vec![pieces.concat()];
                            }
                            session(*kind, &lib, &[a, b, tail], &pieces)
                        },
                    )
                }
            }
        });
    }
}

fn splits(run: &Run) {
    let kind = SMALL;
    let lib = Library::new(kind);
    let ks = kinds(&lib, kind);
    let lib = Mutex::new(lib);
    let framings = [Framing::Length, Framing::Chunks(1), Framing::Chunks(4), Framing::Chunks(1000)];
    run.bound("every kind of request split at every byte into two writes, with declared length and in chunks of 1, 4 and all bytes");
    run.par(ks.len() * framings.len(), |i| {
        let lib = Library { reader: lib.lock().unwrap().reader.clone(), _writer: None };
        let w = &ks[i / framings.len()];
        let f = framings[i % framings.len()];
        let bytes = raw(w, f, true);
        for at in 1..bytes.len() {
            run.case(|| format!("split {:?} {:?} at {}", f, w.name, at), || session(kind, &lib, &[w], &[bytes[..at].to_vec(), bytes[at..].to_vec()]));
        }
        if run.thorough && w.uri.len() < 12 {
            for at in 1..bytes.len() {
                for to in at + 1..bytes.len() {
                    run.case(|| format!("split {:?} {:?} at {} and {}", f, w.name, at, to), || session(kind, &lib, &[w], &[bytes[..at].to_vec(), bytes[at..to].to_vec(), bytes[to..].to_vec()]));
                }
            }
        }
    });
    if run.thorough {
        run.bound("short requests split at every two bytes into three writes");
    }
}

/// A client that goes away in the middle of a request hurts nobody else.
fn vanishing(run: &Run) {
    let kind = SMALL;
    let lib = Library::new(kind);
    let ks = kinds(&lib, kind);
    let lib = Mutex::new(lib);
    let framings = [Framing::Length, Framing::Chunks(4)];
    run.bound("every kind of request cut off after every byte by a client that goes away");
    run.par(ks.len() * framings.len(), |i| {
        let lib = Library { reader: lib.lock().unwrap().reader.clone(), _writer: None };
        let w = &ks[i / framings.len()];
        let f = framings[i % framings.len()];
        let bytes = raw(w, f, false);
        for at in 0..bytes.len() + 1 {
            run.case(
                || format!("vanishing {:?} {:?} at {}", f, w.name, at),
                || {
                    let mut s = Server::new(kind, 1);
                    s.ask(0, req("POST", "/track/add?window_size=2", None))?;
                    let conn = Arc::new(Mutex::new(s.open()));
                    let ended = s.rt.block_on(async {
                        let (mut client, server) = tokio::io::duplex(1 << 16);
                        let c2 = Arc::clone(&conn);
                        let task = tokio::spawn(async move {
                            let svc = service_fn(move |r: Request<Body>| {
                                let f = c2.lock().unwrap().call(r);
                                async move { f.await }
                            });
                            let _ = Http::new().serve_connection(server, svc).await;
                        });
                        let _ = client.write_all(&bytes[..at]).await;
                        for _ in 0..12 {
                            tokio::task::yield_now().await;
                        }
                        drop(client);
                        tokio::time::timeout(std::time::Duration::from_secs(20), task).await
                    });
                    match ended {
                        Err(_) => return Err("the connection does not end although its client is gone".into()),
                        Ok(Err(e)) => return Err(format!("the connection broke: {}", e)),
                        Ok(Ok(())) => (),
                    }
                    let left = Load::load(&*conn.lock().unwrap());
                    if left != 0 {
                        return Err(format!("{} requests still counted as in flight", left));
                    }
                    all_good(&mut s, &lib, kind)?;
                    Ok(Seen { hash: h(&at), transitions: 2 })
                },
            );
        }
    });
}

/// Sizes, chunkings and encodings of one body.
fn bodies(run: &Run) {
    let mut jobs = vec![];
    for kind in [SMALL, WIDE, PLAIN].iter() {
        for enc in 0..4 {
            jobs.push((*kind, enc));
        }
    }
    run.bound("every division of a body into up to three pieces (empty ones included), plain, gzip, zlib, and zlib declared as gzip");
    run.par(jobs.len(), |j| {
        let (kind, enc) = jobs[j];
        let lib = Library::new(kind);
        let p: Vec<f32> = (0..kind.dim).map(|i| 0.3 + i as f32 * 0.7).collect();
        let plain = pack(&p);
        let (body, ct) = match enc {
            0 => (plain, None),
            1 => (gzip(&plain), Some("gzip")),
            2 => (zlib(&plain), Some("zlib")),
            _ => (zlib(&plain), Some("gzip")),
        };
        let want = lib.knn(&p, 5);
        let mut s = Server::new(kind, 1);
        let n = body.len();
        for a in 0..n + 1 {
            for b in a..n + 1 {
                if !run.thorough && n > 60 && (b - a) % 5 != 0 && b != n {
                    continue;
                }
                run.case(
                    || format!("body {:?} {:?} pieces at {} {}", kind, ct, a, b),
                    || {
                        let pieces: Vec<Result<Vec<u8>, std::io::Error>> = vec![Ok(body[..a].to_vec()), Ok(body[a..b].to_vec()), Ok(body[b..].to_vec())];
                        let mut r = Request::builder().method("GET").uri("/knn?k=5");
                        if let Some(c) = ct {
                            r = r.header("Content-Type", c);
                        }
                        let r = r.body(Body::wrap_stream(futures::stream::iter(pieces))).unwrap();
                        expect(&s.ask(0, r), &want)?;
                        Ok(Seen { hash: h(&(enc, a, b)), transitions: 3 })
                    },
                );
            }
        }
    });
    // points of all lengths around the buffer sizes, before and after each other on one connection
    let sizes: Vec<usize> = vec![1, 2, 15, 16, 17, 31, 100, 1637, 1638, 1639, 1700, 4000, 70000];
    run.bound(format!("long and short bodies one after the other on one connection, {:?} numbers, all ordered pairs", sizes));
    run.par(sizes.len() * sizes.len(), |i| {
        let (a, b) = (sizes[i / sizes.len()], sizes[i % sizes.len()]);
        run.case(
            || format!("sizes {} {}", a, b),
            || {
                let lib = Library::new(SMALL);
                let mut s = Server::new(SMALL, 1);
                for n in [a, 0, b, 0].iter() {
                    // a wrong length may be refused; two numbers may not
                    let p: Vec<f32> = if *n == 0 { vec![1.5, 2.5] } else { vec![0.5; *n] };
                    let got = s.ask(0, req("GET", "/knn?k=3", Some(&p)))?;
                    if p.len() == 2 {
                        expect(&Ok(got), &lib.knn(&p, 3))?;
                    } else if got.0 != 200 && !(400..600).contains(&got.0) {
                        return Err(format!("{:?}", got));
                    }
                }
                Ok(Seen { hash: h(&(a, b)), transitions: 4 })
            },
        )
    });
}

/// Points of thousands of coordinates, whole and in pieces.
fn long_points(run: &Run) {
    let dims: Vec<usize> = if run.thorough { vec![50, 150, 700, 1638, 2000, 13_200, 30_000, 250_000, 900_000] } else { vec![150, 700, 2000, 13_200, 30_000, 250_000] };
    let pieces = [1usize, 100, 1000, 4096, 8192, 65_536, usize::MAX];
    run.bound(format!("points of {:?} coordinates in pieces of {:?} bytes, plain, gzip, zlib, and zlib declared as gzip", dims, pieces));
    run.par(dims.len() * 4, |j| {
        let (dim, enc) = (dims[j / 4], j % 4);
        let kind = Kind { dim, points: 9, plugins: false };
        let lib = Library::new(kind);
        let mut s = Server::new(kind, 1);
        for size in pieces.iter().filter(|n| **n > 1 && (**n > 1000 || dim < 100_000) || dim < 3000) {
            for at in [0, dim / 2, dim - 1].iter() {
                run.case(
                    || format!("{} coordinates, encoding {}, pieces of {}, {} differs", dim, enc, size, at),
                    || {
                        let mut p = point(kind, 3);
                        p[*at] += 100.0;
                        let plain = pack(&p);
                        let (body, ct) = match enc {
                            0 => (plain, None),
                            1 => (gzip(&plain), Some("gzip")),
                            2 => (zlib(&plain), Some("zlib")),
                            _ => (zlib(&plain), Some("gzip")),
                        };
                        let ask = |uri: &str| {
                            let mut r = Request::builder().method("GET").uri(uri);
                            if let Some(c) = ct {
                                r = r.header("Content-Type", c);
                            }
                            let v: Vec<Result<Vec<u8>, std::io::Error>> = body.chunks((*size).min(body.len())).map(|c| Ok(c.to_vec())).collect();
                            r.body(Body::wrap_stream(futures::stream::iter(v))).unwrap()
                        };
                        expect(&s.ask(0, ask("/knn?k=5")), &lib.knn(&p, 5))?;
                        expect(&s.ask(0, ask("/path")), &lib.path(&p))?;
                        Ok(Seen { hash: h(&(dim, enc, size, at)), transitions: 2 })
                    },
                );
            }
        }
    });
}

/// Every short body and every body with one byte changed, declared as anything.
fn damaged(run: &Run) {
    let good = pack(&point(SMALL, 3));
    let first: Vec<u8> = if run.thorough { (0..=255).collect() } else { vec![0x00, 0x08, 0x1f, 0x28, 0x78, 0x8b, 0x90, 0x91, 0x92, 0xc0, 0xc1, 0xc4, 0xca, 0xdc, 0xdd, 0xff] };
    let mut groups: Vec<(String, Vec<Vec<u8>>)> = vec![("no byte".into(), vec![vec![]]), ("one byte".into(), (0..=255u8).map(|b| vec![b]).collect())];
    for a in first {
        groups.push((format!("{:#x} and another", a), (0..=255u8).map(|b| vec![a, b]).collect()));
    }
    for (name, whole) in [("plain", good.clone()), ("gzip", gzip(&good)), ("zlib", zlib(&good))].iter() {
        for at in 0..whole.len() {
            let change = |b: u8| {
                let mut w = whole.clone();
                w[at] = b;
                w
            };
            groups.push((format!("{} with byte {} changed", name, at), (0..=255).map(change).collect()));
        }
        groups.push((format!("{} cut short", name), (0..whole.len()).map(|n| whole[..n].to_vec()).collect()));
        groups.push((format!("{} and more", name), (0..=255u8).map(|b| [&whole[..], &[b][..]].concat()).collect()));
    }
    let types = [None, Some("gzip"), Some("zlib"), Some("deflate"), Some("application/msgpack")];
    let uris = [("GET", "/knn?k=2"), ("GET", "/routing_knn?k=2"), ("GET", "/path"), ("POST", "/track/point")];
    run.bound(format!("{} groups of damaged or tiny bodies, declared as {:?}, sent to {} points of the interface", groups.len(), types, uris.len()));
    run.par(groups.len() * types.len() * uris.len(), |i| {
        let (ct, (m, u), (name, bodies)) = (types[i % types.len()], uris[i / types.len() % uris.len()], &groups[i / types.len() / uris.len()]);
        run.case(
            || format!("body {} as {:?} to {}", name, ct, u),
            || {
                let lib = Library::new(SMALL);
                let mut s = Server::new(SMALL, 1);
                let mut statuses = vec![];
                for body in bodies {
                    let mut r = Request::builder().method(m).uri(u);
                    if let Some(c) = ct {
                        r = r.header("Content-Type", c);
                    }
                    let got = s.ask(0, r.body(Body::from(body.clone())).unwrap()).map_err(|e| format!("{:x?}: {}", body, e))?;
                    let fine = (got.0 == 200 && serde_json::from_str::<Value>(&got.1).is_ok()) || (400..600).contains(&got.0);
                    if !fine {
                        return Err(format!("{:x?}: the answer is {:?}", body, got));
                    }
                    statuses.push(got.0);
                }
                let p = point(SMALL, 4);
                expect(&s.ask(0, req("GET", "/knn?k=3", Some(&p))), &lib.knn(&p, 3))?;
                Ok(Seen { hash: h(&statuses), transitions: bodies.len() as u64 + 1 })
            },
        );
    });
}

pub fn c22(run: &'static Run) {
    damaged(run);
    bodies(run);
    long_points(run);
    schedules(run);
    crowd(run);
    sequences(run);
    splits(run);
    vanishing(run);
    run.assume("hyper's HTTP/1 framing and a single-threaded tokio runtime");
}
