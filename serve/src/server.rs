//! One server in this process: a tree, its connections and a single-threaded runtime, so that every run is repeatable.
use crate::inline::inline;
use futures::future::poll_fn;
use goko::plugins::discrete::prelude::*;
use goko::plugins::discrete::tracker::BayesCategoricalTracker;
use goko::*;
use hyper::{Body, Request, Response};
use pointcloud::*;
use serde_json::Value;
use serve_goko::core::CoreWriter;
use serve_goko::http::{GokoHttp, MakeGokoHttp, ResponseFuture};
use serve_goko::parsers::MsgPackDense;
use std::sync::Arc;
use tokio::runtime::{Builder, Runtime};
use tower::Service;

pub type Cloud = DefaultLabeledCloud<L2>;
pub type Conn = GokoHttp<Cloud, MsgPackDense>;
pub type Maker = MakeGokoHttp<Cloud, MsgPackDense>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Kind {
    pub dim: usize,
    pub points: usize,
    pub plugins: bool,
}

pub const SMALL: Kind = Kind { dim: 2, points: 9, plugins: true };
pub const WIDE: Kind = Kind { dim: 20, points: 24, plugins: true };
pub const PLAIN: Kind = Kind { dim: 3, points: 14, plugins: false };

/// More points than any other kind, all distinct.
pub const MANY: Kind = Kind { dim: 2, points: 2500, plugins: true };

pub fn point(kind: Kind, i: usize) -> Vec<f32> {
    if kind.points > 1000 {
        return (0..kind.dim).map(|c| if c == 0 { (i % 61) as f32 * 0.37 } else { i as f32 * 0.0113 }).collect();
    }
    (0..kind.dim).map(|c| ((i * 7 + c * 3) % 16) as f32 * 0.5 + if i % 4 == 3 { 16.0 } else { 0.0 }).collect()
}

pub fn tree(kind: Kind) -> CoverTreeWriter<Cloud> {
    let data: Vec<f32> = (0..kind.points).flat_map(|i| point(kind, i)).collect();
    let labels: Vec<i64> = (0..kind.points).map(|i| (i % 3) as i64).collect();
    let cloud = Arc::new(Cloud::new_simple(data, kind.dim, labels));
    let mut b = CoverTreeBuilder::new();
    b.set_scale_base(1.5).set_leaf_cutoff(2).set_min_res_index(-4).set_rng_seed(5).set_verbosity(0);
    let mut t = inline(|| b.build(cloud)).unwrap();
    if kind.plugins {
        t.add_plugin::<GokoDirichlet>(GokoDirichlet::default());
        t.generate_summaries();
    }
    t
}

pub struct Server {
    pub rt: Runtime,
    pub maker: Maker,
    pub core: Arc<CoreWriter<Cloud, Vec<f32>>>,
    pub conns: Vec<Conn>,
}

impl Server {
    pub fn new(kind: Kind, conns: usize) -> Server {
        let rt = Builder::new_current_thread().enable_time().build().unwrap();
        let (core, maker) = {
            let _in = rt.enter();
            let core = Arc::new(CoreWriter::new(tree(kind)));
            (Arc::clone(&core), Maker::new(core))
        };
        let mut s = Server { rt, maker, core, conns: vec![] };
        for _ in 0..conns {
            s.connect();
        }
        s
    }
    pub fn connect(&mut self) -> usize {
        let c = self.open();
        self.conns.push(c);
        self.conns.len() - 1
    }
    pub fn open(&mut self) -> Conn {
        let Server { rt, maker, .. } = self;
        rt.block_on(async {
            poll_fn(|cx| Service::<()>::poll_ready(maker, cx)).await.unwrap();
            Service::<()>::call(maker, ()).await.unwrap()
        })
    }
    /// Lets everything that can run, run.
    pub fn settle(&self) {
        self.steps(40)
    }
    pub fn steps(&self, n: usize) {
        self.rt.block_on(async move {
            for _ in 0..n {
                tokio::task::yield_now().await;
            }
        })
    }
    pub fn submit(&mut self, conn: usize, req: Request<Body>) -> Result<ResponseFuture, String> {
        let Server { rt, conns, .. } = self;
        let c = &mut conns[conn];
        rt.block_on(async { poll_fn(|cx| c.poll_ready(cx)).await }).map_err(|e| format!("the connection takes no more requests: {}", e))?;
        let _in = rt.enter();
        Ok(c.call(req))
    }
    /// Sends a request and waits for its answer.
    pub fn ask(&mut self, conn: usize, req: Request<Body>) -> Result<(u16, String), String> {
        let f = self.submit(conn, req)?;
        self.rt.block_on(async {
            let r = f.await.map_err(|e| format!("no response: {}", e))?;
            text(r).await
        })
    }
}

pub async fn text(r: Response<Body>) -> Result<(u16, String), String> {
    let status = r.status().as_u16();
    let b = hyper::body::to_bytes(r.into_body()).await.map_err(|e| e.to_string())?;
    Ok((status, String::from_utf8(b.to_vec()).map_err(|e| e.to_string())?))
}

pub fn pack(p: &[f32]) -> Vec<u8> {
    rmp_serde::to_vec(&p.to_vec()).unwrap()
}

pub fn req(method: &str, uri: &str, body: Option<&[f32]>) -> Request<Body> {
    let b = match body {
        Some(p) => Body::from(pack(p)),
        None => Body::empty(),
    };
    Request::builder().method(method).uri(uri).body(b).unwrap()
}

/// The library's own answers, as the server should present them.
pub struct Library {
    pub reader: CoverTreeReader<Cloud>,
    pub _writer: Option<CoverTreeWriter<Cloud>>,
}

fn exact(f: f32) -> Value {
    // as the text the server writes, read back
    serde_json::from_str(&serde_json::to_string(&f).unwrap()).unwrap()
}

impl Library {
    pub fn new(kind: Kind) -> Library {
        let w = tree(kind);
        Library { reader: w.reader(), _writer: Some(w) }
    }
    fn name(&self, i: usize) -> String {
        self.reader.point_cloud().name(i).unwrap()
    }
    pub fn parameters(&self) -> Value {
        serde_json::json!({"scale_base": 1.5, "leaf_cutoff": 2, "min_res_index": -4, "use_singletons": true, "partition_type": "Nearest", "verbosity": 0, "rng_seed": 5})
    }
    pub fn knn(&self, q: &[f32], k: usize) -> Value {
        let v: Vec<Value> = self.reader.knn(&q, k).unwrap().iter().map(|(d, i)| serde_json::json!({"name": self.name(*i), "distance": exact(*d)})).collect();
        serde_json::json!({ "knn": v })
    }
    pub fn routing_knn(&self, q: &[f32], k: usize) -> Value {
        let v: Vec<Value> = self.reader.routing_knn(&q, k).unwrap().iter().map(|(d, i)| serde_json::json!({"name": self.name(*i), "distance": exact(*d)})).collect();
        serde_json::json!({ "routing_knn": v })
    }
    pub fn path(&self, q: &[f32]) -> Value {
        let v: Vec<Value> = self
            .reader
            .path(&q)
            .unwrap()
            .iter()
            .map(|(d, a)| {
                let s = match self.reader.get_node_label_summary(*a) {
                    Some(s) => serde_json::from_str(&serde_json::to_string(&*s).unwrap()).unwrap(),
                    None => Value::Null,
                };
                serde_json::json!({"name": self.name(a.1), "layer": a.0, "distance": exact(*d), "label_summary": s})
            })
            .collect();
        serde_json::json!({ "path": v })
    }
    pub fn tracker(&self, window: usize) -> BayesCategoricalTracker<Cloud> {
        BayesCategoricalTracker::new(window, self.reader.clone())
    }
}

pub fn stats(t: &BayesCategoricalTracker<Cloud>) -> Value {
    let s = t.kl_div_stats();
    serde_json::json!({"CurrentStats": {"kl_div": t.kl_div(), "max": s.max, "min": s.min, "nz_count": s.nz_count, "moment1_nz": s.moment1_nz, "moment2_nz": s.moment2_nz, "sequence_len": s.sequence_len}})
}

/// Equal, numbers up to rounding (the order of summation is not fixed).
pub fn close(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            x == y || (x - y).abs() <= 1e-7 * (1.0 + x.abs().max(y.abs()))
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| close(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map(|w| close(v, w)).unwrap_or(false)),
        _ => a == b,
    }
}

pub fn expect(got: &Result<(u16, String), String>, want: &Value) -> Result<(), String> {
    let (status, body) = got.as_ref().map_err(|e| e.clone())?;
    let v: Value = serde_json::from_str(body).map_err(|e| format!("status {}, body {:?} is no JSON: {}", status, body, e))?;
    if *status != 200 {
        return Err(format!("status {}, body {}", status, body));
    }
    if !close(&v, want) {
        return Err(format!("answer {}, the library gives {}", v, want));
    }
    Ok(())
}
